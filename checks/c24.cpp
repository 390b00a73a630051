// C24: command lines for whole runner processes, against the settings they spell out.
#include "common.hpp"

using namespace hv;

namespace
{

struct Seen { int runs[3]; char root[1024]; std::uint64_t seed; int decimals[5]; bool generators, shuffle; char text[5][128]; double value; };
Seen* seen = nullptr;

void look (int task)
{
    ++seen->runs[task];
    auto& c = hart::CLIConfig::getInstance();
    std::snprintf (seen->root, sizeof (seen->root), "%s", c.getDataRootPath().c_str());
    seen->seed = (std::uint64_t) c.getRandomSeed();
    seen->decimals[0] = c.getLinDecimals();
    seen->decimals[1] = c.getDbDecimals();
    seen->decimals[2] = c.getSecDecimals();
    seen->decimals[3] = c.getHzDecimals();
    seen->decimals[4] = c.getRadDecimals();
    seen->generators = c.shouldRunGenerators();
    seen->shuffle = c.shouldShuffleTasks();
    std::ostringstream o[5];
    o[0] << hart::linPrecision << seen->value;
    o[1] << hart::dbPrecision << seen->value;
    o[2] << hart::secPrecision << seen->value;
    o[3] << hart::hzPrecision << seen->value;
    o[4] << hart::radPrecision << seen->value;
    for (int i = 0; i < 5; ++i) std::snprintf (seen->text[i], sizeof (seen->text[i]), "%s", o[i].str().c_str());
}

HART_TEST ("Test one") { look (0); }
HART_TEST_WITH_TAGS ("Test two", "[tag][other]") { look (1); }
HART_GENERATE ("Generator") { look (2); }

int mainOf (int argc, const char* const* argv)
{
    HART_RUN_ALL_TESTS (argc, argv);
}

struct Result { bool crashed = false; int status = -1; std::string out; };

Result child (Gen& g, const std::vector<std::string>& args, double value)
{
    if (! seen) seen = (Seen*) mmap (nullptr, sizeof (Seen), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::memset (seen, 0, sizeof (Seen));
    seen->value = value;
    const std::string file = g.workDir + "/stdout";
    const pid_t pid = fork();
    if (pid == 0)
    {
        alarm (60);
        const int fd = open (file.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2 (fd, 1); dup2 (fd, 2);
        std::vector<const char*> argv = { "prog" };
        for (auto& a : args) argv.push_back (a.c_str());
        argv.push_back (nullptr);
        const int status = mainOf ((int) argv.size() - 1, argv.data());
        std::cout.flush(); std::cerr.flush(); std::fflush (stdout);
        exit (status);
    }
    int status = 0;
    waitpid (pid, &status, 0);
    Result r;
    r.crashed = ! WIFEXITED (status);
    if (! r.crashed) r.status = WEXITSTATUS (status);
    std::ifstream f (file, std::ios::binary);
    std::stringstream ss; ss << f.rdbuf();
    r.out = ss.str();
    return r;
}

enum Kind { path, seed, lin, db, sec, hz, rad, tags, generators, shuffle, numKinds };
const char* const longNames[] = { "--data-root-path", "--seed", "--lin-decimals", "--db-decimals", "--sec-decimals", "--hz-decimals", "--rad-decimals", "--tags", "--run-generators", "--shuffle" };
const char* const shortNames[] = { "-d", "-s", "", "", "", "", "", "-t", "-g", "" };

void property (Gen& g)
{
    std::vector<Kind> kinds;
    for (int k = 0; k < numKinds; ++k) if (g.oneIn (3)) kinds.push_back ((Kind) k);
    for (size_t i = kinds.size(); i > 1; --i) std::swap (kinds[i - 1], kinds[g.size (0, i - 1)]);

    std::string wantRoot;
    std::uint64_t wantSeed = 0;
    int wantDecimals[5] = { 6, 1, 3, 1, 1 };
    bool wantGenerators = false, wantShuffle = false;

    std::vector<std::vector<std::string>> groups;
    bool shortForm = false, attached = false;
    for (Kind k : kinds)
    {
        std::string value;
        bool flag = false;
        switch (k)
        {
            case path: value = wantRoot = g.pick ({ "/data", "relative/dir", ".", "with space", "a=b", "./x,y", "/tmp/\xc3\xa9t\xc3\xa9", "..", "7", "C:\\data" }); break;
            case seed: wantSeed = g.draw (g.flip() ? 9 : 0xffffffffull); value = std::to_string (wantSeed); break;
            case lin: case db: case sec: case hz: case rad: wantDecimals[k - lin] = (int) g.size (0, 12); value = std::to_string (wantDecimals[k - lin]); break;
            case tags: value = g.pick ({ "tag", "some-tag", "t1" }); break;
            case generators: wantGenerators = flag = true; break;
            default: wantShuffle = flag = true; break;
        }
        const bool useShort = shortNames[k][0] && g.flip();
        shortForm |= useShort;
        const std::string name = useShort ? shortNames[k] : longNames[k];
        if (flag) groups.push_back ({ name });
        else if (g.flip()) { groups.push_back ({ useShort ? name + value : name + "=" + value }); attached = true; }
        else groups.push_back ({ name, value });
    }

    // Something wrong with it, or a request for help
    enum Twist { none, unknownLong, unknownShort, missingValue, malformed, stray, help };
    const int twist = g.mostly (2) ? none : (int) g.size (1, 6);
    std::vector<std::string> extra;
    switch (twist)
    {
        case unknownLong: extra = { g.pick ({ "--sead", "--suffle", "--data-root", "--run-generator", "--", "--decimals=3", "--verbose" }) }; if (extra[0] == "--") extra[0] = "--x"; break;
        case unknownShort: extra = { g.pick ({ "-x", "-v", "-q", "-S", "-G" }) }; break;
        case missingValue: case malformed:
        {
            std::vector<Kind> unused;
            for (int k = 0; k <= rad; ++k) if (std::find (kinds.begin(), kinds.end(), (Kind) k) == kinds.end() && (twist == missingValue || k != path)) unused.push_back ((Kind) k);
            if (unused.empty()) { groups.clear(); kinds.clear(); unused.push_back (hz); wantRoot = ""; }
            const Kind k = unused[g.size (0, unused.size() - 1)];
            if (twist == missingValue) { extra = { longNames[k] }; break; }
            const std::string bad = g.pick ({ "abc", "x1", "one", "1 2", "99999999999999999999999999", "--" });
            if (bad == "--" || g.flip()) extra = { std::string (longNames[k]) + "=" + (bad == "--" ? "?" : bad) };
            else extra = { longNames[k], bad };
            break;
        }
        case stray: extra = { g.pick ({ "stray", "test.wav", "3", "a b" }) }; break;
        case help: extra = { g.flip() ? "--help" : "-h" }; break;
        default: break;
    }
    if (! extra.empty())
    {
        const size_t at = twist == missingValue ? groups.size() : g.size (0, groups.size());
        groups.insert (groups.begin() + (long) at, extra);
    }

    std::vector<std::string> args;
    for (auto& x : groups) args.insert (args.end(), x.begin(), x.end());
    const double value = g.real (-1000, 1000);
    g.note ([&] (auto& s) { s << "prog"; for (auto& a : args) s << " '" << a << "'"; s << "  (value " << value << ")"; });

    const Result r = child (g, args, value);
    PBT_CHECK (! r.crashed, "the runner was ended by a signal: " << r.out.substr (0, 1000));
    const int ran = seen->runs[0] + seen->runs[1] + seen->runs[2];

    if (twist == help)
    {
        PBT_CHECK (r.status == 0, "asking for help gives the exit status " << r.status);
        PBT_CHECK (ran == 0, "asking for help ran " << ran << " tasks");
        for (auto& n : longNames) PBT_CHECK (r.out.find (n) != std::string::npos, "the help does not mention " << n << ": " << r.out);
        g.label ("help");
        g.nontrivial();
        return;
    }
    if (twist != none)
    {
        PBT_CHECK (r.status != 0, "a command line with a fault gives the exit status 0: " << r.out);
        PBT_CHECK (ran == 0, "a command line with a fault ran " << ran << " tasks");
        PBT_CHECK (! r.out.empty(), "a command line with a fault is refused without a word");
        g.label ("refused");
        g.nontrivial();
        return;
    }

    PBT_CHECK (r.status == 0, "the exit status is " << r.status << ", although no task fails: " << r.out);
    PBT_CHECK (seen->runs[0] == ! wantGenerators && seen->runs[1] == ! wantGenerators && seen->runs[2] == wantGenerators, "ran: test one " << seen->runs[0] << " times, test two " << seen->runs[1] << " times, the generator " << seen->runs[2] << " times");
    PBT_CHECK (seen->root == wantRoot, "the data root is \"" << seen->root << "\" instead of \"" << wantRoot << "\"");
    PBT_CHECK (seen->seed == wantSeed, "the seed is " << seen->seed << " instead of " << wantSeed);
    PBT_CHECK (seen->generators == wantGenerators && seen->shuffle == wantShuffle, "flags: generators " << seen->generators << ", shuffle " << seen->shuffle);
    for (int i = 0; i < 5; ++i)
    {
        PBT_CHECK (seen->decimals[i] == wantDecimals[i], longNames[lin + i] << " is " << seen->decimals[i] << " instead of " << wantDecimals[i]);
        char text[128];
        std::snprintf (text, sizeof (text), "%.*f", wantDecimals[i], value);
        PBT_CHECK (std::string (seen->text[i]) == text, longNames[lin + i] << " " << wantDecimals[i] << " shows " << seen->text[i] << " instead of " << text);
    }
    g.labelIf (shortForm, "short form");
    g.labelIf (attached, "value attached");
    g.labelIf (kinds.empty(), "no options");
    g.labelIf (wantGenerators, "generators");
    if (kinds.size() >= 2) g.nontrivial();
}

}  // namespace

PBT_MAIN ("C24", "x", property)
