// C25: a runner program of three source files (checks/c25/), run with generated plans and command lines.
#include "common.hpp"

using namespace hv;

namespace
{

constexpr int numBehaviours = 14;
const char files[] = { 'm', 'a', 'b' };

struct Plan { int behaviour = 0, count = 1; };
struct Result { bool crashed = false; int status = -1; std::string out; std::vector<std::string> journal; };

std::map<std::string, std::string> givenNames;   // by file and slot
std::string slotName (char file, int slot) { return slot >= 8 ? givenNames.at (std::string (1, file) + std::to_string (slot)) : slot < 6 ? std::string (1, file) + std::to_string (slot) : std::string ("shared name ") + file; }
bool isGenerator (int slot) { return (slot >= 4 && slot <= 6) || slot == 9; }
size_t count (const std::string& text, const std::string& what) { size_t n = 0; for (size_t p = text.find (what); p != std::string::npos; p = text.find (what, p + what.size())) ++n; return n; }

Result child (Gen& g, const std::string& program, const std::string& plan, const std::vector<std::string>& args)
{
    const std::string out = g.workDir + "/stdout", journal = g.workDir + "/journal", planFile = g.workDir + "/plan";
    writeFile (planFile, plan);
    writeFile (journal, "");
    const pid_t pid = fork();
    if (pid == 0)
    {
        alarm (60);
        const int fd = open (out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2 (fd, 1); dup2 (fd, 2);
        setenv ("HV_PLAN", planFile.c_str(), 1);
        setenv ("HV_JOURNAL", journal.c_str(), 1);
        for (auto& n : givenNames) setenv (("HV_NAME_" + n.first).c_str(), n.second.c_str(), 1);
        std::vector<char*> argv = { (char*) "prog" };
        for (auto& a : args) argv.push_back ((char*) a.c_str());
        argv.push_back (nullptr);
        execv (program.c_str(), argv.data());
        _exit (97);
    }
    int status = 0;
    waitpid (pid, &status, 0);
    Result r;
    r.crashed = ! WIFEXITED (status);
    if (! r.crashed) r.status = WEXITSTATUS (status);
    auto slurp = [] (const std::string& p) { std::ifstream f (p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); };
    r.out = slurp (out);
    std::istringstream lines (slurp (journal));
    for (std::string l; std::getline (lines, l);) r.journal.push_back (l);
    return r;
}

std::string marker (char file, int slot, int k) { return std::string ("<msg ") + file + std::to_string (slot) + "/" + std::to_string (k) + ">"; }

std::vector<std::pair<std::string, int>> messages (char file, int slot, const Plan& p)
{
    switch (p.behaviour)
    {
        case 3: return { { "HART_EXPECT_TRUE() failed", p.count } };
        case 4: { std::vector<std::pair<std::string, int>> m; for (int i = 0; i < p.count; ++i) m.push_back ({ marker (file, slot, i), 1 }); return m; }
        case 5: case 6: case 7: case 8: case 11: return { { marker (file, slot, 0), 1 } };
        case 9: return { { "HART_ASSERT_TRUE() failed", 1 } };
        case 12: return { { "HART_EXPECT_TRUE() failed", 1 } };
        case 13: return { { "expectTrue() failed", 1 } };
        default: return {};
    }
}

void property (Gen& g)
{
    const char* programs = std::getenv ("HV_PROGRAMS");
    if (! programs) throw std::logic_error ("HV_PROGRAMS is not set");
    std::vector<std::string> paths;
    { std::istringstream s (programs); for (std::string p; std::getline (s, p, ':');) paths.push_back (p); }
    const size_t which = g.size (0, paths.size() - 1);

    std::map<char, std::array<Plan, 10>> plan;
    std::string text;
    for (char f : files) for (int s = 0; s < 10; ++s)
    {
        Plan p;
        p.behaviour = g.flip() ? 0 : (int) g.draw (numBehaviours - 1);
        p.count = (int) g.size (1, 3);
        plan[f][(size_t) s] = p;
        text += std::string (1, f) + " " + std::to_string (s) + " " + std::to_string (p.behaviour) + " " + std::to_string (p.count) + "\n";
    }

    // Sometimes a test or generator has a name of another, perhaps of another file
    givenNames.clear();
    for (char f : files) for (int s : { 8, 9 }) givenNames[std::string (1, f) + std::to_string (s)] = std::string (1, f) + std::to_string (s);
    if (g.oneIn (8))
    {
        const char f = files[g.size (0, 2)], other = files[g.size (0, 2)];
        const int slot = (int) g.size (8, 9), another = (int) g.size (0, 9);
        givenNames[std::string (1, f) + std::to_string (slot)] = slotName (other, another);
    }
    std::map<bool, std::set<std::string>> taken;
    bool duplicates = false;
    for (char f : files) for (int s = 0; s < 10; ++s) duplicates |= ! taken[isGenerator (s)].insert (slotName (f, s)).second;

    const bool generators = g.oneIn (3), shuffle = g.oneIn (3), root = g.flip();
    const std::uint64_t seed = g.draw (g.flip() ? 9 : 0xffffffffull);
    int decimals[5] = { 6, 1, 3, 1, 1 };
    std::vector<std::string> args;
    if (generators) args.push_back ("-g");
    if (shuffle) args.push_back ("--shuffle");
    if (root) { args.push_back ("-d"); args.push_back (g.workDir); }
    if (seed != 0) { args.push_back ("-s"); args.push_back (std::to_string (seed)); }
    const char* names[] = { "--lin-decimals", "--db-decimals", "--sec-decimals", "--hz-decimals", "--rad-decimals" };
    for (int i = 0; i < 5; ++i) if (g.oneIn (3)) { decimals[i] = (int) g.size (0, 9); args.push_back (names[i]); args.push_back (std::to_string (decimals[i])); }

    g.note ([&] (auto& s) { s << "link order " << which; for (auto& n : givenNames) if (n.first != n.second) s << ", task " << n.first << " is named \"" << n.second << "\""; s << ", arguments"; for (auto& a : args) s << " " << a; s << "\nplan (file, task, behaviour, count):"; for (char f : files) for (int i = 0; i < 10; ++i) if (isGenerator (i) == generators && plan[f][(size_t) i].behaviour) s << "\n  " << f << " " << i << " " << plan[f][(size_t) i].behaviour << " x" << plan[f][(size_t) i].count; });

    const Result r = child (g, paths[which], text, args);

    if (duplicates)
    {
        PBT_CHECK (r.crashed || r.status != 0, "a name is registered twice in a category, but the program ends with status 0");
        PBT_CHECK (r.journal.empty(), "a name is registered twice in a category, but the program runs " << r.journal.size() << " tasks");
        g.label ("a name is taken");
        g.nontrivial();
        return;
    }

    PBT_CHECK (! r.crashed, "the program was ended by a signal; it printed: " << r.out.substr (0, 1500));

    // Every task of every file once; in the order of its file unless shuffled
    std::map<char, std::vector<int>> ran;
    std::vector<std::pair<char, int>> order;
    for (auto& l : r.journal) if (l.compare (0, 4, "run ") == 0) { ran[l[4]].push_back (l[5] - '0'); order.push_back ({ l[4], l[5] - '0' }); }
    size_t failing = 0;
    for (char f : files)
    {
        std::vector<int> want;
        for (int s = 0; s < 10; ++s) if (isGenerator (s) == generators) { want.push_back (s); if (! messages (f, s, plan[f][(size_t) s]).empty()) ++failing; }
        auto got = ran[f];
        if (shuffle) std::sort (got.begin(), got.end());
        PBT_CHECK (got == want, "of the " << want.size() << " tasks of file " << f << " " << got.size() << " ran, or not in their order; output: " << r.out.substr (0, 1500));
    }
    PBT_CHECK ((r.status == 0) == (failing == 0), "exit status " << r.status << " although " << failing << " tasks fail");

    // The report
    struct Section { std::string name; bool failed; std::string body; };
    std::vector<Section> sections;
    std::istringstream lines (r.out);
    bool ended = false;
    for (std::string line; std::getline (lines, line);)
    {
        const size_t cr = line.rfind ('\r');
        const std::string shown = cr == std::string::npos ? line : line.substr (cr + 1);
        const std::string p = "[   <3   ] ", f = "[  </3   ] ", ps = " - passed", fs = " - failed";
        if (shown.compare (0, p.size(), p) == 0 && shown.size() >= p.size() + ps.size() && shown.compare (shown.size() - ps.size(), ps.size(), ps) == 0)
            sections.push_back ({ shown.substr (p.size(), shown.size() - p.size() - ps.size()), false, "" });
        else if (shown.compare (0, f.size(), f) == 0 && shown.size() >= f.size() + fs.size() && shown.compare (shown.size() - fs.size(), fs.size(), fs) == 0)
            sections.push_back ({ shown.substr (f.size(), shown.size() - f.size() - fs.size()), true, "" });
        else if (line.compare (0, 10, "[ PASSED ]") == 0 || line.compare (0, 10, "[ FAILED ]") == 0) ended = true;
        else if (! ended && ! sections.empty()) sections.back().body += line + "\n";
    }
    PBT_CHECK (sections.size() == order.size(), "the report has " << sections.size() << " tasks, " << order.size() << " ran: " << r.out.substr (0, 1500));
    bool acrossFiles = false;
    for (size_t i = 0; i < sections.size(); ++i)
    {
        const char f = order[i].first;
        const int s = order[i].second;
        const Plan& p = plan[f][(size_t) s];
        acrossFiles |= p.behaviour >= 10;
        PBT_CHECK (sections[i].name == slotName (f, s), "reported \"" << sections[i].name << "\" where \"" << slotName (f, s) << "\" ran");
        const auto wanted = messages (f, s, p);
        PBT_CHECK (sections[i].failed == ! wanted.empty(), "\"" << sections[i].name << "\" (behaviour " << p.behaviour << ") is reported as " << (sections[i].failed ? "failed" : "passed"));
        for (auto& m : wanted)
            PBT_CHECK (count (sections[i].body, m.first) == (size_t) m.second, "the message \"" << m.first << "\" is printed " << count (sections[i].body, m.first) << " times under its task, which failed with it " << m.second << " times");
        for (const char* kind : { "HART_EXPECT_TRUE() failed", "HART_ASSERT_TRUE() failed", "expectTrue() failed", "expectFalse() failed", "<msg " })
        {
            bool mine = false;
            for (auto& m : wanted) mine |= m.first.find (kind) != std::string::npos;
            if (! mine && ! (p.behaviour == 4 || p.behaviour == 11) && p.behaviour != 5)
                PBT_CHECK (count (sections[i].body, kind) == 0, "a message of another task under \"" << sections[i].name << "\"");
        }
        PBT_CHECK (count (sections[i].body, "<msg ") == count (sections[i].body, std::string ("<msg ") + f + std::to_string (s) + "/"), "a message of another task under \"" << sections[i].name << "\"");
    }

    // Every file sees the command line
    std::ostringstream rest;
    rest << " root=" << (root ? g.workDir : "") << " seed=" << seed << " decimals=" << decimals[0];
    for (int i = 1; i < 5; ++i) rest << "," << decimals[i];
    rest << " generators=" << generators << " shuffle=" << shuffle << " texts=";
    for (int i = 0; i < 5; ++i) { char t[64]; std::snprintf (t, sizeof (t), "%s%.*f", i ? "," : "", decimals[i], 1.5); rest << t; }
    bool settingsSeen = false;
    for (auto& l : r.journal) if (l.compare (0, 9, "settings ") == 0)
    {
        settingsSeen = true;
        std::string want = l.substr (0, 10) + rest.str();
        PBT_CHECK (l.compare (0, want.size(), want) == 0, "a file sees other settings: " << l << "\nexpected: " << want);
        if (root) PBT_CHECK (l.find (" path=" + g.workDir + "/x.wav") != std::string::npos, "a file resolves paths elsewhere: " << l);
        PBT_CHECK (l.find ("(" + std::to_string (seed) + ")") != std::string::npos, "a file uses another seed for its noise: " << l);
    }
    g.labelIf (shuffle, "shuffled");
    g.labelIf (generators, "generators");
    g.labelIf (settingsSeen, "settings compared");
    g.labelIf (acrossFiles, "objects or failures across files");
    if (failing > 0 && (acrossFiles || settingsSeen)) g.nontrivial();
}

}  // namespace

PBT_MAIN ("C25", "x", property)
