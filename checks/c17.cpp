// C17: whole runner processes with generated sets of tests and generators.
#include "common.hpp"
#include <system_error>

using namespace hv;

namespace
{

enum Behaviour { pass, passRun, printLine, failMacro, failMsg, assertMacro, assertHolds, expectMacro, expectRun, assertRun, needsPath, throwStd, throwHart, expectThenThrow, expectThenAssert, throwEmpty, failEmpty, failLong, throwUnusual, badAlloc, numBehaviours };

struct Task { int behaviour = 0; int count = 1; bool generator = false; std::string name, tags; int id = 0; };

constexpr size_t maxTasks = 320;
std::vector<Task> tasks;                    // by id
struct Shared { size_t n; int executed[4096]; };
Shared* shared = nullptr;

inline std::string marker (int id, int k) { return "<msg " + std::to_string (id) + "/" + std::to_string (k) + ">"; }

inline std::string longText (int id) { return marker (id, 0) + "\n  a second line: 100% of \"it\"\n\n" + std::string (6000, 'x') + marker (id, 1); }

inline hart::AudioTestBuilder<float> run (const std::string& label)
{
    auto b = hart::processAudioWith (hart::GainDb<float> (0));
    b.withInputSignal (hart::SineWave<float>()).withDuration (0.002).withLabel (label);
    return b;
}

void perform (const Task& t)
{
    if (shared->n < 4096) shared->executed[shared->n++] = t.id;
    switch (t.behaviour)
    {
        case pass: break;
        case passRun: run ("fine").expectTrue (hart::PeaksBelow<float> (1)).assertFalse (hart::PeaksBelow<float> (-20)).process(); break;
        case printLine: std::cout << "a line printed by the task" << std::endl; break;
        case failMacro: HART_FAIL_TEST();
        case failMsg: HART_FAIL_TEST_MSG (marker (t.id, 0));
        case assertMacro: HART_ASSERT_TRUE (t.id < 0); break;
        case assertHolds: HART_ASSERT_TRUE (t.id >= 0); HART_EXPECT_TRUE (t.id >= 0); break;
        case expectMacro: for (int i = 0; i < t.count; ++i) { HART_EXPECT_TRUE (t.id < 0); } break;
        case expectRun: for (int i = 0; i < t.count; ++i) run (marker (t.id, i)).expectTrue (hart::PeaksBelow<float> (-20)).process(); break;
        case assertRun: run (marker (t.id, 0)).assertTrue (hart::PeaksBelow<float> (-20)).process(); break;
        case needsPath: { HART_REQUIRES_DATA_PATH_ARG; break; }
        case throwStd: if (t.count & 1) throw std::runtime_error (marker (t.id, 0)); else throw std::out_of_range (marker (t.id, 0));
        case throwHart: if (t.count & 1) throw hart::ValueError (marker (t.id, 0)); else throw hart::IOError (marker (t.id, 0));
        case expectThenThrow: run (marker (t.id, 0)).expectFalse (hart::PeaksBelow<float> (20)).process(); throw std::logic_error (marker (t.id, 1));
        case expectThenAssert: run (marker (t.id, 0)).expectTrue (hart::PeaksBelow<float> (-20)).assertFalse (hart::PeaksAt<float> (0)).process(); break;
        case throwEmpty: if (t.count & 1) throw std::runtime_error (""); else throw hart::TestAssertException ("");
        case failEmpty: HART_FAIL_TEST_MSG ("");
        case failLong: if (t.count & 1) { HART_FAIL_TEST_MSG (longText (t.id)); } throw std::length_error (longText (t.id));
        case throwUnusual: if (t.count & 1) throw std::system_error (std::make_error_code (std::errc::io_error), marker (t.id, 0)); else throw hart::TestAssertException (marker (t.id, 0));
        default: throw std::bad_alloc();
    }
}

// What must be printed for it; "\1" counts a text without a marker of its own
std::vector<std::pair<std::string, int>> messages (const Task& t, bool havePath)
{
    switch (t.behaviour)
    {
        case failMacro: return { { "HART_FAIL_TEST() triggered", 1 } };
        case failMsg: case throwStd: case throwHart: case throwUnusual: return { { marker (t.id, 0), 1 } };
        case assertMacro: return { { "HART_ASSERT_TRUE() failed", 1 } };
        case expectMacro: return { { "HART_EXPECT_TRUE() failed", t.count } };
        case expectRun: { std::vector<std::pair<std::string, int>> m; for (int i = 0; i < t.count; ++i) m.push_back ({ marker (t.id, i), 1 }); return m; }
        case assertRun: return { { marker (t.id, 0), 1 } };
        case needsPath: if (! havePath) return { { "--data-root-path", 1 } }; return {};
        case failEmpty: return { { "HART_FAIL_TEST_MSG() triggered", 1 } };
        case failLong: return { { longText (t.id), 1 } };
        case expectThenThrow: return { { marker (t.id, 0), 1 }, { marker (t.id, 1), 1 } };
        case expectThenAssert: return { { marker (t.id, 0), 2 } };  // an expectation and an assertion, both labelled
        default: return {};
    }
}

bool fails (const Task& t, bool havePath)
{
    switch (t.behaviour) { case pass: case passRun: case printLine: case assertHolds: return false; case needsPath: return ! havePath; default: return true; }
}

template <size_t I> void entry() { perform (tasks[I]); }
template <size_t... I> std::array<void (*)(), sizeof... (I)> makeTable (std::index_sequence<I...>) { return { { &entry<I>... } }; }
const auto table = makeTable (std::make_index_sequence<maxTasks>());

int mainOf (int argc, const char* const* argv)
{
    HART_RUN_ALL_TESTS (argc, argv);
}

struct Registration { int id; bool duplicate; };

struct ChildResult { int exitStatus = -1; bool crashed = false; std::string out; std::vector<int> executed; std::string registration; };

ChildResult child (Gen& g, const std::vector<Registration>& registrations, const std::vector<std::string>& args)
{
    const std::string file = g.workDir + "/stdout";
    if (! shared) shared = (Shared*) mmap (nullptr, sizeof (Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    static char* note = (char*) mmap (nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    shared->n = 0;
    note[0] = 0;
    const pid_t pid = fork();
    if (pid == 0)
    {
        alarm (60);
        const int fd = open (file.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2 (fd, 1);
        for (auto& r : registrations)
        {
            bool refused = false, otherError = false;
            try { hart::TestRegistry::getInstance().add (tasks[(size_t) r.id].name, tasks[(size_t) r.id].tags, tasks[(size_t) r.id].generator ? hart::TaskCategory::generate : hart::TaskCategory::test, table[(size_t) r.id]); }
            catch (const hart::ValueError&) { refused = true; }
            catch (...) { otherError = true; }
            if (refused != r.duplicate || otherError)
                std::snprintf (note, 4096, "registering \"%s\" %s", tasks[(size_t) r.id].name.c_str(), otherError ? "raised another error" : refused ? "was refused, although the name is new in its category" : "was accepted, although the name is taken in its category");
        }
        std::vector<const char*> argv = { "prog" };
        for (auto& a : args) argv.push_back (a.c_str());
        const int status = mainOf ((int) argv.size(), argv.data());
        std::cout.flush();
        std::fflush (stdout);
        exit (status);  // as returning from main()
    }
    int status = 0;
    waitpid (pid, &status, 0);
    ChildResult r;
    r.crashed = ! WIFEXITED (status);
    if (! r.crashed) r.exitStatus = WEXITSTATUS (status);
    std::ifstream f (file, std::ios::binary);
    std::stringstream ss; ss << f.rdbuf();
    r.out = ss.str();
    r.executed.assign (shared->executed, shared->executed + shared->n);
    r.registration = note;
    return r;
}

size_t count (const std::string& text, const std::string& what) { size_t n = 0; for (size_t p = text.find (what); p != std::string::npos; p = text.find (what, p + what.size())) ++n; return n; }

void property (Gen& g)
{
    const bool huge = g.oneIn (120);
    const size_t n = huge ? (g.mostly (3) ? 256 : g.size (255, 258)) : g.logSize (0, 24);
    tasks.assign (maxTasks, Task());
    std::vector<Registration> registrations;
    std::map<bool, std::set<std::string>> taken;
    const int hugeBehaviour = g.flip() ? failMsg : expectMacro;

    for (size_t i = 0; i < n; ++i)
    {
        Task& t = tasks[i];
        t.id = (int) i;
        t.behaviour = huge ? hugeBehaviour : g.flip() ? (int) pass : (int) g.draw (numBehaviours - 1);
        t.count = g.oneIn (40) ? (int) g.size (4, 20) : (int) g.size (1, 3);
        t.tags = g.pick ({ "", "[tag]", "[x][y]" });
        t.generator = ! huge && g.oneIn (3);
        if (i > 0 && ! huge && g.oneIn (10)) t.name = tasks[g.size (0, i - 1)].name;
        else t.name = std::string (g.pick ({ "Task", "A test, with punctuation: 100% \"quoted\"", "/path/like", "x", "\xd0\xb8\xd0\xbc\xd1\x8f", "  spaces ", " - passed" })) + " " + std::to_string (i) + (g.oneIn (8) ? " " + std::string (g.logSize (1, 400), 'n') : "");
        const bool duplicate = ! taken[t.generator].insert (t.name).second;
        registrations.push_back ({ t.id, duplicate });
    }

    const bool generators = ! huge && g.oneIn (3), shuffle = g.oneIn (3), havePath = g.flip();
    const std::uint64_t seed = g.draw (g.flip() ? 5 : 0xffffffffull);
    std::vector<std::string> args;
    if (generators) args.push_back (g.flip() ? "-g" : "--run-generators");
    if (shuffle) args.push_back ("--shuffle");
    if (havePath) { args.push_back (g.flip() ? "-d" : "--data-root-path"); args.push_back (g.workDir); }
    auto withSeed = [&] (std::uint64_t s) { auto a = args; if (s != 0 || g.flip()) { a.push_back (g.flip() ? "-s" : "--seed"); a.push_back (std::to_string (s)); } return a; };

    std::vector<int> selected;
    for (auto& r : registrations) if (! r.duplicate && tasks[(size_t) r.id].generator == generators) selected.push_back (r.id);

    g.note ([&] (auto& s) { s << (generators ? "generators " : "tests ") << (shuffle ? "shuffled " : "") << "seed " << seed << (havePath ? "" : " no data path"); for (auto& r : registrations) s << "\n  " << (tasks[(size_t) r.id].generator ? "generator " : "test ") << tasks[(size_t) r.id].name << (r.duplicate ? " (duplicate)" : "") << ": behaviour " << tasks[(size_t) r.id].behaviour << " x" << tasks[(size_t) r.id].count; });

    const ChildResult r = child (g, registrations, withSeed (seed));
    PBT_CHECK (! r.crashed, "the runner was ended by a signal; output so far: " << r.out.substr (0, 1500));
    PBT_CHECK (r.registration.empty(), r.registration);

    size_t failing = 0;
    for (int id : selected) if (fails (tasks[(size_t) id], havePath)) ++failing;
    PBT_CHECK ((r.exitStatus == 0) == (failing == 0), "exit status " << r.exitStatus << " although " << failing << " tasks fail");

    // Each exactly once, in order
    if (! shuffle) PBT_CHECK (r.executed == selected, "the tasks did not run once each in registration order (" << r.executed.size() << " executions of " << selected.size() << " tasks)");
    else
    {
        auto a = r.executed, b = selected;
        std::sort (a.begin(), a.end()); std::sort (b.begin(), b.end());
        PBT_CHECK (a == b, "shuffled tasks did not run once each (" << a.size() << " executions of " << b.size() << " tasks)");
    }

    // The report
    struct Section { std::string name; bool failed; std::string body; };
    std::vector<Section> sections;
    std::string tail;
    std::istringstream lines (r.out);
    bool ended = false;
    for (std::string line; std::getline (lines, line);)
    {
        const size_t cr = line.rfind ('\r');
        const std::string shown = cr == std::string::npos ? line : line.substr (cr + 1);
        const std::string p = "[   <3   ] ", f = "[  </3   ] ", ps = " - passed", fsx = " - failed";
        if (shown.compare (0, p.size(), p) == 0 && shown.size() >= p.size() + ps.size() && shown.compare (shown.size() - ps.size(), ps.size(), ps) == 0)
            sections.push_back ({ shown.substr (p.size(), shown.size() - p.size() - ps.size()), false, "" });
        else if (shown.compare (0, f.size(), f) == 0 && shown.size() >= f.size() + fsx.size() && shown.compare (shown.size() - fsx.size(), fsx.size(), fsx) == 0)
            sections.push_back ({ shown.substr (f.size(), shown.size() - f.size() - fsx.size()), true, "" });
        else if (line.compare (0, 10, "[ PASSED ]") == 0 || line.compare (0, 10, "[ FAILED ]") == 0) { ended = true; tail += line + "\n"; }
        else if (! ended && ! sections.empty()) sections.back().body += line + "\n";
    }

    if (selected.empty())
    {
        PBT_CHECK (sections.empty() && tail.empty(), "a run without tasks reports some: " << r.out);
        g.label ("nothing to run");
        return;
    }

    PBT_CHECK (sections.size() == r.executed.size(), "the report has " << sections.size() << " tasks, " << r.executed.size() << " ran");
    for (size_t i = 0; i < sections.size(); ++i)
    {
        const Task& t = tasks[(size_t) r.executed[i]];
        const Section& s = sections[i];
        PBT_CHECK (s.name == t.name, "reported \"" << s.name << "\" where \"" << t.name << "\" ran");
        PBT_CHECK (s.failed == fails (t, havePath), "\"" << t.name << "\" (behaviour " << t.behaviour << ") is reported as " << (s.failed ? "failed" : "passed"));
        size_t wanted = 0;
        for (auto& m : messages (t, havePath))
        {
            PBT_CHECK (count (s.body, m.first) == (size_t) m.second, "the message \"" << m.first << "\" is printed " << count (s.body, m.first) << " times under its task, which failed with it " << m.second << " times");
            if (m.first[0] == '<') PBT_CHECK (count (r.out, m.first) == (size_t) m.second, "the message \"" << m.first << "\" is printed outside its task as well");
            wanted += (size_t) m.second;
        }
        // No message of another task in here
        PBT_CHECK (count (s.body, "<msg ") == count (s.body, "<msg " + std::to_string (t.id) + "/"), "a message of another task under \"" << t.name << "\"");
        PBT_CHECK (count (s.body, "HART_EXPECT_TRUE() failed") == (size_t) (t.behaviour == expectMacro ? t.count : 0), "expectation messages of another task under \"" << t.name << "\"");
        if (t.behaviour == badAlloc) wanted = 1;
        if (! s.failed) PBT_CHECK (count (s.body, "-----------------------") == 0, "a passed task has messages");
    }

    std::string expectedTail = "[ PASSED ] " + std::to_string (selected.size() - failing) + "/" + std::to_string (selected.size()) + "\n";
    if (failing) expectedTail += "[ FAILED ] " + std::to_string (failing) + "/" + std::to_string (selected.size()) + "\n";
    PBT_CHECK (tail == expectedTail, "the totals are \"" << tail << "\" instead of \"" << expectedTail << "\"");

    if (shuffle && selected.size() > 1)
    {
        // Same seed, other behaviours: the same order
        for (size_t i = 0; i < n; ++i) tasks[i].behaviour = g.flip() ? pass : expectMacro;
        const ChildResult again = child (g, registrations, withSeed (seed));
        PBT_CHECK (! again.crashed, "the runner was ended by a signal");
        PBT_CHECK (again.executed == r.executed, "the same seed gave another order");
        g.label ("shuffled");
        if (selected.size() >= 8)
        {
            const ChildResult b = child (g, registrations, withSeed (seed ^ 1)), c = child (g, registrations, withSeed (seed ^ 2));
            PBT_CHECK (b.executed != r.executed || c.executed != r.executed, "three seeds gave the same order of " << selected.size() << " tasks");
        }
    }

    g.labelIf (failing == 0, "all pass");
    g.labelIf (failing && failing < selected.size(), "some fail");
    g.labelIf (failing == selected.size(), "all fail");
    g.labelIf (generators, "generators");
    g.labelIf (! havePath, "no data path");
    g.labelIf (huge, "more than 254 tasks");
    if (failing && failing < selected.size()) g.nontrivial();
    if (shuffle && selected.size() > 2) g.nontrivial();
}

}  // namespace

PBT_MAIN ("C17", "x", property)
