// A small property-based testing engine.
//
// A property is a function  void property (pbt::Gen& g)  which draws everything it needs from `g` and
// throws pbt::Failure (through PBT_CHECK / g.fail) when the code under test breaks its oracle.
// Every random decision is one number in a "choice sequence"; replaying the sequence replays the case, and
// shrinking works on the sequence (smaller numbers mean simpler choices), so generators need no shrinkers.
//
// Drivers in this file: random search over worker processes (a crash, sanitizer report or hang of a worker is
// a failure of the case it was running), shrinking, replay, and a libFuzzer entry point (-DPBT_FUZZ).
#pragma once

#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <limits>
#include <map>
#include <new>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt
{

using u64 = std::uint64_t;

struct Failure { std::string msg; };  // deliberately not a std::exception
struct Discard {};

inline u64 mix (u64 x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

struct Rng
{
    u64 s;
    explicit Rng (u64 seed) : s (seed) {}
    u64 next() { s += 0x9e3779b97f4a7c15ull; return mix (s); }
};

constexpr size_t maxChoices = 60000;
constexpr size_t maxLabels = 160;
constexpr size_t labelLength = 72;

// Lives in memory shared with the parent process
struct Slot
{
    std::atomic<u64> caseIndex;
    std::atomic<u64> casesStarted;
    std::atomic<u64> numChoices;
    u64 choices[maxChoices];
    int failed;  // 0 running/none, 1 failed, 2 finished everything
    char msg[6000];
    char notes[24000];
    u64 evaluations, discards, nontrivial, hashesCount;
    u64 numLabels;
    char labels[maxLabels][labelLength];
    u64 labelCounts[maxLabels];
};

class Gen
{
public:
    // ---- raw choices -----------------------------------------------------------------------
    u64 draw (u64 bound)  // 0..bound inclusive
    {
        u64 v = 0;

        if (bytes)
        {
            int n = bound <= 0xff ? 1 : bound <= 0xffff ? 2 : bound <= 0xffffffffull ? 4 : 8;
            if (bound == 0) n = 0;

            for (int i = 0; i < n && bytePos < byteSize; ++i)
                v = (v << 8) | bytes[bytePos++];

            if (v > bound)
                v = bound == ~0ull ? v : v % (bound + 1);
        }
        else if (replaying)
        {
            v = pos < replay.size() ? replay[pos] : 0;
            if (v > bound)
                v = bound == ~0ull ? v : v % (bound + 1);
        }
        else
        {
            v = rng.next();
            if (bound != ~0ull)
                v = (u64) (((unsigned __int128) v * ((unsigned __int128) bound + 1)) >> 64);
        }

        ++pos;

        if (slot)
        {
            const u64 n = slot->numChoices.load (std::memory_order_relaxed);
            if (n >= maxChoices)
                throw Discard{};
            slot->choices[n] = v;
            slot->numChoices.store (n + 1, std::memory_order_relaxed);
        }

        hash = mix (hash ^ mix (v + 0x1234567));
        return v;
    }

    // ---- generators ------------------------------------------------------------------------
    long long range (long long lo, long long hi) { return lo + (long long) draw ((u64) (hi - lo)); }
    size_t size (size_t lo, size_t hi) { return lo + (size_t) draw ((u64) (hi - lo)); }
    bool flip() { return draw (1) == 1; }
    bool oneIn (unsigned n) { return draw (n - 1) == n - 1; }     // shrinks to false
    bool mostly (unsigned n) { return draw (n - 1) != n - 1; }     // true in (n-1)/n, shrinks to true

    template <typename V> V pick (std::initializer_list<V> values)
    {
        return *(values.begin() + draw (values.size() - 1));
    }

    template <typename V> const V& pick (const std::vector<V>& values)
    {
        return values[draw (values.size() - 1)];
    }

    // log-distributed: small values are likely, but everything up to hi is possible
    size_t logSize (size_t lo, size_t hi)
    {
        int bits = 0;
        for (size_t span = hi - lo; span; span >>= 1) ++bits;
        const u64 k = draw ((u64) bits);
        const u64 cap = k >= 63 ? ~0ull : ((1ull << k) - 1);
        return lo + (size_t) draw (std::min<u64> (cap, hi - lo));
    }

    double unit() { return (double) draw (1u << 24) / (double) (1u << 24); }  // 0..1 inclusive
    double real (double lo, double hi) { return lo + (hi - lo) * unit(); }
    double logReal (double lo, double hi) { return lo * std::pow (hi / lo, unit()); }  // lo, hi > 0

    // ---- case bookkeeping --------------------------------------------------------------------
    void nontrivial() { isNontrivial = true; }

    void label (const std::string& l) { if (caseLabels.size() < 60) caseLabels.insert (l.substr (0, labelLength - 1)); }
    void labelIf (bool condition, const std::string& l) { if (condition) label (l); }

    template <typename F> void note (F&& writer)
    {
        if (! verbose || notes.size() > 20000) return;
        std::ostringstream s;
        s.precision (17);
        writer (s);
        notes += s.str();
        notes += '\n';
        if (slot) std::strncpy (slot->notes, notes.c_str(), sizeof slot->notes - 1);  // survives a crash
    }

    [[noreturn]] void fail (const std::string& m) { throw Failure { m }; }
    [[noreturn]] void discard() { throw Discard{}; }

    bool verbose = false;
    std::string workDir;  // a private scratch directory of this process, exists, unique per process

    // ---- engine internals ---------------------------------------------------------------------
    Rng rng { 0 };
    bool replaying = false;
    std::vector<u64> replay;
    const std::uint8_t* bytes = nullptr;
    size_t byteSize = 0, bytePos = 0;
    size_t pos = 0;
    u64 hash = 0;
    Slot* slot = nullptr;
    bool isNontrivial = false;
    std::set<std::string> caseLabels;
    std::string notes;
};

#define PBT_CHECK(cond, message) \
    do { if (! (cond)) { std::ostringstream pbtStream; pbtStream.precision (17); pbtStream << message; \
        throw pbt::Failure { pbtStream.str() + "  [" #cond ", " + std::string (std::strrchr (__FILE__, '/') ? std::strrchr (__FILE__, '/') + 1 : __FILE__) + ":" + std::to_string (__LINE__) + "]" }; } } while (0)

using Property = void (*) (Gen&);

struct Spec
{
    const char* id;
    const char* rule;
    Property property;
};

// ---------------------------------------------------------------------------------------------

inline std::string jsonEscape (const std::string& s)
{
    std::string out = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { out += '\\'; out += (char) c; }
        else if (c == '\n') out += "\\n";
        else if (c == '\t') out += "\\t";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf (b, sizeof b, "\\u%04x", c); out += b; }
        else out += (char) c;
    }
    return out + "\"";
}

inline double now()
{
    timespec t;
    clock_gettime (CLOCK_MONOTONIC, &t);
    return (double) t.tv_sec + 1e-9 * (double) t.tv_nsec;
}

// CPU time of a process with its reaped children is not needed: properties that fork wait for their children and
// bound them on their own.
inline double cpuTimeOf (pid_t pid)
{
    clockid_t clock;
    timespec t;
    if (clock_getcpuclockid (pid, &clock) != 0 || clock_gettime (clock, &t) != 0)
        return -1;
    return (double) t.tv_sec + 1e-9 * (double) t.tv_nsec;
}

inline void removeTree (const std::string& path)
{
    // Only ever called with a directory created by this engine
    const std::string cmd = "rm -rf -- '" + path + "'";
    if (path.find ("/pbt-") == std::string::npos) return;
    if (std::system (cmd.c_str()) != 0) {}
}

enum class Outcome { pass, fail, discard };

inline Outcome runCase (Property property, Gen& g, std::string& msg)
{
    try
    {
        property (g);
        return Outcome::pass;
    }
    catch (const Failure& f) { msg = f.msg; return Outcome::fail; }
    catch (const Discard&) { return Outcome::discard; }
    catch (const std::exception& e) { msg = std::string ("unexpected exception escaped: ") + e.what(); return Outcome::fail; }
    catch (...) { msg = "unexpected exception of unknown type escaped"; return Outcome::fail; }
}

#ifndef PBT_FUZZ

struct Engine
{
    Spec spec;
    u64 seed = 1;
    u64 cases = 1000;
    int workers = 8;
    double wallLimit = 400;
    double cpuPerCase = 30;
    std::string dir;       // scratch
    std::string outPath;   // result JSON
    std::string replayOut; // where to write the choices of a failure
    std::string replayIn;
    std::string bytesIn;

    std::vector<Slot*> slots;
    std::atomic<u64>* minFail = nullptr;
    u64* hashes = nullptr;  // shared, one per case

    static void* shared (size_t n)
    {
        void* p = mmap (nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) { std::perror ("mmap"); _exit (3); }
        return p;
    }

    void childSetup (const std::string& name, std::string& workDir)
    {
        workDir = dir + "/pbt-" + name;
        mkdir (workDir.c_str(), 0755);
        int fd = open ("/dev/null", O_WRONLY);
        dup2 (fd, 1);
        int fe = open ((dir + "/" + name + ".stderr").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        if (fe >= 0) dup2 (fe, 2);
        rlimit r { 0, 0 };
        setrlimit (RLIMIT_CORE, &r);
        rlimit fs { 256u << 20, 256u << 20 };
        setrlimit (RLIMIT_FSIZE, &fs);
    }

    static void addLabel (Slot* s, const std::string& l)
    {
        for (u64 i = 0; i < s->numLabels; ++i)
            if (l == s->labels[i]) { ++s->labelCounts[i]; return; }
        if (s->numLabels >= maxLabels) return;
        std::strncpy (s->labels[s->numLabels], l.c_str(), labelLength - 1);
        s->labelCounts[s->numLabels++] = 1;
    }

    // Runs one case into the slot; returns the outcome
    Outcome oneCase (Slot* slot, Gen& g, u64 index)
    {
        slot->numChoices.store (0);
        slot->caseIndex.store (index);
        slot->casesStarted.fetch_add (1);
        g.slot = slot;
        std::string msg;
        const Outcome o = runCase (spec.property, g, msg);
        if (o == Outcome::fail)
        {
            std::strncpy (slot->msg, msg.c_str(), sizeof slot->msg - 1);
            std::strncpy (slot->notes, g.notes.c_str(), sizeof slot->notes - 1);
        }
        return o;
    }

    // The worker loop. `until` limits the indexes (history replay).
    void worker (int w, Slot* slot, u64 until, const std::string& samplesPath)
    {
        std::string workDir;
        childSetup ("w" + std::to_string (w), workDir);
        int samples = 0;
        std::ofstream samplesFile;

        for (u64 i = (u64) w; i < cases && i <= until; i += (u64) workers)
        {
            if (minFail->load() < i)
                break;

            Gen g;
            g.workDir = workDir;
            g.rng = Rng (mix (seed * 0x9e3779b97f4a7c15ull + mix (i)));
            g.verbose = samples < 2 && i >= (u64) workers * 3;
            const Outcome o = oneCase (slot, g, i);

            if (o == Outcome::fail)
            {
                slot->failed = 1;
                u64 cur = minFail->load();
                while (i < cur && ! minFail->compare_exchange_weak (cur, i)) {}
                _exit (1);
            }

            ++slot->evaluations;

            if (o == Outcome::discard) { ++slot->discards; continue; }

            for (const auto& l : g.caseLabels)
                addLabel (slot, l);

            if (g.isNontrivial)
            {
                ++slot->nontrivial;
                hashes[i] = g.hash | 1;

                if (g.verbose && ! samplesPath.empty() && ! g.notes.empty())
                {
                    ++samples;
                    if (! samplesFile.is_open()) samplesFile.open (samplesPath);
                    samplesFile << g.notes << '\0' << std::flush;
                }
            }
        }

        slot->failed = 2;
        _exit (0);
    }

    struct Result { bool failed = false; std::string msg, notes; bool hang = false; };

    std::string crashText (const std::string& name, int status)
    {
        std::ifstream f (dir + "/" + name + ".stderr");
        std::string line, out;
        int kept = 0, frames = 0;
        while (std::getline (f, line) && kept < 30)
        {
            const bool head = line.find ("ERROR: ") != std::string::npos || line.find ("runtime error") != std::string::npos
                || line.find ("SUMMARY") != std::string::npos || line.find ("Assertion") != std::string::npos
                || line.find ("terminate called") != std::string::npos || line.find ("what():") != std::string::npos;
            const bool frame = line.find ("    #") == 0 && line.find ("/include/") != std::string::npos && frames < 8;
            if (head || frame) { out += line.substr (0, 300) + "\n"; ++kept; frames += frame; }
        }
        std::ostringstream s;
        if (WIFSIGNALED (status)) s << "crash: killed by signal " << WTERMSIG (status) << "\n";
        else s << "crash: process exited with status " << WEXITSTATUS (status) << "\n";
        return s.str() + out;
    }

    // Waits for one child, enforcing the CPU budget per case. Returns true if it was killed for hanging.
    bool await (pid_t pid, int& status, double cpuBudget)
    {
        double delay = 0.0002;
        for (;;)
        {
            const pid_t r = waitpid (pid, &status, WNOHANG);
            if (r == pid) return false;
            if (r < 0) { status = 0; return false; }
            if (cpuTimeOf (pid) > cpuBudget)
            {
                kill (pid, SIGKILL);
                waitpid (pid, &status, 0);
                return true;
            }
            timespec t { 0, (long) (delay * 1e9) };
            nanosleep (&t, nullptr);
            delay = std::min (delay * 1.5, 0.02);
        }
    }

    int execCounter = 0;

    Result runChoices (const std::vector<u64>& choices, std::vector<u64>* actual, double cpuBudget)
    {
        static Slot* slot = (Slot*) shared (sizeof (Slot));
        slot->numChoices.store (0);
        slot->msg[0] = slot->notes[0] = 0;
        slot->failed = 0;
        const std::string name = "x";
        const pid_t pid = fork();

        if (pid == 0)
        {
            std::string workDir;
            childSetup (name, workDir);
            Gen g;
            g.workDir = workDir;
            g.replaying = true;
            g.replay = choices;
            g.verbose = true;
            g.slot = slot;
            const Outcome o = oneCase (slot, g, 0);
            slot->failed = o == Outcome::fail ? 1 : 2;
            _exit (o == Outcome::fail ? 1 : 0);
        }

        ++execCounter;
        int status = 0;
        Result res;
        res.hang = await (pid, status, cpuBudget);

        if (res.hang) { res.failed = true; res.msg = "hang: the case used more than its CPU budget"; }
        else if (slot->failed == 1) { res.failed = true; res.msg = slot->msg; res.notes = slot->notes; }
        else if (slot->failed != 2) { res.failed = true; res.msg = crashText (name, status); res.notes = slot->notes; }

        if (actual)
            actual->assign (slot->choices, slot->choices + std::min<u64> (slot->numChoices.load(), maxChoices));

        return res;
    }

    std::vector<u64> shrink (std::vector<u64> best, double seconds, int maxExec, bool hang)
    {
        const double end = now() + seconds;
        const int startExec = execCounter;
        auto more = [&] { return now() < end && execCounter - startExec < maxExec; };

        auto attempt = [&] (std::vector<u64> c) -> bool
        {
            if (! more()) return false;
            std::vector<u64> actual;
            const Result r = runChoices (c, &actual, hang ? 6.0 : cpuPerCase);
            if (! r.failed) return false;
            if (actual.size() < c.size() || (actual.size() == c.size() && actual <= c)) c = actual;
            // drop redundant zeros at the end
            while (! c.empty() && c.back() == 0) c.pop_back();
            if (c.size() < best.size() || (c.size() == best.size() && c < best)) { best = c; return true; }
            return false;
        };

        bool improved = true;
        while (improved && more())
        {
            improved = false;

            for (size_t keep = best.size() / 2; keep > 0 && more(); keep /= 2)
                if (best.size() > keep) { std::vector<u64> c (best.begin(), best.begin() + (long) keep); if (attempt (c)) improved = true; }

            for (size_t chunk : { (size_t) 32, (size_t) 8, (size_t) 4, (size_t) 2, (size_t) 1 })
                for (size_t i = best.size(); i-- > 0 && more();)
                {
                    if (i + chunk > best.size()) continue;
                    std::vector<u64> c = best;
                    c.erase (c.begin() + (long) i, c.begin() + (long) (i + chunk));
                    if (attempt (c)) improved = true;
                }

            for (size_t chunk : { (size_t) 8, (size_t) 2 })
                for (size_t i = 0; i + chunk <= best.size() && more(); i += chunk)
                {
                    std::vector<u64> c = best;
                    if (std::all_of (c.begin() + (long) i, c.begin() + (long) (i + chunk), [] (u64 v) { return v == 0; })) continue;
                    std::fill (c.begin() + (long) i, c.begin() + (long) (i + chunk), 0);
                    if (attempt (c)) improved = true;
                }

            for (size_t i = 0; i < best.size() && more(); ++i)
            {
                if (best[i] == 0) continue;
                std::vector<u64> c = best;
                c[i] = 0;
                if (attempt (c)) { improved = true; continue; }
                u64 lo = 0, hi = i < best.size() ? best[i] : 0;
                for (int k = 0; k < 24 && hi > lo + 1 && i < best.size() && more(); ++k)
                {
                    const u64 mid = lo + (hi - lo) / 2;
                    c = best; c[i] = mid;
                    if (attempt (c)) { improved = true; hi = i < best.size() ? std::min (best[i], mid) : 0; }
                    else lo = mid;
                }
            }
        }

        return best;
    }

    void writeReplay (const std::vector<u64>& c, const Result& r, const std::string& mode, u64 index)
    {
        std::ofstream f (replayOut);
        f << "{\n \"property\": \"" << spec.id << "\",\n \"mode\": \"" << mode << "\",\n \"seed\": " << seed
          << ",\n \"workers\": " << workers << ",\n \"cases\": " << cases << ",\n \"index\": " << index
          << ",\n \"message\": " << jsonEscape (r.msg) << ",\n \"case\": " << jsonEscape (r.notes) << ",\n \"choices\": [";
        for (size_t i = 0; i < c.size(); ++i) f << (i ? ", " : "") << c[i];
        f << "]\n}\n";
    }

    // Does re-running the worker's whole history from scratch fail again at that case?
    Result historyReplay (u64 index)
    {
        Slot* slot = (Slot*) shared (sizeof (Slot));
        minFail->store (~0ull);
        const int w = (int) (index % (u64) workers);
        const pid_t pid = fork();
        if (pid == 0)
            worker (w, slot, index, "");
        int status = 0;
        Result r;
        r.hang = await (pid, status, 1e9);
        if (slot->failed == 1) { r.failed = true; r.msg = slot->msg; r.notes = slot->notes; }
        else if (slot->failed != 2) { r.failed = true; r.msg = crashText ("w" + std::to_string (w), status); }
        munmap (slot, sizeof (Slot));
        return r;
    }

    // Handles a failing choice sequence: confirm, shrink, confirm, write the replay file. Returns true if confirmed.
    bool confirmAndReport (std::vector<u64> choices, u64 index, bool haveIndex, bool hang, Result& finalResult, int& repro)
    {
        auto reproduces = [&] (const std::vector<u64>& c, int tries, Result& keep)
        {
            int n = 0;
            for (int k = 0; k < tries; ++k)
            {
                const Result r = runChoices (c, nullptr, hang ? 15.0 : cpuPerCase);
                if (r.failed) { ++n; keep = r; }
            }
            return n;
        };

        Result r;
        const int first = reproduces (choices, 3, r);

        if (first >= 2)
        {
            std::vector<u64> small = shrink (choices, hang ? 60 : 75, hang ? 12 : 2500, hang);
            Result rs;
            repro = reproduces (small, 3, rs);
            if (repro < 2) { small = choices; repro = first; rs = r; }
            finalResult = rs;
            writeReplay (small, rs, "choices", index);
            return true;
        }

        if (haveIndex)
        {
            int n = 0;
            for (int k = 0; k < 3; ++k)
            {
                const Result h = historyReplay (index);
                if (h.failed) { ++n; finalResult = h; }
            }
            if (n >= 2)
            {
                finalResult.msg += "\n(reproduces only after the cases that ran before it in the same process)";
                repro = n;
                writeReplay (choices, finalResult, "history", index);
                return true;
            }
        }

        const int many = reproduces (choices, 12, r);
        if (many >= 2)
        {
            r.msg += "\n(nondeterministic: failed " + std::to_string (many) + " of 12 replays of the same case)";
            finalResult = r;
            repro = many;
            writeReplay (choices, r, "choices", index);
            return true;
        }

        return false;
    }

    int search()
    {
        const double start = now();
        minFail = new (shared (sizeof (std::atomic<u64>))) std::atomic<u64> (~0ull);
        hashes = (u64*) shared (sizeof (u64) * (cases + 1));
        std::vector<pid_t> pids;

        for (int w = 0; w < workers; ++w)
            slots.push_back ((Slot*) shared (sizeof (Slot)));

        for (int w = 0; w < workers; ++w)
        {
            const pid_t pid = fork();
            if (pid == 0)
                worker (w, slots[(size_t) w], ~0ull, dir + "/samples" + std::to_string (w));
            pids.push_back (pid);
        }

        std::vector<int> done ((size_t) workers, 0), status ((size_t) workers, 0), hung ((size_t) workers, 0);
        std::vector<u64> lastCase ((size_t) workers, ~0ull);
        std::vector<double> cpuAtCase ((size_t) workers, 0);
        bool timedOut = false;

        for (int remaining = workers; remaining > 0;)
        {
            timespec t { 0, 5000000 };
            nanosleep (&t, nullptr);

            for (size_t w = 0; w < (size_t) workers; ++w)
            {
                if (done[w]) continue;
                const pid_t r = waitpid (pids[w], &status[w], WNOHANG);

                if (r == pids[w])
                {
                    done[w] = 1; --remaining;
                    if (slots[w]->failed == 0)  // died without saying so: crashed
                    {
                        const u64 i = slots[w]->caseIndex.load();
                        if (i < minFail->load()) minFail->store (i);
                    }
                    continue;
                }

                const u64 c = slots[w]->casesStarted.load();
                const double cpu = cpuTimeOf (pids[w]);
                if (c != lastCase[w]) { lastCase[w] = c; cpuAtCase[w] = cpu; }
                else if (cpu > 0 && cpu - cpuAtCase[w] > cpuPerCase)
                {
                    kill (pids[w], SIGKILL);
                    waitpid (pids[w], &status[w], 0);
                    done[w] = 1; hung[w] = 1; --remaining;
                    const u64 i = slots[w]->caseIndex.load();
                    if (i < minFail->load()) minFail->store (i);
                }
            }

            if (now() - start > wallLimit && ! timedOut)
            {
                timedOut = true;
                for (size_t w = 0; w < (size_t) workers; ++w)
                    if (! done[w]) { kill (pids[w], SIGKILL); waitpid (pids[w], &status[w], 0); done[w] = 1; slots[w]->failed = 2; --remaining; }
            }
        }

        const double searched = now() - start;

        // Failures, smallest case index first
        std::map<u64, size_t> failures;
        for (size_t w = 0; w < (size_t) workers; ++w)
            if (slots[w]->failed != 2)
                failures[slots[w]->caseIndex.load()] = w;

        bool violated = false;
        int repro = 0, unreproduced = 0;
        Result finalResult;
        std::string unreproducedMsg;

        for (auto& f : failures)
        {
            Slot* s = slots[f.second];
            std::vector<u64> choices (s->choices, s->choices + std::min<u64> (s->numChoices.load(), maxChoices));
            std::string originalMsg = s->failed == 1 ? std::string (s->msg) : hung[f.second] ? "hang" : crashText ("w" + std::to_string (f.second), status[f.second]);

            if (confirmAndReport (choices, f.first, true, hung[f.second] != 0, finalResult, repro)) { violated = true; break; }
            ++unreproduced;
            unreproducedMsg = originalMsg;
        }

        // Totals
        u64 evaluations = 0, discards = 0, nontrivial = 0;
        std::map<std::string, u64> labels;
        for (Slot* s : slots)
        {
            evaluations += s->evaluations + (s->failed != 2 ? 1 : 0);
            discards += s->discards;
            nontrivial += s->nontrivial;
            for (u64 i = 0; i < s->numLabels; ++i) labels[s->labels[i]] += s->labelCounts[i];
        }

        std::vector<u64> distinct;
        for (u64 i = 0; i < cases; ++i) if (hashes[i]) distinct.push_back (hashes[i]);
        std::sort (distinct.begin(), distinct.end());
        distinct.erase (std::unique (distinct.begin(), distinct.end()), distinct.end());

        std::ofstream out (outPath);
        out << "{\n \"id\": \"" << spec.id << "\", \"rule\": " << jsonEscape (spec.rule) << ",\n \"requested\": " << cases
            << ", \"evaluations\": " << evaluations << ", \"discards\": " << discards << ", \"nontrivial\": " << nontrivial
            << ", \"distinct_nontrivial\": " << distinct.size() << ",\n \"wall\": " << searched << ", \"timed_out\": " << (timedOut ? "true" : "false")
            << ", \"unreproduced\": " << unreproduced << ", \"unreproduced_msg\": " << jsonEscape (unreproducedMsg) << ",\n \"labels\": {";
        bool firstItem = true;
        for (auto& l : labels) { out << (firstItem ? "" : ", ") << jsonEscape (l.first) << ": " << l.second; firstItem = false; }
        out << "},\n \"samples\": [";
        firstItem = true;
        int numSamples = 0;
        for (int w = 0; w < workers && numSamples < 4; ++w)
        {
            std::ifstream sf (dir + "/samples" + std::to_string (w));
            std::string one;
            while (numSamples < 4 && std::getline (sf, one, '\0'))
            {
                if (one.size() > 3000) one = one.substr (0, 3000) + " ...";
                out << (firstItem ? "" : ",\n  ") << jsonEscape (one); firstItem = false; ++numSamples;
            }
        }
        out << "],\n \"violated\": " << (violated ? "true" : "false") << ", \"repro\": " << repro
            << ", \"message\": " << jsonEscape (finalResult.msg) << ", \"case\": " << jsonEscape (finalResult.notes) << "\n}\n";
        out.close();
        return violated ? 1 : 0;
    }

    // A replay file holds "choices": [..]; a tiny scan is enough
    int replayFile()
    {
        std::ifstream f (replayIn);
        std::stringstream ss; ss << f.rdbuf();
        const std::string text = ss.str();
        auto number = [&] (const char* key) -> u64 { const size_t p = text.find (std::string ("\"") + key + "\": "); return p == std::string::npos ? 0 : std::strtoull (text.c_str() + p + std::strlen (key) + 4, nullptr, 10); };
        const size_t p = text.find ("\"choices\": [");
        std::vector<u64> choices;
        if (p != std::string::npos)
        {
            const char* c = text.c_str() + p + 12;
            while (*c && *c != ']')
            {
                if (*c >= '0' && *c <= '9') { char* e; choices.push_back (std::strtoull (c, &e, 10)); c = e; }
                else ++c;
            }
        }

        Result r;
        if (text.find ("\"mode\": \"history\"") != std::string::npos)
        {
            seed = number ("seed"); workers = (int) number ("workers"); cases = number ("cases");
            minFail = new (shared (sizeof (std::atomic<u64>))) std::atomic<u64> (~0ull);
            hashes = (u64*) shared (sizeof (u64) * (cases + 1));
            r = historyReplay (number ("index"));
        }
        else
            for (int k = 0; k < 12 && ! r.failed; ++k)
                r = runChoices (choices, nullptr, cpuPerCase);

        std::cout << (r.failed ? "FAILS: " : "passes") << r.msg << "\n" << r.notes << std::endl;
        return r.failed ? 1 : 0;
    }

    // An input saved by the libFuzzer build: turn its bytes into choices, confirm and shrink
    int fromBytes()
    {
        std::ifstream f (bytesIn, std::ios::binary);
        std::stringstream ss; ss << f.rdbuf();
        const std::string data = ss.str();
        Slot* slot = (Slot*) shared (sizeof (Slot));
        const pid_t pid = fork();
        if (pid == 0)
        {
            std::string workDir;
            childSetup ("b", workDir);
            Gen g;
            g.workDir = workDir;
            g.bytes = (const std::uint8_t*) data.data();
            g.byteSize = data.size();
            g.verbose = true;
            const Outcome o = oneCase (slot, g, 0);
            _exit (o == Outcome::fail ? 1 : 0);
        }
        int status = 0;
        const bool hang = await (pid, status, cpuPerCase);
        std::vector<u64> choices (slot->choices, slot->choices + slot->numChoices.load());
        Result r;
        int repro = 0;
        if (confirmAndReport (choices, 0, false, hang, r, repro)) { std::cout << "FAILS: " << r.msg << "\n" << r.notes << std::endl; return 1; }
        std::cout << "passes" << std::endl;
        return 0;
    }
};

inline int runMain (int argc, char** argv, const Spec& spec)
{
    Engine e;
    e.spec = spec;

    for (int i = 1; i + 1 < argc; i += 2)
    {
        const std::string k = argv[i], v = argv[i + 1];
        if (k == "--seed") e.seed = std::strtoull (v.c_str(), nullptr, 10);
        else if (k == "--cases") e.cases = std::strtoull (v.c_str(), nullptr, 10);
        else if (k == "--workers") e.workers = std::atoi (v.c_str());
        else if (k == "--wall") e.wallLimit = std::atof (v.c_str());
        else if (k == "--dir") e.dir = v;
        else if (k == "--out") e.outPath = v;
        else if (k == "--replay-out") e.replayOut = v;
        else if (k == "--replay") e.replayIn = v;
        else if (k == "--bytes") e.bytesIn = v;
    }

    if (! e.replayIn.empty()) return e.replayFile();
    if (! e.bytesIn.empty()) return e.fromBytes();
    return e.search();
}

#endif  // PBT_FUZZ

}  // namespace pbt

#ifdef PBT_FUZZ
#define PBT_MAIN(idString, ruleString, propertyFunction) \
    extern "C" int LLVMFuzzerTestOneInput (const std::uint8_t* data, size_t size) \
    { \
        static pbt::Slot* slot = (pbt::Slot*) std::calloc (1, sizeof (pbt::Slot)); \
        static const std::string workDir = [] { const char* d = std::getenv ("PBT_FUZZ_DIR"); std::string p = std::string (d ? d : "/tmp") + "/pbt-fuzz" + std::to_string (getpid()); mkdir (p.c_str(), 0755); return p; }(); \
        slot->numChoices.store (0); \
        pbt::Gen g; g.bytes = data; g.byteSize = size; g.slot = slot; g.workDir = workDir; \
        std::string msg; \
        if (pbt::runCase (propertyFunction, g, msg) == pbt::Outcome::fail) { std::fprintf (stderr, "PBT-FAIL: %s\n", msg.c_str()); std::abort(); } \
        return 0; \
    }
#else
#define PBT_MAIN(idString, ruleString, propertyFunction) \
    int main (int argc, char** argv) { return pbt::runMain (argc, argv, pbt::Spec { idString, ruleString, propertyFunction }); }
#endif
