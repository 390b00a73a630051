// C26: histories of runs in one process; each run gives what it gives in a process of its own.
#include "common.hpp"

using namespace hv;

namespace
{

enum Twist { plain, noSignal, badLayout, badRate, effectThrows, checkThrows, badOutput, failingAssert, abandoned, numTwists };

struct CheckSpec { int kind = 0; double level = 0, tolerance = 1e-3; SignalSpec reference; bool assertion = false, positive = true; };

struct RunSpec
{
    bool isDouble = false;
    Cli cli;
    HostCfg host;
    SignalSpec signal;
    int sharedSignal = -1, sharedEffect = -1, returnedFrom = -1;
    EffectSpec effect;
    std::vector<std::pair<int, double>> values;
    std::vector<CheckSpec> checks;
    std::string label, wav, plot;
    hart::Save wavMode = hart::Save::always, plotMode = hart::Save::always;
    hart::WavFormat format = hart::WavFormat::pcm24;
    int twist = plain;
    size_t throwAt = 0;
    bool clearMessages = false;
};

// Throws in the middle of a run
template <typename T> class Thrower : public hart::DSP<T>
{
    using SampleType = T;
public:
    Thrower (size_t at) : at (at) {}
    void prepare (double, size_t, size_t, size_t) override {}
    void process (const hart::AudioBuffer<T>& in, hart::AudioBuffer<T>& out, const hart::EnvelopeBuffers&) override
    {
        for (size_t c = 0; c < out.getNumChannels(); ++c) for (size_t f = 0; f < out.getNumFrames(); ++f, ++done) { if (done >= at) throw std::runtime_error ("the effect gives up"); out[c][f] = in[std::min (c, in.getNumChannels() - 1)][f]; }
    }
    void reset() override { done = 0; }
    void setValue (int, double) override {}
    double getValue (int) const override { return 0; }
    bool supportsChannelLayout (size_t, size_t) const override { return true; }
    void represent (std::ostream& s) const override { s << "Thrower()"; }
    HART_DSP_DEFINE_COPY_AND_MOVE (Thrower);
    size_t at, done = 0;
};

template <typename T> class Picky : public hart::DSP<T>
{
    using SampleType = T;
public:
    Picky (bool layout, bool rate) : layout (layout), rate (rate) {}
    void prepare (double, size_t, size_t, size_t) override {}
    void process (const hart::AudioBuffer<T>&, hart::AudioBuffer<T>&, const hart::EnvelopeBuffers&) override {}
    void reset() override {}
    void setValue (int, double) override {}
    double getValue (int) const override { return 0; }
    bool supportsChannelLayout (size_t, size_t) const override { return layout; }
    bool supportsSampleRate (double) const override { return rate; }
    void represent (std::ostream& s) const override { s << "Picky()"; }
    HART_DSP_DEFINE_COPY_AND_MOVE (Picky);
    bool layout, rate;
};

template <typename T> class ThrowingMatcher : public hart::Matcher<T>
{
    using SampleType = T;
public:
    ThrowingMatcher (size_t at) : at (at) {}
    void prepare (double, size_t, size_t) override {}
    bool match (const hart::AudioBuffer<T>& a) override { done += a.getNumFrames(); if (done > at) throw std::runtime_error ("the check gives up"); return true; }
    bool canOperatePerBlock() override { return true; }
    void reset() override { done = 0; }
    hart::MatcherFailureDetails getFailureDetails() const override { return {}; }
    void represent (std::ostream& s) const override { s << "ThrowingMatcher()"; }
    HART_MATCHER_DEFINE_COPY_AND_MOVE (ThrowingMatcher);
    size_t at, done = 0;
};

std::string slurp (const std::string& p) { std::ifstream f (p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }

template <typename T> void addSpecCheck (hart::AudioTestBuilder<T>& b, const CheckSpec& c)
{
    if (c.kind == 0) addCheck (b, hart::PeaksBelow<T> (c.level, c.tolerance), c.assertion, c.positive);
    else if (c.kind == 1) addCheck (b, hart::PeaksAt<T> (c.level, c.tolerance), c.assertion, c.positive, true);
    else
    {
        auto s = makeSignal<T> (c.reference);
        if (auto* p = dynamic_cast<hart::SineWave<T>*> (s.get())) addCheck (b, hart::EqualsTo<T> (*p, c.tolerance), c.assertion, c.positive);
        else if (auto* p = dynamic_cast<hart::WhiteNoise<T>*> (s.get())) addCheck (b, hart::EqualsTo<T> (*p, c.tolerance), c.assertion, c.positive);
        else if (auto* p = dynamic_cast<hart::SineSweep<T>*> (s.get())) addCheck (b, hart::EqualsTo<T> (*p, c.tolerance), c.assertion, c.positive);
        else if (auto* p = dynamic_cast<hart::WavFile<T>*> (s.get())) addCheck (b, hart::EqualsTo<T> (*p, c.tolerance), c.assertion, c.positive);
        else if (auto* p = dynamic_cast<DataSignal<T>*> (s.get())) addCheck (b, hart::EqualsTo<T> (*p, c.tolerance), c.assertion, c.positive);
        else addCheck (b, hart::EqualsTo<T> (hart::Silence<T>(), c.tolerance), c.assertion, c.positive);
    }
}

// What lives through the whole history
template <typename T> struct World
{
    std::vector<std::unique_ptr<hart::Signal<T>>> signals;
    std::vector<std::unique_ptr<hart::DSP<T>>> effects;
    std::map<int, std::unique_ptr<hart::DSP<T>>> returned;  // by run
};

struct History
{
    std::vector<SignalSpec> signals;
    std::vector<EffectSpec> effects;
    std::vector<RunSpec> runs;
    std::string dir;
};

template <typename T> void populate (World<T>& w, const History& h)
{
    for (auto& s : h.signals) w.signals.push_back (makeSignal<T> (s));
    for (auto& e : h.effects) w.effects.push_back (makeEffect<T> (e));
}

template <typename T> void execute (World<T>& w, const History& h, size_t index, std::ostream& outcome)
{
    const RunSpec& r = h.runs[index];
    setCli (r.cli);
    if (r.clearMessages) hart::ExpectationFailureMessages::clear();
    const size_t before = hart::ExpectationFailureMessages::get().size();
    CoutCapture capture;
    auto cap = std::make_shared<Captured<T>>();
    std::ostringstream o;
    o << std::setprecision (17);
    if (r.signal.kind == wavFile) writeFile (r.signal.path, floatWav (r.signal.data, r.host.sampleRate));
    try
    {
        std::unique_ptr<hart::DSP<T>> effect;
        if (r.twist == effectThrows) effect.reset (new Thrower<T> (r.throwAt));
        else if (r.twist == badLayout || r.twist == badRate) effect.reset (new Picky<T> (r.twist != badLayout, r.twist != badRate));
        else if (r.returnedFrom >= 0)
        {
            auto& kept = w.returned[r.returnedFrom];
            if (! kept) { outcome << "SKIP"; return; }
            effect = std::move (kept);
        }
        else if (r.sharedEffect >= 0) effect = w.effects[(size_t) r.sharedEffect]->copy();
        else effect = makeEffect<T> (r.effect);

        auto b = hart::processAudioWith (std::move (effect));
        applyHost (b, r.host);
        if (r.twist != noSignal)
        {
            if (r.sharedSignal >= 0) b.withInputSignal (*w.signals[(size_t) r.sharedSignal]);
            else b.withInputSignal (*makeSignal<T> (r.signal));
        }
        for (auto& v : r.values) b.withValue (v.first, v.second);
        b.withLabel (r.label);
        if (r.twist == badOutput) b.saveOutputTo (h.dir + "/missing/x.wav");
        else if (! r.wav.empty()) b.saveOutputTo (r.wav, r.wavMode, r.format);
        if (! r.plot.empty()) b.savePlotTo (r.plot, r.plotMode);
        b.expectTrue (Capture<T> (cap));
        for (auto& c : r.checks) addSpecCheck (b, c);
        if (r.twist == checkThrows) b.expectTrue (ThrowingMatcher<T> (r.throwAt));
        if (r.twist == failingAssert) b.assertFalse (hart::PeaksBelow<T> (300));
        if (r.twist != abandoned)  // otherwise set up, but never run
        {
            auto back = b.process();
            o << "returned " << *back;
            for (int id = 0; id < 10; ++id) o << " " << back->getValue (id);
            o << "\n";
            w.returned[(int) index] = std::move (back);
        }
    }
    catch (const hart::TestAssertException& e) { o << "assertion: " << e.what() << "\n"; }
    catch (const std::exception& e) { o << "error " << typeid (e).name() << ": " << e.what() << "\n"; }
    auto& messages = hart::ExpectationFailureMessages::get();
    o << messages.size() - std::min (before, messages.size()) << " failed expectations\n";
    for (size_t i = before; i < messages.size(); ++i) o << "  " << messages[i] << "\n";
    o << "audio " << cap->matches << ":";
    for (auto& c : cap->audio) { o << " |"; for (T v : c) { std::uint64_t w = 0; std::memcpy (&w, &v, sizeof (T)); o << " " << std::hex << w << std::dec; } }
    o << "\nprinted: " << capture.text() << "\n";
    for (auto* p : { &r.wav, &r.plot }) if (! p->empty())
    {
        const std::string full = (*p)[0] == '/' ? *p : r.cli.dataRoot + "/" + *p;
        if (exists (full)) { const std::string c = slurp (full); o << "file " << c.size() << " bytes, " << std::hash<std::string>() (c) << "\n"; unlink (full.c_str()); }
        else o << "no file\n";
    }
    outcome << o.str();
}

// Runs the given runs of the history in a process of their own; gives the outcome of the last one
std::string process (Gen& g, const History& h, const std::vector<size_t>& which, std::string& how)
{
    const std::string file = g.workDir + "/outcome";
    const pid_t pid = fork();
    if (pid == 0)
    {
        alarm (100);
        const int fd = open ((file + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2 (fd, 2);
        std::ostringstream last;
        {
            World<float> wf; World<double> wd;
            populate (wf, h); populate (wd, h);
            for (size_t i : which)
            {
                last.str ("");
                if (h.runs[i].isDouble) execute (wd, h, i, last); else execute (wf, h, i, last);
            }
        }
        std::ofstream (file, std::ios::binary) << last.str();
        _exit (0);
    }
    int status = 0;
    waitpid (pid, &status, 0);
    how = WIFEXITED (status) && WEXITSTATUS (status) == 0 ? "" : "the process of runs ended with status " + std::to_string (status) + ": " + slurp (file + ".err").substr (0, 2500);
    return slurp (file);
}

void property (Gen& g)
{
    History h;
    h.dir = g.workDir;
    mkdir ((g.workDir + "/r1").c_str(), 0755);
    mkdir ((g.workDir + "/r2").c_str(), 0755);
    const HostCfg common = genHost (g, 60, true);
    const size_t numShared = g.size (0, 2);
    for (size_t i = 0; i < numShared; ++i)
    {
        SignalSpec s = genSignal (g, common, common.inCh, true);
        if (s.kind == wavFile) s.kind = dataSignal;
        genChain (g, s, common.sampleRate, common.frames, 2);
        h.signals.push_back (s);
        h.effects.push_back (genEffect (g, common.sampleRate, common.frames));
    }

    const size_t n = g.size (2, 6);
    bool disturbed = false, reused = false;
    for (size_t i = 0; i < n; ++i)
    {
        RunSpec r;
        if (i > 0 && g.oneIn (3)) { r = h.runs[g.size (0, i - 1)]; r.returnedFrom = -1; if (g.flip()) { h.runs.push_back (r); continue; } r.checks.clear(); r.values.clear(); }
        r.isDouble = g.flip();
        r.cli.dataRoot = g.flip() ? g.workDir + "/r1" : g.workDir + "/r2";
        r.cli.seed = g.draw (3);
        if (g.flip()) { r.cli.lin = (int) g.size (0, 8); r.cli.db = (int) g.size (0, 5); r.cli.sec = (int) g.size (0, 5); }
        r.host = g.flip() ? common : genHost (g, 60, true);
        r.signal = genSignal (g, r.host, r.host.inCh, true);
        if (r.signal.kind == wavFile && g.flip()) r.signal.kind = whiteNoise;
        if (r.signal.kind == wavFile) r.signal.path = g.workDir + "/input.wav";  // every run finds its own audio there
        genChain (g, r.signal, r.host.sampleRate, r.host.frames, 3);
        r.effect = genEffect (g, r.host.sampleRate, r.host.frames);
        if (numShared && g.oneIn (3)) r.sharedSignal = (int) g.size (0, numShared - 1);
        if (numShared && g.oneIn (3)) r.sharedEffect = (int) g.size (0, numShared - 1);
        if (g.oneIn (4)) r.values.push_back ({ g.pick ({ (int) hart::GainDb<float>::gainDb, (int) LeakyDsp<float>::coefficient }), g.real (-0.9, 0.9) });
        if (g.flip()) r.label = g.pick ({ "one", "another label" });
        for (size_t k = g.size (0, 3); k > 0; --k)
        {
            CheckSpec c;
            c.kind = (int) g.draw (2);
            c.level = g.real (-30, 6);
            c.tolerance = g.pick ({ 1e-3, 1e-5, 0.1, 0.0 });
            if (c.kind == 2) c.reference = g.flip() ? r.signal : genSignal (g, r.host, r.host.inCh, true);
            c.assertion = g.oneIn (4);
            c.positive = g.flip();
            r.checks.push_back (c);
        }
        if (g.oneIn (3))
        {
            r.wav = g.flip() ? "out.wav" : g.workDir + "/abs.wav";
            r.wavMode = g.pick ({ hart::Save::always, hart::Save::whenFails, hart::Save::never });
            r.format = g.pick ({ hart::WavFormat::pcm16, hart::WavFormat::pcm24, hart::WavFormat::pcm32, hart::WavFormat::float32 });
        }
        if (g.oneIn (8)) { r.plot = g.flip() ? "out.svg" : g.workDir + "/abs.svg"; r.plotMode = g.pick ({ hart::Save::always, hart::Save::whenFails }); }
        r.twist = g.mostly (2) ? (int) plain : (int) g.size (1, numTwists - 1);
        r.throwAt = g.size (0, r.host.frames - 1);
        r.clearMessages = g.flip();
        h.runs.push_back (r);
    }

    // An effect which comes back from a run is used again
    for (size_t i = 1; i < n; ++i)
        if (g.oneIn (4))
        {
            std::vector<size_t> from;
            for (size_t j = 0; j < i; ++j)
            {
                bool taken = false;
                for (auto& r : h.runs) taken |= r.returnedFrom == (int) j;
                bool mayFail = h.runs[j].twist != plain;
                for (auto& c : h.runs[j].checks) mayFail |= c.assertion;
                mayFail |= h.runs[j].returnedFrom >= 0;
                if (! taken && ! mayFail && h.runs[j].isDouble == h.runs[i].isDouble && h.runs[j].host.inCh == h.runs[i].host.inCh) from.push_back (j);
            }
            if (! from.empty()) h.runs[i].returnedFrom = (int) from[g.size (0, from.size() - 1)];
        }

    const size_t probe = g.mostly (3) ? n - 1 : g.size (1, n - 1);
    for (size_t i = 0; i < probe; ++i) disturbed |= h.runs[i].twist != plain;
    reused = h.runs[probe].returnedFrom >= 0 || h.runs[probe].sharedSignal >= 0 || h.runs[probe].sharedEffect >= 0;

    g.note ([&] (auto& s)
    {
        const char* twists[] = { "", " without a signal", " layout refused", " rate refused", " effect throws", " check throws", " no place for the output", " failing assertion", " set up only" };
        for (size_t i = 0; i < h.signals.size(); ++i) s << "shared signal " << i << ": " << h.signals[i] << "; shared effect " << i << ": " << h.effects[i] << "\n";
        for (size_t i = 0; i <= probe; ++i)
        {
            auto& r = h.runs[i];
            s << "run " << i << (r.isDouble ? " double " : " float ") << r.host << twists[r.twist] << ", signal ";
            if (r.sharedSignal >= 0) s << "shared " << r.sharedSignal; else s << r.signal;
            s << ", effect ";
            if (r.returnedFrom >= 0) s << "returned from run " << r.returnedFrom; else if (r.sharedEffect >= 0) s << "shared " << r.sharedEffect; else s << r.effect;
            for (auto& v : r.values) s << " value " << v.first << "=" << v.second;
            s << ", " << r.checks.size() << " checks";
            if (! r.wav.empty()) s << ", wav";
            if (! r.plot.empty()) s << ", plot";
            s << "; seed " << r.cli.seed << ", decimals " << r.cli.lin << "," << r.cli.db << "," << r.cli.sec << "\n";
        }
    });

    std::vector<size_t> all, alone;
    for (size_t i = 0; i <= probe; ++i) all.push_back (i);
    alone.push_back (probe);

    // Alone, an effect which came back elsewhere is made afresh, with the values it was given there
    History fresh = h;
    RunSpec& p = fresh.runs[probe];
    if (p.returnedFrom >= 0)
    {
        const RunSpec& from = h.runs[(size_t) p.returnedFrom];
        p.effect = from.effect;
        p.sharedEffect = from.sharedEffect;
        p.values.insert (p.values.begin(), from.values.begin(), from.values.end());
        p.returnedFrom = -1;
    }

    std::string how;
    const std::string inHistory = process (g, h, all, how);
    PBT_CHECK (how.empty(), how);
    if (inHistory == "SKIP") { g.discard(); return; }  // the run which should have returned the effect was refused
    const std::string byItself = process (g, fresh, alone, how);
    PBT_CHECK (how.empty(), how << " (alone)");
    PBT_CHECK (! byItself.empty() && inHistory == byItself, "run " << probe << " gives after " << probe << " other runs:\n" << inHistory.substr (0, 3000) << "\nand in a process of its own:\n" << byItself.substr (0, 3000));

    g.labelIf (disturbed, "after a run which was refused or interrupted");
    g.labelIf (reused, "objects of earlier runs used again");
    g.labelIf (h.runs[probe].returnedFrom >= 0, "returned effect used again");
    g.labelIf (inHistory.find ("audio 1") != std::string::npos, "ran");
    if (probe >= 1 && inHistory.find ("audio 1") != std::string::npos) g.nontrivial();
}

}  // namespace

PBT_MAIN ("C26", "x", property)
