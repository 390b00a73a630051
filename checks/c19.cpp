// C19: sequences of legal and illegal settings against a model of the host's configuration, in both exception modes.
#include "common.hpp"

#include <climits>

using namespace hv;

namespace
{

#if HART_DO_NOT_THROW_EXCEPTIONS
constexpr bool throwing = false;
#else
constexpr bool throwing = true;
#endif

struct Seen
{
    double rate = -1; size_t in = 0, out = 0, block = 0;  // of the last prepare()
    double matcherRate = -1; size_t matcherOut = 0;
    int processes = 0;
    size_t frames = 0, largestBlock = 0; bool sizesOk = true;
    std::map<int, double> values, valuesAtStart;
    int signal = -1;
    int refusedRates = 0;
};

enum RateRule { anyRate, upTo48k, twoRates, notDefault };
enum LayoutRule { anyLayout, sameLayout, monoOnly };

bool rateOk (int rule, double r) { return rule == anyRate ? true : rule == upTo48k ? r <= 48000 : rule == twoRates ? (r == 44100 || r == 96000) : r != 44100; }
bool layoutOk (int rule, size_t i, size_t o) { return rule == anyLayout ? true : rule == sameLayout ? i == o : i == 1 && o == 1; }

template <typename T> class Probe : public hart::DSP<T>
{
    using SampleType = T;
public:
    Probe (std::shared_ptr<Seen> s, int r, int l) : seen (s), rates (r), layouts (l) {}
    void prepare (double fs, size_t i, size_t o, size_t b) override { seen->rate = fs; seen->in = i; seen->out = o; seen->block = b; }
    void process (const hart::AudioBuffer<T>& in, hart::AudioBuffer<T>& out, const hart::EnvelopeBuffers&) override
    {
        if (seen->processes++ == 0) seen->valuesAtStart = seen->values;
        seen->frames += out.getNumFrames();
        seen->largestBlock = std::max (seen->largestBlock, out.getNumFrames());
        seen->sizesOk = seen->sizesOk && in.getNumFrames() == out.getNumFrames() && in.getNumChannels() == seen->in && out.getNumChannels() == seen->out;
        for (size_t c = 0; c < out.getNumChannels(); ++c) for (size_t f = 0; f < out.getNumFrames(); ++f) out[c][f] = (T) 0.25;
        if (in.getNumChannels() && in.getNumFrames()) seen->signal = (int) std::lround ((double) in[0][0] * 64);
    }
    void reset() override {}
    void setValue (int id, double v) override { seen->values[id] = v; }
    double getValue (int) const override { return 0; }
    bool supportsChannelLayout (size_t i, size_t o) const override { return layoutOk (layouts, i, o); }
    bool supportsSampleRate (double r) const override { return rateOk (rates, r); }
    void represent (std::ostream& s) const override { s << "Probe()"; }
    HART_DSP_DEFINE_COPY_AND_MOVE (Probe);
    std::shared_ptr<Seen> seen;
    int rates, layouts;
};

template <typename T> class Level : public hart::Signal<T>  // constant n/64
{
    using SampleType = T;
public:
    explicit Level (int n) : number (n) {}
    void prepare (double, size_t, size_t) override {}
    void renderNextBlock (hart::AudioBuffer<T>& out) override { for (size_t c = 0; c < out.getNumChannels(); ++c) std::fill (out[c], out[c] + out.getNumFrames(), (T) (number / 64.0)); }
    void reset() override {}
    void represent (std::ostream& s) const override { s << "Level()"; }
    HART_SIGNAL_DEFINE_COPY_AND_MOVE (Level);
    int number;
};

template <typename T> class Refuses : public hart::Matcher<T>  // fails, so that the label is reported
{
    using SampleType = T;
public:
    explicit Refuses (std::shared_ptr<Seen> s) : seen (s) {}
    void prepare (double fs, size_t o, size_t) override { seen->matcherRate = fs; seen->matcherOut = o; }
    bool match (const hart::AudioBuffer<T>&) override { return false; }
    bool canOperatePerBlock() override { return false; }
    void reset() override {}
    hart::MatcherFailureDetails getFailureDetails() const override { hart::MatcherFailureDetails d; d.frame = 0; d.channel = 0; d.description = "refused"; return d; }
    void represent (std::ostream& s) const override { s << "Refuses()"; }
    HART_MATCHER_DEFINE_COPY_AND_MOVE (Refuses);
    std::shared_ptr<Seen> seen;
};

std::set<std::string> printedErrors (const std::string& text)
{
    std::set<std::string> out;
    for (const char* n : { "ValueError", "SizeError", "SampleRateError", "ChannelLayoutError", "StateError", "IOError", "IndexError", "UnsupportedError", "ConfigurationError", "HartAssertException" })
        if (text.find (std::string (n) + " triggered") != std::string::npos) out.insert (n);
    return out;
}

// Runs one call; returns the name of the error it was refused with, or ""
template <typename F> std::string outcome (F f)
{
    CoutCapture cap;
    std::string e;
    try { f(); }
    catch (const hart::ValueError&) { e = "ValueError"; }
    catch (const hart::SizeError&) { e = "SizeError"; }
    catch (const hart::SampleRateError&) { e = "SampleRateError"; }
    catch (const hart::ChannelLayoutError&) { e = "ChannelLayoutError"; }
    catch (const hart::StateError&) { e = "StateError"; }
    catch (const std::exception& x) { e = std::string ("an unexpected exception: ") + x.what(); }

    if (! throwing)
    {
        PBT_CHECK (e.empty(), "an exception (" << e << ") although they are disabled");
        const auto printed = printedErrors (cap.text());
        PBT_CHECK (printed.size() <= 1, "several errors printed: " << cap.text());
        if (printed.size()) e = *printed.begin();
    }

    return e;
}

struct Model
{
    double rate = 44100, duration = 0.1;
    size_t block = 1024, in = 1, out = 1;
    int signal = -1;
    std::string label;
    std::map<int, double> values;
    std::string wavPath, plotPath;
    hart::Save wavMode = hart::Save::never, plotMode = hart::Save::never;
    hart::WavFormat wavFormat = hart::WavFormat::pcm24;
};

template <typename T> void property (Gen& g)
{
    setCli ([&] { Cli c; c.dataRoot = g.workDir; return c; }());
    auto seen = std::make_shared<Seen>();
    const int rateRule = g.mostly (2) ? (int) anyRate : (int) g.draw (3);
    const int layoutRule = g.mostly (2) ? (int) anyLayout : (int) g.draw (2);
    auto b = g.flip() ? hart::processAudioWith (Probe<T> (seen, rateRule, layoutRule))
                      : hart::processAudioWith (std::unique_ptr<Probe<T>> (new Probe<T> (seen, rateRule, layoutRule)));
    Model m;
    g.note ([&] (auto& s) { s << "effect: rates rule " << rateRule << ", layouts rule " << layoutRule; });

    const std::vector<std::string> wavs { g.workDir + "/a.wav", g.workDir + "/b.wav", g.workDir + "/c.wav" };
    const std::vector<std::string> plots { g.workDir + "/a.svg", g.workDir + "/b.svg" };
    int refused = 0, overwritten = 0, accepted = 0;
    bool finished = false;

    auto expectOutcome = [&] (const std::string& got, const std::set<std::string>& allowed, const std::string& what)
    {
        if (allowed.empty()) { PBT_CHECK (got.empty(), what << " was refused with " << got); ++accepted; }
        else { PBT_CHECK (! got.empty(), what << " was accepted"); PBT_CHECK (allowed.count (got), what << " was refused with " << got << ", not " << *allowed.begin()); ++refused; }
    };

    auto setRate = [&] (double r)
    {
        std::set<std::string> errors;
        if (r <= 0) errors.insert ("ValueError");
        if (! rateOk (rateRule, r)) errors.insert ("SampleRateError");
        g.note ([&] (auto& s) { s << "withSampleRate(" << r << ")"; });
        hart::AudioTestBuilder<T>* back = nullptr;
        const std::string e = outcome ([&] { back = &b.withSampleRate (r); });
        expectOutcome (e, errors, "withSampleRate(" + std::to_string (r) + ")");
        PBT_CHECK (! back || back == &b, "withSampleRate() gave another builder");
        if (errors.empty()) m.rate = r;
    };

    auto setDuration = [&] (double d)
    {
        g.note ([&] (auto& s) { s << "withDuration(" << d << ")"; });
        expectOutcome (outcome ([&] { b.withDuration (d); }), d < 0 ? std::set<std::string> { "ValueError" } : std::set<std::string> {}, "withDuration(" + std::to_string (d) + ")");
        if (d >= 0) m.duration = d;
    };

    auto setChannels = [&] (bool input, size_t n)
    {
        const bool bad = n == 0 || n > 128;
        g.note ([&] (auto& s) { s << (input ? "withInputChannels(" : "withOutputChannels(") << n << ")"; });
        expectOutcome (outcome ([&] { if (input) b.withInputChannels (n); else b.withOutputChannels (n); }), bad ? std::set<std::string> { "SizeError" } : std::set<std::string> {},
            std::string (input ? "withInputChannels(" : "withOutputChannels(") + std::to_string (n) + ")");
        if (! bad) (input ? m.in : m.out) = n;
    };

    auto setSignal = [&] (int n)
    {
        g.note ([&] (auto& s) { s << "withInputSignal(" << n << ")"; });
        Level<T> level (n);
        expectOutcome (outcome ([&] { b.withInputSignal (level); }), {}, "withInputSignal");
        level.number = 99;  // a copy was taken
        m.signal = n;
    };

    auto integralRate = [&] { return m.rate == std::floor (m.rate) && m.rate >= 1 && m.rate <= 1e6; };

    auto process = [&]
    {
        const double exact = m.rate * m.duration;
        const double frac = exact - std::floor (exact);
        if (std::abs (frac - 0.5) < 1e-6 || ! (exact < 4000)) setDuration (g.flip() ? 0.0 : (double) g.logSize (1, 500) / m.rate);
        if (! (m.rate * m.duration < 4000)) { g.discard(); }
        const size_t frames = (size_t) std::llround (m.rate * m.duration);
        if (m.plotPath.size() && m.duration > 5) { b.savePlotTo (m.plotPath, hart::Save::never); m.plotMode = hart::Save::never; }  // a tick every 0.1 s: slow
        std::set<std::string> errors;
        if (frames == 0) errors.insert ("SizeError");
        if (! layoutOk (layoutRule, m.in, m.out)) errors.insert ("ChannelLayoutError");
        if (! rateOk (rateRule, m.rate)) errors.insert ("SampleRateError");
        if (m.signal < 0) errors.insert ("StateError");

        for (auto& p : wavs) unlink (p.c_str());
        for (auto& p : plots) unlink (p.c_str());
        auto& messages = hart::ExpectationFailureMessages::get();
        messages.clear();
        seen->processes = 0; seen->frames = 0; seen->largestBlock = 0; seen->sizesOk = true; seen->signal = -1; seen->values.clear();

        g.note ([&] (auto& s) { s << "process()"; });
        std::unique_ptr<hart::DSP<T>> effect;
        const std::string e = outcome ([&] { effect = b.process(); });
        expectOutcome (e, errors, "process()");

        if (! errors.empty())
        {
            PBT_CHECK (seen->processes == 0, "the refused test still processed audio");
            PBT_CHECK (messages.empty(), "the refused test still reported a failed check");
            for (auto& p : wavs) PBT_CHECK (! exists (p), "the refused test still saved " << p);
            for (auto& p : plots) PBT_CHECK (! exists (p), "the refused test still saved " << p);
            g.label ("process refused: " + e);
            if (! throwing) finished = true;  // the effect has left the host
            return;
        }

        finished = true;
        PBT_CHECK (effect != nullptr, "no effect was returned");
        PBT_CHECK (sameBits (seen->rate, m.rate), "the effect was prepared for " << seen->rate << " Hz, not " << m.rate);
        PBT_CHECK (sameBits (seen->matcherRate, m.rate), "the matcher was prepared for " << seen->matcherRate << " Hz, not " << m.rate);
        PBT_CHECK (seen->block == m.block, "the effect was prepared for blocks of " << seen->block << ", not " << m.block);
        PBT_CHECK (seen->in == m.in && seen->out == m.out, "the effect was prepared for " << seen->in << " to " << seen->out << " channels, not " << m.in << " to " << m.out);
        PBT_CHECK (seen->matcherOut == m.out, "the matcher was prepared for " << seen->matcherOut << " channels, not " << m.out);
        PBT_CHECK (seen->sizesOk, "the blocks had the wrong channels");
        PBT_CHECK (seen->frames == frames, seen->frames << " frames were processed, not " << frames);
        PBT_CHECK (seen->largestBlock <= m.block && seen->largestBlock == std::min (m.block, frames), "the largest block had " << seen->largestBlock << " frames, " << m.block << " set");
        PBT_CHECK (seen->signal == m.signal, "signal " << seen->signal << " was played, not " << m.signal);
        PBT_CHECK (seen->valuesAtStart == m.values, "the parameter values are not the last ones set");
        PBT_CHECK (messages.size() == 1, messages.size() << " failed checks reported, not 1");
        const std::string quoted = " at \"" + m.label + "\"";
        PBT_CHECK (m.label.empty() ? messages[0].find (" at \"") == std::string::npos : messages[0].find (m.label) != std::string::npos, "the label is not \"" << m.label << "\": " << messages[0]);
        for (const char* other : { "label one", "label two", "label three" })
            PBT_CHECK (m.label == other || messages[0].find (other) == std::string::npos, "an overwritten label is reported: " << messages[0]);

        for (auto& p : wavs)
        {
            const bool want = p == m.wavPath && m.wavMode != hart::Save::never;
            PBT_CHECK (exists (p) == want, p << (want ? " was not saved" : " was saved"));
            if (! want) continue;
            const auto w = readWav (p);
            const int bits = m.wavFormat == hart::WavFormat::pcm16 ? 16 : m.wavFormat == hart::WavFormat::pcm24 ? 24 : 32;
            const bool isFloat = m.wavFormat == hart::WavFormat::float32;
            PBT_CHECK (w.ok && w.bits == bits && (w.format == 3) == isFloat && w.channels == m.out && w.frames == frames && (! integralRate() || w.rate == m.rate),
                "the saved file has " << w.bits << " bits, format " << w.format << ", " << w.channels << " channels, " << w.frames << " frames at " << w.rate << " Hz " << w.why);
        }
        for (auto& p : plots)
        {
            const bool want = p == m.plotPath && m.plotMode != hart::Save::never;
            PBT_CHECK (exists (p) == want, p << (want ? " was not saved" : " was saved"));
        }
        g.label ("process accepted");
    };

    b.expectTrue (Refuses<T> (seen));

    const size_t steps = g.size (1, 18);
    for (size_t i = 0; i < steps && ! finished; ++i)
    {
        switch ((int) g.draw (10))
        {
            case 0:
                switch (g.draw (5))
                {
                    case 0: setRate (g.pick ({ 44100.0, 48000.0, 96000.0 })); break;
                    case 1: setRate (genSampleRate (g)); break;
                    case 2: setRate (g.pick ({ 0.0, -0.0, -1.0, -44100.0, -1e300, -std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::denorm_min() })); break;
                    case 3: setRate (-genSampleRate (g)); break;
                    case 4: setRate (g.pick ({ 1e-3, 0.5, 48001.0, 1e6, 1e9, 44100.5 })); break;
                    default: setRate (96000); break;
                }
                break;
            case 1:
            {
                const size_t n = g.flip() ? g.logSize (0, 5000) : g.pick ({ (size_t) 0, (size_t) 1, (size_t) 1024, (size_t) SIZE_MAX, (size_t) 1 << 32, (size_t) 1 << 31 });
                g.note ([&] (auto& s) { s << "withBlockSize(" << n << ")"; });
                expectOutcome (outcome ([&] { b.withBlockSize (n); }), n ? std::set<std::string> {} : std::set<std::string> { "SizeError" }, "withBlockSize(" + std::to_string (n) + ")");
                if (n) m.block = n;
                break;
            }
            case 2:
                switch (g.draw (4))
                {
                    case 0: setDuration ((double) g.logSize (0, 2000) / m.rate); break;
                    case 1: setDuration (g.pick ({ -1.0, -1e-300, -1e300, -std::numeric_limits<double>::infinity(), -0.1, -std::numeric_limits<double>::denorm_min() })); break;
                    case 2: setDuration (g.pick ({ 0.0, -0.0, 1e-9, 1e300, std::numeric_limits<double>::infinity() })); break;
                    case 3: setDuration (((double) g.logSize (0, 300) + g.real (-0.49, 0.49)) / m.rate); break;
                    default: setDuration (-g.real (0, 10)); break;
                }
                break;
            case 3: case 4:
                setChannels (g.flip(), g.flip() ? g.size (1, 4) : g.pick ({ (size_t) 0, (size_t) 1, (size_t) 127, (size_t) 128, (size_t) 129, (size_t) 256, (size_t) 257, ((size_t) 1 << 32) + 2, (size_t) SIZE_MAX, (size_t) 1 << 63 }));
                break;
            case 5:
            {
                const int k = (int) g.draw (5);
                g.note ([&] (auto& s) { const char* n[] = { "inMono", "inStereo", "withMonoInput", "withStereoInput", "withMonoOutput", "withStereoOutput" }; s << n[k] << "()"; });
                expectOutcome (outcome ([&] { switch (k) {
                    case 0: b.inMono(); break; case 1: b.inStereo(); break; case 2: b.withMonoInput(); break; case 3: b.withStereoInput(); break; case 4: b.withMonoOutput(); break; default: b.withStereoOutput(); break; } }), {}, "a shorthand");
                if (k < 2 || k == 2 || k == 3) m.in = k == 0 || k == 2 ? 1 : 2;
                if (k < 2 || k >= 4) m.out = k == 0 || k == 4 ? 1 : 2;
                break;
            }
            case 6: setSignal ((int) g.size (1, 5)); break;
            case 7:
            {
                const std::string l = g.pick ({ "", "label one", "label two", "label three" });
                g.note ([&] (auto& s) { s << "withLabel(" << l << ")"; });
                b.withLabel (l);
                m.label = l;
                break;
            }
            case 8:
            {
                const int id = (int) g.size (0, 2);
                const double v = g.real (-5, 5);
                g.note ([&] (auto& s) { s << "withValue(" << id << ", " << v << ")"; });
                b.withValue (id, v);
                m.values[id] = v;
                break;
            }
            case 9:
            {
                if (! integralRate()) break;  // what a wav header says about other rates is not at stake here
                const hart::Save mode = g.pick ({ hart::Save::always, hart::Save::whenFails, hart::Save::never });
                if (g.flip())
                {
                    const std::string p = g.oneIn (4) ? std::string() : wavs[g.size (0, wavs.size() - 1)];
                    const bool relative = g.flip();
                    const hart::WavFormat f = g.pick ({ hart::WavFormat::pcm16, hart::WavFormat::pcm24, hart::WavFormat::pcm32, hart::WavFormat::float32 });
                    g.note ([&] (auto& s) { s << "saveOutputTo(" << p << ", " << (int) mode << ", " << (int) f << ")"; });
                    b.saveOutputTo (relative && p.size() ? p.substr (g.workDir.size() + 1) : p, mode, f);
                    if (p.size()) { overwritten += m.wavPath.size() > 0; m.wavPath = p; m.wavMode = mode; m.wavFormat = f; }
                }
                else
                {
                    const std::string p = g.oneIn (4) ? std::string() : plots[g.size (0, plots.size() - 1)];
                    g.note ([&] (auto& s) { s << "savePlotTo(" << p << ", " << (int) mode << ")"; });
                    b.savePlotTo (p, mode);
                    if (p.size()) { overwritten += m.plotPath.size() > 0; m.plotPath = p; m.plotMode = mode; }
                }
                break;
            }
            default: if (g.oneIn (2)) process(); break;
        }
    }

    // At the end every history is made processable, so that the settings in force are seen
    if (! finished)
    {
        if (! rateOk (rateRule, m.rate)) setRate (48000);
        if (! rateOk (rateRule, m.rate)) setRate (96000);
        if (! layoutOk (layoutRule, m.in, m.out)) { setChannels (true, 1); setChannels (false, 1); }
        if (m.signal < 0) setSignal (7);
        if (! (m.rate * m.duration < 4000) || std::llround (m.rate * m.duration) == 0) setDuration ((double) g.logSize (1, 500) / m.rate);
        process();
        if (! finished) { setDuration ((double) 10 / m.rate); process(); }
    }

    PBT_CHECK (finished, "the test could not be run although its settings are legal");

    // The effect has been returned: there is nothing to test any more. The same goes for a null pointer
    if (g.oneIn (3))
    {
        const bool null = g.flip();
        hart::AudioTestBuilder<T> other = hart::processAudioWith (std::unique_ptr<Probe<T>>());
        auto& empty = null ? other : b;
        if (null)
        {
            const std::string e = outcome ([&] { other.withSampleRate (48000); });
            PBT_CHECK (e.empty() || e == "StateError", "a rate for a test without an effect was refused with " << e);
            if (g.flip()) other.withDuration (0.001).withInputSignal (Level<T> (3)).inStereo();
        }
        g.note ([&] (auto& s) { s << "process() " << (null ? "with a null effect" : "again"); });
        hart::ExpectationFailureMessages::clear();
        seen->processes = 0;
        const size_t times = g.size (1, 2);
        for (size_t i = 0; i < times; ++i)
        {
            std::unique_ptr<hart::DSP<T>> none;
            expectOutcome (outcome ([&] { none = empty.process(); }), { "StateError" }, null ? "process() with a null effect" : "another process() after the effect was returned");
            PBT_CHECK (none == nullptr && seen->processes == 0, "audio was processed by an effect that was not there");
            PBT_CHECK (hart::ExpectationFailureMessages::get().empty(), "a check failed in a test without an effect");
        }
        g.label (null ? "null effect" : "processed again");
    }

    g.labelIf (refused > 0, "refused settings");
    g.labelIf (overwritten > 0, "save settings replaced");
    if (refused >= 1 && accepted >= 2) g.nontrivial();
}

}  // namespace

HV_BOTH_TYPES (property)
PBT_MAIN ("C19", "x", propertyDispatch)
