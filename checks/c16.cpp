// C16: chains of effects built in every documented way, against a reference that applies them one after the other.
#include "common.hpp"

using namespace hv;

namespace
{

template <typename T> struct Refuser : public hart::DSP<T>
{
    using SampleType = T;
    Refuser (std::shared_ptr<std::vector<std::string>> l, bool layout, bool rate) : log (l), okLayout (layout), okRate (rate) {}
    void prepare (double, size_t, size_t, size_t) override { log->push_back (okLayout && okRate ? "prepare" : "prepare of an effect that refuses"); }
    void process (const hart::AudioBuffer<T>& in, hart::AudioBuffer<T>& out, const hart::EnvelopeBuffers&) override
    {
        log->push_back ("process");
        for (size_t c = 0; c < out.getNumChannels(); ++c) for (size_t f = 0; f < out.getNumFrames(); ++f) out[c][f] = in[c][f];
    }
    void reset() override {}
    void setValue (int, double) override {}
    double getValue (int) const override { return 0; }
    bool supportsChannelLayout (size_t, size_t) const override { return okLayout; }
    bool supportsSampleRate (double) const override { return okRate; }
    void represent (std::ostream& s) const override { s << "Refuser()"; }
    HART_DSP_DEFINE_COPY_AND_MOVE (Refuser);
    std::shared_ptr<std::vector<std::string>> log;
    bool okLayout, okRate;
};

// Adds an effect in one of the documented ways and then changes or destroys the original
template <typename T, typename D> void addConcrete (Gen& g, hart::Signal<T>& signal, D effect, int paramId, int how)
{
    const D before (effect);
    auto spoil = [&]
    {
        // Lent, not given: the caller's own effect still does what it did
        auto through = [] (const D& d)
        {
            DataSignal<T> s (Chans<T> { { (T) 0.5, (T) -0.25, (T) 1, (T) 0.125, (T) -1 } });
            s.followedBy (d.copy());
            return renderSignal<T> (s, 1000, 1, 5, 2);
        };
        PBT_CHECK (through (effect) == through (before), "adding an effect to the chain (way " << how << ") changed the caller's own effect");
        effect.setValue (paramId, 0.123);
        if (effect.supportsEnvelopeFor (paramId)) effect.withEnvelope (paramId, hart::SegmentedEnvelope (0.3));
    };
    switch (how)
    {
        case 0: signal.followedBy (effect); spoil(); break;
        case 1: { const hart::DSP<T>& base = effect; signal.followedBy (base); spoil(); break; }
        case 2: signal.followedBy (std::move (effect)); break;
        case 3: signal.followedBy (effect.copy()); spoil(); break;
        case 4: signal.followedBy (effect.move()); break;
        case 5: signal >> effect; spoil(); break;
        case 6: signal >> std::move (effect); break;
        case 7: signal >> effect.copy(); spoil(); break;
        case 8: { const D copy (effect); signal.followedBy (copy); break; }
        case 9: { const D copy (effect); signal >> copy; break; }
        default: signal.followedBy (D (effect)); spoil(); break;
    }
}

template <typename T> void add (Gen& g, hart::Signal<T>& signal, const EffectSpec& e, int how)
{
    auto made = makeEffect<T> (e);
    switch (e.kind)
    {
        case gainDb: addConcrete<T> (g, signal, hart::GainDb<T> (dynamic_cast<hart::GainDb<T>&> (*made)), hart::GainDb<T>::gainDb, how); break;
        case gainLinear: addConcrete<T> (g, signal, hart::GainLinear<T> (dynamic_cast<hart::GainLinear<T>&> (*made)), hart::GainLinear<T>::gainLinear, how); break;
        case hardClip: addConcrete<T> (g, signal, hart::HardClip<T> (dynamic_cast<hart::HardClip<T>&> (*made)), hart::HardClip<T>::thresholdDb, how); break;
        default: addConcrete<T> (g, signal, LeakyDsp<T> (dynamic_cast<LeakyDsp<T>&> (*made)), LeakyDsp<T>::coefficient, how); break;
    }
}

template <typename T> void compare (const Chans<T>& got, const Chans<double>& want, const std::vector<EffectSpec>& chain, const std::vector<char>& skip, const char* where)
{
    PBT_CHECK (got.size() == want.size() && got[0].size() == want[0].size(), where << ": wrong size");
    double scale = 1;
    bool recursive = false;
    for (auto& e : chain) { scale *= effectGain (e); recursive |= e.kind == leaky; }
    const double tol = tolFor<T>() * scale * 4;
    for (size_t c = 0; c < want.size(); ++c)
        for (size_t f = 0; f < want[c].size(); ++f)
        {
            if (skip[f]) { if (recursive) break; continue; }
            PBT_CHECK (std::abs ((double) got[c][f] - want[c][f]) <= tol, where << ": channel " << c << " frame " << f << " is " << (double) got[c][f] << ", the effects in order give " << want[c][f]);
        }
}

template <typename T> void refusals (Gen& g)
{
    HostCfg h = genHost (g, 60, true);
    auto log = std::make_shared<std::vector<std::string>>();
    auto signalLog = std::make_shared<SignalLog>();
    DataSignal<T> signal (Chans<T> (h.inCh, std::vector<T> (10, (T) 0.5)), signalLog);
    const size_t n = g.size (1, 4), bad = g.size (0, n - 1);
    const bool layout = g.flip();
    for (size_t i = 0; i < n; ++i)
    {
        if (i == bad) signal.followedBy (Refuser<T> (log, ! layout, layout));
        else if (g.flip()) signal.followedBy (Refuser<T> (log, true, true));
        else signal >> hart::GainDb<T> (-3);
    }
    const bool inMatcher = g.oneIn (3);
    g.note ([&] (auto& s) { s << "chain of " << n << ", effect " << bad << " refuses the " << (layout ? "layout" : "rate") << (inMatcher ? ", as a matcher's reference" : "") << "; " << h; });
    bool refused = false;
    try
    {
        if (inMatcher || g.flip())
        {
            auto b = hart::processAudioWith (ThruDsp<T>());
            applyHost (b, h);
            if (inMatcher) b.withInputSignal (hart::Silence<T>()).expectTrue (hart::EqualsTo<T> (signal));
            else b.withInputSignal (signal);
            b.process();
        }
        else
        {
            signal.resetWithDSPChain();
            signal.prepareWithDSPChain (h.sampleRate, h.inCh, h.block);
        }
    }
    catch (const hart::ChannelLayoutError&) { refused = layout; }
    catch (const hart::SampleRateError&) { refused = ! layout; }
    hart::ExpectationFailureMessages::clear();
    PBT_CHECK (refused, "a chain with an effect that does not support the " << (layout ? "channel layout" : "sample rate") << " was not refused with the matching error");
    PBT_CHECK (signalLog->renders == 0, "audio was rendered although the chain is refused");
    for (auto& e : *log) PBT_CHECK (e == "prepare", "although refused: " << e);
    g.label ("refused chain");
    g.nontrivial();
}

template <typename T> void property (Gen& g)
{
    if (g.oneIn (8)) { refusals<T> (g); return; }

    HostCfg h = genHost (g, 250, true, 800);
    const size_t channels = h.inCh, frames = h.frames;
    SignalSpec spec = genSignal (g, h, channels);

    // The reference: the bare signal, then each effect in turn
    auto bare = makeBareSignal<T> (spec);
    const auto base = renderSignal<T> (*bare, h.sampleRate, channels, frames, frames);
    Chans<double> want (channels);
    for (size_t c = 0; c < channels; ++c) want[c].assign (base[c].begin(), base[c].end());
    std::vector<char> skip (frames, 0);

    auto signal = makeBareSignal<T> (spec);
    const bool many = g.oneIn (60);
    g.labelIf (many, "more than five effects");
    const size_t n = many ? g.size (6, 24) : g.size (0, 5);
    std::set<int> ways;
    bool differentKinds = false;
    for (size_t i = 0; i < n; ++i)
    {
        const EffectSpec e = genEffect (g, h.sampleRate, frames, g.mostly (3));
        const int how = (int) g.draw (10);
        add<T> (g, *signal, e, how);
        ways.insert (how);
        differentKinds |= ! spec.chain.empty() && spec.chain.back().kind != e.kind;
        spec.chain.push_back (e);
        want = refEffect (e, want, channels, h.sampleRate, &skip);
        if (g.oneIn (6)) { auto copy = signal->copy(); signal = std::move (copy); }
    }
    g.note ([&] (auto& s) { s << spec << "; " << h; });

    compare<T> (renderSignal<T> (*signal, h.sampleRate, channels, frames, h.block), want, spec.chain, skip, "rendered");

    {
        auto b = hart::processAudioWith (ThruDsp<T>());
        applyHost (b, h);
        b.withInputSignal (*signal);
        compare<T> (runHost<T> (b), want, spec.chain, skip, "as the input signal");
    }

    // Hundreds of effects in one chain
    if (g.oneIn (150))
    {
        auto crowd = makeBareSignal<T> (spec);
        Chans<double> x (channels);
        for (size_t c = 0; c < channels; ++c) x[c].assign (base[c].begin(), base[c].end());
        const size_t count = g.size (25, 700);
        double level = 1, highest = 1;
        for (size_t i = 0; i < count; ++i)
        {
            EffectSpec e;
            e.kind = i % 40 == 17 ? hardClip : i % 3 == 1 ? gainDb : gainLinear;
            e.value = e.kind == hardClip ? g.real (-6, 0) : e.kind == gainDb ? g.real (-0.1, 0.1) : g.real (0.99, 1.01) * (g.oneIn (9) ? -1 : 1);
            add<T> (g, *crowd, e, (int) g.draw (10));
            x = refEffect (e, x, channels, h.sampleRate);
            level *= effectGain (e);
            highest = std::max (highest, level);
        }
        double peak = 1;
        for (auto& c : base) for (T v : c) peak = std::max (peak, (double) std::abs (v));
        const std::string d = firstFar (renderSignal<T> (*crowd, h.sampleRate, channels, frames, h.block), x, (sizeof (T) == 4 ? 1e-6 : 1e-12) * (double) count * highest * peak);
        PBT_CHECK (d.empty(), "with " << count << " effects: " << d);
        g.label ("hundreds of effects");
    }

    // Testing an effect on the signal, or a unity gain on the signal followed by the effect
    {
        const EffectSpec e = genEffect (g, h.sampleRate, frames, g.mostly (3));
        g.note ([&] (auto& s) { s << "  effect under test: " << e; });
        hart::AudioTestBuilder<T> direct (makeEffect<T> (e));
        applyHost (direct, h);
        direct.withInputSignal (*signal);
        const auto a = runHost<T> (direct);

        auto longer = signal->copy();
        add<T> (g, *longer, e, (int) g.draw (10));
        hart::AudioTestBuilder<T> unity = g.flip() ? hart::processAudioWith (hart::GainDb<T> (0)) : hart::processAudioWith (hart::GainLinear<T> (1));
        applyHost (unity, h);
        unity.withInputSignal (*longer);
        const auto b = runHost<T> (unity);

        auto chain = spec.chain;
        chain.push_back (e);
        double scale = 1;
        for (auto& x : chain) scale *= effectGain (x);
        for (size_t c = 0; c < channels; ++c)
            for (size_t f = 0; f < frames; ++f)
                PBT_CHECK (std::abs ((double) a[c][f] - (double) b[c][f]) <= tolFor<T>() * scale, "channel " << c << " frame " << f << ": the effect under test gives " << (double) a[c][f] << ", in the chain " << (double) b[c][f]);

        auto wantLonger = refEffect (e, want, channels, h.sampleRate, &skip);
        compare<T> (a, wantLonger, chain, skip, "under test");
    }

    // Temporaries in one expression
    if (g.oneIn (4))
    {
        const double db = g.real (-20, 6), clip = g.real (-20, 0), lin = g.real (-2, 2);
        const double f = h.sampleRate * g.real (0.001, 0.3);
        auto b = hart::processAudioWith (ThruDsp<T>());
        applyHost (b, h);
        Chans<double> x = refSine (f, 0, h.sampleRate, channels, frames);
        EffectSpec e1, e2, e3;
        e1.kind = gainDb; e1.value = db; e2.kind = hardClip; e2.value = clip; e3.kind = gainLinear; e3.value = lin;
        if (g.flip())
        {
            b.withInputSignal (hart::SineWave<T> (f) >> hart::GainDb<T> (db) >> hart::HardClip<T> (clip) >> hart::GainLinear<T> (lin));
            for (auto& e : { e1, e2, e3 }) x = refEffect (e, x, channels, h.sampleRate);
        }
        else
        {
            hart::SineWave<T> s (f);
            std::unique_ptr<hart::DSP<T>> p (new hart::GainDb<T> (db));
            b.withInputSignal (s.followedBy (hart::GainLinear<T> (lin)).followedBy (hart::HardClip<T> (clip)) >> std::move (p));
            for (auto& e : { e3, e2, e1 }) x = refEffect (e, x, channels, h.sampleRate);
        }
        const auto out = runHost<T> (b);
        const std::string d = firstFar (out, x, (sizeof (T) == 4 ? 2e-4 : 1e-6) * 4);
        PBT_CHECK (d.empty(), "in one expression: " << d);
        g.label ("chained temporaries");
    }

    g.label (std::to_string (n) + " effects");
    for (int w : ways) g.label ("way " + std::to_string (w));
    if (n >= 2 && differentKinds) g.nontrivial();
}

}  // namespace

HV_BOTH_TYPES (property)
PBT_MAIN ("C16", "x", propertyDispatch)
