// C15: automation values as an effect receives them, under test and in signal chains, over several runs.
#include "common.hpp"

using namespace hv;

namespace
{

struct Received { std::map<int, std::vector<double>> values; size_t frames = 0, blocks = 0; std::string problem; bool inPlace = false; };

int supported[] = { 1, 2, 5 };  // chosen anew for every case
inline bool isSupported (int id) { return id == supported[0] || id == supported[1] || id == supported[2]; }

template <typename T> class Spy : public hart::DSP<T>
{
    using SampleType = T;
public:
    explicit Spy (std::shared_ptr<Received> r) : received (r) {}
    void prepare (double, size_t, size_t, size_t) override { prepared = true; }
    void process (const hart::AudioBuffer<T>& in, hart::AudioBuffer<T>& out, const hart::EnvelopeBuffers& env) override
    {
        const size_t n = in.getNumFrames();
        std::ostringstream s;
        if (! prepared) s << "processed before being prepared; ";
        for (auto& e : env)
        {
            if (e.second.size() != n) s << "block " << received->blocks << " of " << n << " frames came with " << e.second.size() << " values for parameter " << e.first << "; ";
            auto& v = received->values[e.first];
            if (v.size() != received->frames) s << "parameter " << e.first << " had no values in earlier blocks; ";
            v.insert (v.end(), e.second.begin(), e.second.end());
        }
        for (auto& v : received->values) if (! env.count (v.first)) s << "parameter " << v.first << " has no values in block " << received->blocks << "; ";
        if (received->problem.empty()) received->problem = s.str();
        received->frames += n;
        ++received->blocks;
        for (size_t c = 0; c < out.getNumChannels(); ++c)
            for (size_t f = 0; f < n; ++f)
                out[c][f] = in[std::min (c, in.getNumChannels() - 1)][f];
    }
    void reset() override {}
    void setValue (int, double) override {}
    double getValue (int) const override { return 42; }
    bool supportsChannelLayout (size_t, size_t) const override { return true; }
    bool supportsEnvelopeFor (int id) const override { return isSupported (id); }
    void represent (std::ostream& s) const override { s << "Spy()"; }
    HART_DSP_DEFINE_COPY_AND_MOVE (Spy);
    std::shared_ptr<Received> received;
    bool prepared = false;
};

// Attaches in one of the documented ways; the original is changed afterwards, which must not matter
template <typename T> void attach (Gen& g, hart::DSP<T>& dsp, int id, const EnvSpec& spec, double fs)
{
    auto env = makeEnv (spec);
    if (g.oneIn (4))  // the original has been used already
    {
        env.prepare (fs, 8);
        std::vector<double> v (8);
        env.renderNextBlock (8, v);
    }
    switch (g.draw (4))
    {
        case 0: { const auto& c = env; dsp.withEnvelope (id, c); break; }
        case 1: dsp.withEnvelope (id, std::move (env)); return;
        case 2: dsp.withEnvelope (id, makeEnv (spec)); return;
        case 3: { const hart::Envelope& base = env; dsp.withEnvelope (id, base); break; }
        default: { auto copy = env.copy(); const hart::Envelope& base = *copy; dsp.withEnvelope (id, base); break; }
    }
    env.rampTo (spec.start + 1000, 1.0 / fs).hold (1);
    env.prepare (fs * 3, 5);
    std::vector<double> v (5);
    env.renderNextBlock (5, v);
}

template <typename T> void stock (Gen& g);

template <typename T> void property (Gen& g)
{
    if (g.oneIn (3)) { stock<T> (g); return; }

    supported[0] = 1; supported[1] = 2; supported[2] = 5;
    if (g.oneIn (3))  // any whole number may be an id
    {
        const int first = g.pick ({ 0, 1, -1, 7, 255, -128, 65535, std::numeric_limits<int>::min() });
        const int step = g.pick ({ 1, 2, 127, 128, 256, 4096, 65536, 1 << 24 });
        for (int i = 0; i < 3; ++i) supported[i] = first + i * step;
        g.label ("unusual parameter ids");
    }
    HostCfg h = genHost (g, 400, false, 600);
    auto received = std::make_shared<Received>();
    std::unique_ptr<hart::DSP<T>> dsp (new Spy<T> (received));
    std::map<int, EnvSpec> attached;
    bool replaced = false, refusedOne = false, shortLast = false, curved = false;

    auto attachSome = [&] (size_t atLeast)
    {
        const size_t n = g.size (atLeast, 4);
        for (size_t i = 0; i < n; ++i)
        {
            if (g.oneIn (6))
            {
                int bad = g.pick ({ 0, 3, -1, 6, 1000, supported[1] + 65536, supported[2] ^ std::numeric_limits<int>::min() });
                while (isSupported (bad)) bad = (bad & 0xffff) + 11;
                bool refused = false;
                const auto env = makeEnv (EnvSpec { 5, {} });
                try { if (g.flip()) dsp->withEnvelope (bad, env); else dsp->withEnvelope (bad, hart::SegmentedEnvelope (3)); }
                catch (const hart::UnsupportedError&) { refused = true; }
                PBT_CHECK (refused, "an envelope for the unsupported parameter " << bad << " is not refused with UnsupportedError");
                PBT_CHECK (! dsp->hasEnvelopeFor (bad), "the refused envelope counts as attached");
                refusedOne = true;
                continue;
            }
            const int id = supported[g.draw (2)];
            const EnvSpec spec = genEnv (g, h.sampleRate, h.frames, g.pick ({ -3.0, 0.1 }), g.pick ({ 2.0, 100.0 }));
            attach<T> (g, *dsp, id, spec, h.sampleRate);
            replaced |= attached.count (id) > 0;
            curved |= ! spec.segs.empty();
            attached[id] = spec;
            g.note ([&] (auto& s) { s << "  parameter " << id << ": " << spec; });
        }
        for (int id : supported) PBT_CHECK (dsp->hasEnvelopeFor (id) == (attached.count (id) > 0), "hasEnvelopeFor (" << id << ") is wrong");
    };

    auto verify = [&] (size_t frames, double fs, const char* where)
    {
        const Received& r = *received;
        PBT_CHECK (r.problem.empty(), where << ": " << r.problem);
        PBT_CHECK (r.frames == frames, where << ": the effect processed " << r.frames << " frames instead of " << frames);
        for (auto& v : r.values) PBT_CHECK (attached.count (v.first), where << ": values for parameter " << v.first << ", which has no envelope");
        for (auto& a : attached)
        {
            const auto v = r.values.find (a.first);
            PBT_CHECK (v != r.values.end(), where << ": no values for parameter " << a.first);
            for (size_t n = 0; n < frames; ++n)
            {
                double scale = 1 + std::abs (a.second.start);
                for (auto& s : a.second.segs) scale = std::max (scale, std::abs (s.target));
                const Interval i = envRange (a.second, n, fs, 1e-6 * scale);
                PBT_CHECK (v->second[n] >= i.lo && v->second[n] <= i.hi, where << ": parameter " << a.first << " is " << v->second[n] << " at frame " << n << ", the envelope is at " << i.lo << ".." << i.hi);
            }
        }
    };

    auto clear = [&] { *received = Received(); };

    attachSome (1);
    const size_t runs = g.size (1, 3);

    for (size_t run = 0; run < runs; ++run)
    {
        if (run > 0)
        {
            if (g.flip()) h.sampleRate = genSampleRate (g);
            h.frames = genFrames (g, 400);
            h.duration = genDuration (g, h.frames, h.sampleRate);
            h.block = genBlock (g, h.frames);
            if (g.oneIn (3)) attachSome (0);
        }
        shortLast |= h.frames % h.block != 0 && h.frames > h.block;
        clear();
        const int how = (int) g.draw (4);
        g.note ([&] (auto& s) { s << "run " << run << ": " << h << ", way " << how; });

        switch (how)
        {
            case 0: case 1:  // under test; the returned effect goes into the next run
            {
                hart::AudioTestBuilder<T> b = how == 0 ? hart::AudioTestBuilder<T> (std::move (dsp)) : hart::AudioTestBuilder<T> (dynamic_cast<Spy<T>&> (*dsp));
                applyHost (b, h);
                b.withInputSignal (hart::SineWave<T>());
                if (g.flip()) b.withValue (supported[g.draw (2)], 7.0);
                auto back = b.process();
                if (how == 0 || g.flip()) dsp = std::move (back);
                verify (h.frames, h.sampleRate, "under test");
                g.label ("under test");
                break;
            }
            case 2:  // in the chain of the input signal
            {
                hart::Silence<T> signal;
                if (g.flip()) signal.followedBy (dsp->copy()); else signal.followedBy (dynamic_cast<Spy<T>&> (*dsp));
                if (g.flip()) signal.followedBy (hart::GainDb<T> (-3));
                auto b = hart::processAudioWith (ThruDsp<T>());
                applyHost (b, h);
                b.withInputSignal (signal).process();
                verify (h.frames, h.sampleRate, "in a signal's chain");
                g.label ("in a chain");
                break;
            }
            case 3:  // signal rendered by hand, several times, stopped midway
            {
                hart::WhiteNoise<T> signal;
                signal.followedBy (dsp->copy());
                const size_t rounds = g.size (1, 3);
                for (size_t k = 0; k < rounds; ++k)
                {
                    clear();
                    const size_t frames = k + 1 < rounds ? g.size (1, h.frames) : h.frames;
                    renderSignal<T> (signal, h.sampleRate, h.inCh, frames, h.block);
                    verify (frames, h.sampleRate, "in a signal rendered again");
                }
                g.label ("rendered again after a reset");
                break;
            }
            default:  // in the reference signal of a matcher
            {
                hart::SineWave<T> signal (100);
                signal.followedBy (dsp->copy());
                auto b = hart::processAudioWith (ThruDsp<T>());
                applyHost (b, h);
                b.withOutputChannels (h.inCh).withInputSignal (hart::SineWave<T> (100)).expectTrue (hart::EqualsTo<T> (signal)).process();
                verify (h.frames, h.sampleRate, "in a matcher's reference signal");
                g.label ("in a matcher");
                break;
            }
        }
    }

    g.labelIf (replaced, "envelope replaced");
    g.labelIf (refusedOne, "unsupported parameter refused");
    g.labelIf (shortLast, "shorter last block");
    g.labelIf (runs > 1, "several runs");
    if (curved && h.frames > 1) g.nontrivial();
}

// The stock gains apply the automation
template <typename T> void stock (Gen& g)
{
    HostCfg h = genHost (g, 300);
    const bool db = g.flip();
    const int id = db ? (int) hart::GainDb<T>::gainDb : (int) hart::GainLinear<T>::gainLinear;
    if (! g.flip()) h.outCh = h.inCh; else h.inCh = 1;

    if (g.oneIn (10))
    {
        bool refused = false;
        try
        {
            const hart::SegmentedEnvelope env (1);
            if (g.flip()) { hart::HardClip<T> c (-3); c.withEnvelope (hart::HardClip<T>::thresholdDb, env); }
            else { const int bad = id + (g.flip() ? 1 : -1); if (db) { hart::GainDb<T> x (0); x.withEnvelope (bad, env); } else { hart::GainLinear<T> x (0); x.withEnvelope (bad, env); } }
        }
        catch (const hart::UnsupportedError&) { refused = true; }
        PBT_CHECK (refused, "a stock effect took an envelope for a parameter that it does not automate");
        g.label ("stock effect refuses");
        g.nontrivial();
        return;
    }

    const double lo = db ? -140 : -2, hi = db ? 12 : 3;
    EnvSpec spec = genEnv (g, h.sampleRate, h.frames, lo, hi);
    const double fixed = db ? g.real (-10, 10) : g.real (-2, 2);
    const auto input = genData<double> (g, h.inCh, h.frames);
    Chans<T> in (h.inCh);
    for (size_t c = 0; c < h.inCh; ++c) in[c].assign (input[c].begin(), input[c].end());

    std::unique_ptr<hart::DSP<T>> dsp;
    if (db) dsp.reset (new hart::GainDb<T> (fixed)); else dsp.reset (new hart::GainLinear<T> (fixed));
    if (g.oneIn (4)) attach<T> (g, *dsp, id, EnvSpec { 1, {} }, h.sampleRate);
    attach<T> (g, *dsp, id, spec, h.sampleRate);
    g.note ([&] (auto& s) { s << (db ? "GainDb " : "GainLinear ") << fixed << " with " << spec << "; " << h; });

    auto check = [&] (const Chans<T>& out, size_t frames, const char* where)
    {
        PBT_CHECK (! out.empty() && out[0].size() == frames, where << ": wrong size");
        for (size_t c = 0; c < out.size(); ++c)
            for (size_t f = 0; f < frames; ++f)
            {
                const double x = f < h.frames ? (double) in[in.size() == out.size() ? c : 0][f] : 0;
                Interval i = envRange (spec, f, h.sampleRate, 1e-5);
                const double a = db ? refDb (i.lo) : i.lo, b = db ? refDb (i.hi) : i.hi;
                const double l = std::min (x * a, x * b), u = std::max (x * a, x * b), y = (double) out[c][f];
                const double tol = 1e-5 * (std::abs (l) + std::abs (u)) + 1e-9;
                PBT_CHECK (y >= l - tol && y <= u + tol, where << ": input " << x << " became " << y << " on channel " << c << " at frame " << f << ", the envelope is at " << i.lo << ".." << i.hi);
            }
    };

    const size_t runs = g.size (1, 3);
    for (size_t run = 0; run < runs; ++run)
    {
        if (run > 0) h.block = genBlock (g, h.frames);
        const bool chain = g.oneIn (3) && h.inCh == h.outCh;
        if (chain)
        {
            DataSignal<T> s (in);
            s.followedBy (dsp->copy());
            auto b = hart::processAudioWith (ThruDsp<T>());
            applyHost (b, h);
            b.withInputSignal (s);
            check (runHost<T> (b), h.frames, "in a chain");
        }
        else
        {
            hart::AudioTestBuilder<T> b (std::move (dsp));
            applyHost (b, h);
            b.withInputSignal (DataSignal<T> (in));
            if (g.oneIn (3)) b.withValue (id, fixed + 1);  // the envelope counts instead
            auto cap = std::make_shared<Captured<T>>();
            b.assertTrue (Capture<T> (cap));
            dsp = b.process();
            check (cap->audio, h.frames, "under test");
        }
    }
    g.label (db ? "GainDb automated" : "GainLinear automated");
    if (! spec.segs.empty()) g.nontrivial();
}

}  // namespace

HV_BOTH_TYPES (property)
PBT_MAIN ("C15", "x", propertyDispatch)
