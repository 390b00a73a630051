// C04: the stock matchers' verdicts against their definitions.
#include "common.hpp"

using namespace hv;

namespace
{

enum class Verdict { accept, reject, unclear };

// Feeds the whole audio in blocks (stopping at the first rejection, like the host) or at once
template <typename T> bool judge (hart::Matcher<T>& m, const Chans<T>& d, size_t block)
{
    const size_t frames = d[0].size();
    for (size_t at = 0; at < frames;)
    {
        const size_t n = std::min (block, frames - at);
        hart::AudioBuffer<T> b (d.size(), n);
        for (size_t c = 0; c < d.size(); ++c) std::copy (d[c].begin() + (long) at, d[c].begin() + (long) (at + n), b[c]);
        if (! m.match (b)) return false;
        at += n;
    }
    return true;
}

// Negates every third frame since its reset
template <typename T> class Flipper : public hart::DSP<T>
{
    using SampleType = T;
public:
    void prepare (double, size_t, size_t, size_t) override {}
    void process (const hart::AudioBuffer<T>& in, hart::AudioBuffer<T>& out, const hart::EnvelopeBuffers&) override
    {
        for (size_t f = 0; f < in.getNumFrames(); ++f, ++position)
            for (size_t c = 0; c < in.getNumChannels(); ++c) out[c][f] = position % 3 == 1 ? -in[c][f] : in[c][f];
    }
    void reset() override { position = 0; }
    void setValue (int, double) override {}
    double getValue (int) const override { return 0; }
    bool supportsChannelLayout (size_t i, size_t o) const override { return i == o; }
    void represent (std::ostream& s) const override { s << "Flipper()"; }
    HART_DSP_DEFINE_COPY_AND_MOVE (Flipper);
    size_t position = 0;
};

template <typename T> void property (Gen& g)
{
    const bool isLong = g.oneIn (600);
    const size_t channels = isLong ? g.size (1, 2) : genChannels (g), frames = isLong ? genLongFrames (g) : genFrames (g, 600);
    g.labelIf (isLong, "more than 65534 frames");
    const double fs = genSampleRate (g);
    auto data = genData<T> (g, channels, frames, g.oneIn (3) ? withNan : withLoud);
    bool nan = false;
    double peak = 0;

    std::unique_ptr<hart::Matcher<T>> m;
    Verdict want = Verdict::unclear;
    std::string what;
    std::ostringstream desc;
    desc.precision (17);
    const int kind = (int) g.draw (2);
    const bool exact = g.oneIn (4);  // powers of two, so that the boundary itself is exact
    const double marginLow = 1 - 1e-4, marginHigh = 1 + 1e-4;

    auto scan = [&]
    {
        nan = false; peak = 0;
        for (auto& c : data) for (T v : c) if (std::isnan (v)) nan = true; else peak = std::max (peak, (double) std::abs (v));
    };

    if (kind == 0)
    {
        const double tol = exact ? g.pick ({ 0.25, 0.0, 0.5, 1.0 / 1024 }) : g.pick ({ 1e-5, 1e-3, 0.1, 1.0, 0.0 });
        auto ref = data;
        for (auto& c : ref) for (T& v : c) if (! std::isfinite (v)) v = (T) 0.5;
        if (exact) { for (auto& c : data) for (T& v : c) if (std::isfinite (v)) v = (T) (std::round ((double) v * 256) / 256); ref = data; for (auto& c : ref) for (T& v : c) if (! std::isfinite (v)) v = (T) 0.5; }
        const size_t edits = g.logSize (0, 4);
        const bool all = g.oneIn (3);
        if (all)
            for (size_t c = 0; c < channels; ++c) for (size_t f = 0; f < frames; ++f)
                if (std::abs ((double) ref[c][f]) < 100) ref[c][f] = (T) (ref[c][f] + (exact ? ((f & 1) ? tol : -tol) : tol * 0.5));
        for (size_t i = 0; i < edits; ++i)
        {
            T& v = ref[g.size (0, channels - 1)][g.size (0, frames - 1)];
            const double by = exact ? tol + g.pick ({ 0.0, 1.0 / 4096, 1.0 }) : tol * g.pick ({ 0.5, 2.0, 30.0 }) + (g.flip() ? 0.02 : 0.0);
            if (std::abs ((double) v) < 100) v = (T) (v + (g.flip() ? by : -by)); else v = (T) (-v);
        }
        bool ok = true, unclear = false;
        for (size_t c = 0; c < channels; ++c)
            for (size_t f = 0; f < frames; ++f)
            {
                const double d = std::abs ((double) data[c][f] - (double) ref[c][f]);
                if (! (d <= tol)) ok = false;
                // the difference and the tolerance are evaluated in SampleType
                const double slack = 1e-4 * tol + (sizeof (T) == 4 ? 3e-7 : 1e-15) * std::abs ((double) data[c][f]);
                if (! exact && std::isfinite (data[c][f]) && tol > 0 && std::abs (d - tol) <= slack) unclear = true;
                if (! exact && tol == 0 && d > 0 && d <= 1e-30) unclear = true;
            }
        want = unclear ? Verdict::unclear : ok ? Verdict::accept : Verdict::reject;
        // The reference may come through a chain whose state or automation changes over time
        const int chain = (int) g.draw (3);
        const size_t turn = g.size (0, frames - 1);
        if (chain == 2) for (auto& c : ref) for (size_t f = 1; f < frames; f += 3) c[f] = -c[f];
        if (chain == 3) for (auto& c : ref) for (size_t f = turn; f < frames; ++f) c[f] = -c[f];
        DataSignal<T> refSignal (ref);
        if (chain == 1) refSignal.followedBy (hart::GainLinear<T> (1.0));
        if (chain == 2) refSignal.followedBy (Flipper<T>());
        if (chain == 3)
        {
            hart::GainLinear<T> gain;
            gain.withEnvelope (hart::GainLinear<T>::gainLinear, hart::SegmentedEnvelope (1.0).hold (((double) turn + 0.5) / fs).rampTo (-1.0, 0.0));
            refSignal.followedBy (gain);
        }
        g.labelIf (chain >= 2, "reference with a chain that changes over time");
        m.reset (new hart::EqualsTo<T> (refSignal, tol));
        desc << "EqualsTo(tolerance " << tol << (exact ? ", exact" : "") << ")";
        scan();
    }
    else
    {
        const double tol = exact ? g.pick ({ 0.25, 0.0, 0.5 }) : g.pick ({ 1e-3, 1e-5, 0.05, 0.5 });
        if (exact)
        {
            // 0 dB is exactly 1
            for (auto& c : data) for (T& v : c) if (std::isfinite (v)) v = (T) (std::round (std::max (-1.0, std::min (1.0, (double) v)) * 512) / 1024);
            const size_t edits = g.size (0, 2);
            for (size_t i = 0; i < edits; ++i)
                data[g.size (0, channels - 1)][g.size (0, frames - 1)] = (T) ((1 + g.pick ({ tol, -tol, tol + 1.0 / 1024, -tol - 1.0 / 1024, 0.0 })) * (g.flip() ? 1 : -1));
        }
        scan();
        const double levelDb = exact ? 0.0 : g.oneIn (3) || peak < 1e-5 ? g.real (-80, 10) : 20 * std::log10 (peak) + g.pick ({ 0.0, -0.5, 0.5, -6.0, 0.02, -0.02 });
        const double level = levelDb < -120 ? 0.0 : std::pow (10.0, levelDb / 20);
        if (kind == 1)
        {
            const double limit = level + tol;
            want = nan ? Verdict::reject : exact ? (peak <= limit ? Verdict::accept : Verdict::reject)
                 : peak <= limit * marginLow ? Verdict::accept : peak >= limit * marginHigh ? Verdict::reject : Verdict::unclear;
            m.reset (new hart::PeaksBelow<T> (levelDb, tol));
            desc << "PeaksBelow(" << levelDb << "," << tol << ")";
        }
        else
        {
            const double d = std::abs (peak - level);
            const double slack = 1e-4 * tol + 1e-6 * (std::min (peak, 1e9) + level);
            want = nan ? Verdict::reject : exact ? (d <= tol ? Verdict::accept : Verdict::reject)
                 : d <= tol - slack ? Verdict::accept : d >= tol + slack ? Verdict::reject : Verdict::unclear;
            m.reset (new hart::PeaksAt<T> (levelDb, tol));
            desc << "PeaksAt(" << levelDb << "," << tol << ")";
        }
    }

    if (want == Verdict::unclear) g.discard();
    g.note ([&] (auto& s) { s << channels << " channels, " << frames << " frames, peak " << peak << (nan ? ", contains NaN" : "") << ", " << desc.str() << ": " << (want == Verdict::accept ? "accept" : "reject"); });

    const bool perBlock = m->canOperatePerBlock();
    const size_t passes = g.size (1, 3);
    for (size_t pass = 0; pass < passes; ++pass)
    {
        switch (g.draw (4)) { case 3: m = m->copy(); g.label ("copied"); break; case 4: m = m->move(); g.label ("moved"); break; default: break; }
        const size_t block = perBlock ? (isLong ? genLongBlock (g, frames) : genBlock (g, frames)) : frames;
        if (g.flip()) { m->prepare (fs, channels, block); m->reset(); }
        else { m->reset(); m->prepare (fs, channels, block); }
        if (perBlock && g.oneIn (4) && frames > 1)
        {
            hart::AudioBuffer<T> b (channels, std::min (block, frames));  // an abandoned run
            m->match (b);
            m->reset();
            g.label ("reset after an abandoned run");
        }
        const bool accepted = judge (*m, data, block);
        PBT_CHECK (accepted == (want == Verdict::accept), "pass " << pass << " (blocks of " << block << "): " << desc.str() << (accepted ? " accepted" : " rejected") << " the audio");
        g.labelIf (block < frames, "block by block");
    }

    static const char* names[] = { "EqualsTo", "PeaksBelow", "PeaksAt" };
    g.label (std::string (names[kind]) + (want == Verdict::accept ? " accepts" : " rejects"));
    g.labelIf (nan, "NaN");
    g.labelIf (exact, "exact boundary values");
    if (peak > 0) g.nontrivial();
}

}  // namespace

HV_BOTH_TYPES (property)
PBT_MAIN ("C04", "x", propertyDispatch)
