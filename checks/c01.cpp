// C01: the host drives the effect under test through its documented lifecycle.
#include "common.hpp"

using namespace hv;

namespace
{

enum class Ev { askLayout, askRate, reset, prepare, setValue, process };

struct Event { Ev what; size_t a = 0, b = 0, c = 0, d = 0; double x = 0; int id = 0; int instance = 0; };
using Log = std::vector<Event>;

struct Support { bool allLayouts = true; size_t in = 0, out = 0; bool allRates = true; double rate = 0; };

template <typename T> class Spy : public hart::DSP<T>
{
    using SampleType = T;
public:
    Spy (std::shared_ptr<Log> l, Support s) : log (l), support (s) {}
    Spy (const Spy& o) : hart::DSP<T> (o), log (o.log), support (o.support), instance (++counter()) {}
    Spy (Spy&& o) : hart::DSP<T> (std::move (o)), log (o.log), support (o.support), instance (++counter()) {}
    static int& counter() { static int c = 0; return c; }
    void add (Event e) const { e.instance = instance; log->push_back (e); }
    void prepare (double fs, size_t i, size_t o, size_t block) override { Event e { Ev::prepare, i, o, block }; e.x = fs; add (e); }
    void process (const hart::AudioBuffer<T>& in, hart::AudioBuffer<T>& out, const hart::EnvelopeBuffers& env) override
    {
        add ({ Ev::process, in.getNumChannels(), in.getNumFrames(), out.getNumChannels(), out.getNumFrames(), (double) env.size() });
        for (size_t c = 0; c < in.getNumChannels(); ++c) for (size_t f = 0; f < in.getNumFrames(); ++f) sink = sink + in[c][f];
        for (size_t c = 0; c < out.getNumChannels(); ++c) for (size_t f = 0; f < out.getNumFrames(); ++f) out[c][f] = (T) 0.25;
    }
    void reset() override { add ({ Ev::reset }); }
    void setValue (int id, double v) override { Event e { Ev::setValue }; e.id = id; e.x = v; add (e); }
    double getValue (int) const override { return 0; }
    bool supportsChannelLayout (size_t i, size_t o) const override { add ({ Ev::askLayout, i, o }); return support.allLayouts || (i == support.in && o == support.out); }
    bool supportsEnvelopeFor (int id) const override { return id >= 0 && id < 3; }
    bool supportsSampleRate (double r) const override { Event e { Ev::askRate }; e.x = r; add (e); return support.allRates || r == support.rate; }
    void represent (std::ostream& s) const override { s << "Spy()"; }
    HART_DSP_DEFINE_COPY_AND_MOVE (Spy);
    std::shared_ptr<Log> log;
    Support support;
    int instance = 0;
    volatile T sink = 0;
};

template <typename T> void property (Gen& g)
{
    auto log = std::make_shared<Log>();
    const size_t runs = g.size (1, 2);
    HostCfg h = genHost (g, 3000, false, 600);
    const bool setRate = g.mostly (5), setBlock = g.mostly (5), setChannels = g.mostly (5);
    if (! setRate) { h.sampleRate = 44100; h.duration = (double) h.frames / 44100; }
    if (! setBlock) h.block = 1024;
    if (! setChannels) h.inCh = h.outCh = 1;

    Support support;
    const bool badLayout = g.oneIn (6), badRate = g.oneIn (6);
    if (badLayout || g.oneIn (3)) { support.allLayouts = false; support.in = h.inCh; support.out = h.outCh; if (badLayout) (g.flip() ? support.in : support.out) += g.size (1, 3); }
    if (badRate || g.oneIn (3)) { support.allRates = false; support.rate = badRate ? h.sampleRate * g.pick ({ 2.0, 0.5, 1.5 }) : h.sampleRate; }

    std::unique_ptr<hart::DSP<T>> returned;

    for (size_t run = 0; run < runs; ++run)
    {
        if (run == 1)  // the effect that came back is used in another run with other settings
        {
            h.block = genBlock (g, h.frames);
            h.frames = genFrames (g, 1000);
            h.duration = genDuration (g, h.frames, h.sampleRate);
        }
        const bool useBlock = setBlock || run == 1;
        struct Setting { int id; double value; };
        std::vector<Setting> values (g.logSize (0, 6));
        for (auto& v : values) v = { (int) g.range (-1, 3), g.real (-10, 10) };

        g.note ([&] (auto& s) { s << "run " << run << ": " << h << (setRate ? "" : " (default rate)") << (useBlock ? "" : " (default block)") << (setChannels ? "" : " (default channels)")
            << (badLayout ? " unsupported layout" : "") << (badRate ? " unsupported rate" : "") << ", " << values.size() << " values"; });

        // Parameters may be automated as well; their values are set all the same
        const unsigned automated = g.flip() ? 0 : (unsigned) g.draw (7);
        auto automate = [&] (hart::DSP<T>& d) { for (int id = 0; id < 3; ++id) if (automated >> id & 1) d.withEnvelope (id, hart::SegmentedEnvelope (0.5).rampTo (2.0, 0.001)); };

        Spy<T> original (log, support);
        automate (original);
        const int how = returned ? 2 : (int) g.draw (2);
        auto builder = [&]
        {
            if (how == 0) return hart::AudioTestBuilder<T> (original);
            if (how == 1) return hart::AudioTestBuilder<T> (std::move (original));
            std::unique_ptr<hart::DSP<T>> p = returned ? std::move (returned) : std::unique_ptr<hart::DSP<T>> (new Spy<T> (log, support));
            automate (*p);
            return hart::AudioTestBuilder<T> (std::move (p));
        }();

        bool refused = false;
        log->clear();
        try
        {
            // The settings in a random order; the values keep theirs
            std::vector<int> todo = { 0, 1, 2, 3, 4, 5 };
            size_t nextValue = 0;
            while (! todo.empty())
            {
                const size_t k = g.size (0, todo.size() - 1);
                const int what = todo[k];
                todo.erase (todo.begin() + (long) k);
                switch (what)
                {
                    case 0: if (setRate) builder.withSampleRate (h.sampleRate); break;
                    case 1: if (useBlock) builder.withBlockSize (h.block); break;
                    case 2: builder.withDuration (h.duration); break;
                    case 3: if (setChannels) builder.withInputChannels (h.inCh); break;
                    case 4: if (setChannels) builder.withOutputChannels (h.outCh); break;
                    default: builder.withInputSignal (DataSignal<T> (Chans<T> (h.inCh, std::vector<T> (3, (T) 0.5)))); break;
                }
                if (nextValue < values.size() && g.flip()) { builder.withValue (values[nextValue].id, values[nextValue].value); ++nextValue; }
            }
            while (nextValue < values.size()) { builder.withValue (values[nextValue].id, values[nextValue].value); ++nextValue; }
            const size_t checks = g.size (0, 2);
            for (size_t i = 0; i < checks; ++i) { if (g.flip()) builder.expectTrue (hart::PeaksBelow<T> (0)); else builder.expectFalse (hart::PeaksBelow<T> (-60)); }
            hart::ExpectationFailureMessages::clear();
            returned = builder.process();
        }
        catch (const std::exception&) { refused = true; }

        auto has = [&] (Ev e) { return std::any_of (log->begin(), log->end(), [e] (const Event& x) { return x.what == e; }); };

        if (badLayout || badRate)
        {
            PBT_CHECK (refused, "the run was not refused, although the effect does not support its " << (badLayout ? "channel layout" : "sample rate"));
            PBT_CHECK (! has (Ev::process), "audio reached an effect that does not support the configuration");
            PBT_CHECK (! has (Ev::prepare), "an effect was prepared for a configuration that it does not support");
            g.label ("refused");
            g.nontrivial();
            return;
        }

        PBT_CHECK (! refused, "the run was refused, although the effect supports it");
        PBT_CHECK (returned != nullptr, "process() returned no effect");

        size_t resets = 0, prepares = 0, total = 0, valueIndex = 0;
        bool askedLayout = false, askedRate = false, shorterSeen = false;
        const int instance = dynamic_cast<Spy<T>&> (*returned).instance;

        for (const Event& e : *log)
        {
            switch (e.what)
            {
                case Ev::askLayout: askedLayout |= e.a == h.inCh && e.b == h.outCh; break;
                case Ev::askRate: askedRate |= e.x == h.sampleRate; break;
                case Ev::reset:
                    PBT_CHECK (total == 0, "reset between blocks");
                    ++resets;
                    break;
                case Ev::prepare:
                    PBT_CHECK (total == 0, "prepared between blocks");
                    PBT_CHECK (askedLayout, "prepared before being asked about the channel layout");
                    PBT_CHECK (askedRate, "prepared before being asked about the sample rate");
                    PBT_CHECK (e.x == h.sampleRate, "prepared for sample rate " << e.x);
                    PBT_CHECK (e.a == h.inCh && e.b == h.outCh, "prepared for " << e.a << " inputs and " << e.b << " outputs");
                    PBT_CHECK (e.c == h.block, "prepared for blocks of " << e.c);
                    ++prepares;
                    break;
                case Ev::setValue:
                    PBT_CHECK (resets == 1 && prepares == 1, "a value was set before reset and prepare");
                    PBT_CHECK (total == 0, "a value was set after the first block");
                    PBT_CHECK (valueIndex < values.size(), "more values were set than configured");
                    PBT_CHECK (e.id == values[valueIndex].id && e.x == values[valueIndex].value, "value " << valueIndex << " is (" << e.id << ", " << e.x << ") instead of (" << values[valueIndex].id << ", " << values[valueIndex].value << ")");
                    ++valueIndex;
                    break;
                case Ev::process:
                    PBT_CHECK (resets == 1 && prepares == 1, "audio after " << resets << " resets and " << prepares << " prepares");
                    PBT_CHECK (valueIndex == values.size(), "audio before all values were set");
                    PBT_CHECK (e.a == h.inCh && e.c == h.outCh, "block with " << e.a << " inputs and " << e.c << " outputs");
                    PBT_CHECK (e.b == e.d, "input of " << e.b << " frames, output of " << e.d);
                    PBT_CHECK (e.b > 0, "empty block");
                    PBT_CHECK (! shorterSeen, "a block after one that is not of the configured size");
                    PBT_CHECK (e.b <= h.block, "block of " << e.b << " frames, more than the configured " << h.block);
                    PBT_CHECK (e.instance == instance, "the audio went to another instance than the returned one");
                    shorterSeen = e.b != h.block;
                    total += e.b;
                    break;
            }
        }

        PBT_CHECK (total == h.frames, "the blocks cover " << total << " frames instead of " << h.frames);
        PBT_CHECK (resets == 1 && prepares == 1, resets << " resets and " << prepares << " prepares in one run");
        PBT_CHECK (valueIndex == values.size(), "only " << valueIndex << " values were set");
        g.labelIf (shorterSeen, "shorter last block");
        g.labelIf (h.frames > h.block, "several blocks");
        g.labelIf (run == 1, "effect reused in another run");
        g.labelIf (h.inCh != h.outCh, "different channel counts");
        g.labelIf (std::any_of (values.begin(), values.end(), [&] (const Setting& v) { return v.id >= 0 && v.id < 3 && (automated >> v.id & 1); }), "value of an automated parameter");
        if (h.frames > h.block) g.nontrivial();
    }
}

}  // namespace

HV_BOTH_TYPES (property)
PBT_MAIN ("C01", "x", propertyDispatch)
