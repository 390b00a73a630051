// C23: histories of constructing, setting, automating, copying, moving, assigning and running effects against a model.
#include "common.hpp"

#include <type_traits>

using namespace hv;

namespace
{

// out = in + offset + 0.001 * (number of prepare() calls of this object and the ones it came from): state which outlives reset()
template <typename T> class Tally : public hart::DSP<T>
{
    using SampleType = T;
public:
    enum Params { offset = 3 };
    explicit Tally (double o = 0) : value (o) {}
    void prepare (double, size_t, size_t, size_t) override { ++prepares; }
    void process (const hart::AudioBuffer<T>& in, hart::AudioBuffer<T>& out, const hart::EnvelopeBuffers& env) override
    {
        const auto e = env.find (offset);
        for (size_t c = 0; c < out.getNumChannels(); ++c)
            for (size_t f = 0; f < out.getNumFrames(); ++f)
                out[c][f] = (T) ((double) in[c][f] + (e != env.end() ? e->second[f] : value) + 0.001 * prepares);
    }
    void reset() override {}
    void setValue (int id, double v) override { if (id == offset) value = v; }
    double getValue (int id) const override { return id == offset ? value : 0; }
    bool supportsChannelLayout (size_t i, size_t o) const override { return i == o; }
    bool supportsEnvelopeFor (int id) const override { return id == offset; }
    void represent (std::ostream& s) const override { s << "Tally()"; }
    HART_DSP_DEFINE_COPY_AND_MOVE (Tally);
    double value;
    int prepares = 0;
};

// Two automatable parameters: out = in * gain + offset
template <typename T> class TwoParams : public hart::DSP<T>
{
    using SampleType = T;
public:
    explicit TwoParams (double g = 1) { values[0] = g; }
    void prepare (double, size_t, size_t, size_t) override {}
    void process (const hart::AudioBuffer<T>& in, hart::AudioBuffer<T>& out, const hart::EnvelopeBuffers& env) override
    {
        for (size_t c = 0; c < out.getNumChannels(); ++c)
            for (size_t f = 0; f < out.getNumFrames(); ++f)
            {
                double p[2];
                for (int id = 0; id < 2; ++id) { const auto e = env.find (id); p[id] = e != env.end() ? e->second[f] : values[id]; }
                out[c][f] = (T) ((double) in[c][f] * p[0] + p[1]);
            }
    }
    void reset() override {}
    void setValue (int id, double v) override { if (id == 0 || id == 1) values[id] = v; }
    double getValue (int id) const override { return id == 0 || id == 1 ? values[id] : 0; }
    bool supportsChannelLayout (size_t i, size_t o) const override { return i == o; }
    bool supportsEnvelopeFor (int id) const override { return id == 0 || id == 1; }
    void represent (std::ostream& s) const override { s << "TwoParams()"; }
    HART_DSP_DEFINE_COPY_AND_MOVE (TwoParams);
    double values[2] = { 1, 0 };
};

// Can only be given by smart pointer
template <typename T> class Unique : public Tally<T>
{
    using SampleType = T;
public:
    explicit Unique (double o = 0) : Tally<T> (o) {}
    Unique (const Unique&) = delete;
    Unique (Unique&&) = delete;
    std::unique_ptr<DSP<SampleType>> copy() const override { throw pbt::Failure { "an effect given by smart pointer was copied" }; }
    std::unique_ptr<DSP<SampleType>> move() override { throw pbt::Failure { "an effect given by smart pointer was moved into another object" }; }
};

enum Kinds { kGainDb, kGainLinear, kHardClip, kLeaky, kTally, kTwo, kUnique };
const char* const kindNames[] = { "GainDb", "GainLinear", "HardClip", "Leaky", "Tally", "TwoParams", "Unique" };

struct Model
{
    int kind = 0;
    double value[2] = { 0, 0 };
    bool hasEnv[2] = { false, false };
    EnvSpec env[2];
    int prepares = 0;
};

int paramId (int kind, int index) { return kind == kGainDb ? (int) hart::GainDb<float>::gainDb : kind == kGainLinear ? (int) hart::GainLinear<float>::gainLinear : kind == kHardClip ? (int) hart::HardClip<float>::thresholdDb : kind == kLeaky ? (int) LeakyDsp<float>::coefficient : kind == kTwo ? index : 3; }
int numParams (int kind) { return kind == kTwo ? 2 : 1; }

// The expected output; frames where an envelope jumps are left out
Chans<double> reference (const Model& m, const Chans<double>& in, double fs, std::vector<char>& ambiguous)
{
    if (m.kind <= kLeaky)
    {
        EffectSpec e;
        e.kind = m.kind;
        e.value = m.value[0];
        e.hasEnv = m.hasEnv[0];
        e.env = m.env[0];
        auto out = refEffect (e, in, in.size(), fs, &ambiguous);
        return out;
    }
    Chans<double> out = in;
    for (size_t f = 0; f < in[0].size(); ++f)
    {
        double p[2];
        for (int i = 0; i < 2; ++i)
        {
            p[i] = m.hasEnv[i] ? envAt (m.env[i], ((double) f + 1) / fs) : m.value[i];
            if (m.hasEnv[i] && envAmbiguous (m.env[i], f, fs)) ambiguous[f] = 1;
        }
        for (size_t c = 0; c < in.size(); ++c)
            out[c][f] = m.kind == kTwo ? in[c][f] * p[0] + p[1] : in[c][f] + p[0] + 0.001 * m.prepares;
    }
    return out;
}

// An effect of a known class: everything a user can do with a variable of that class
template <typename T> struct Slot
{
    Model m;
    virtual ~Slot() = default;
    virtual hart::DSP<T>& dsp() = 0;
    virtual std::unique_ptr<Slot> copied() = 0;
    virtual std::unique_ptr<Slot> moved() = 0;
    virtual void assign (Slot& other) = 0;
    virtual void moveAssign (Slot& other) = 0;
    virtual hart::AudioTestBuilder<T> test (int how) = 0;  // 0 reference, 1 const reference, 2 move, 3 smart pointer, 4 smart pointer to the base class
    virtual bool take (std::unique_ptr<hart::DSP<T>>& returned, bool sameObject) = 0;
};

template <typename T, typename D> struct SlotOf : Slot<T>
{
    std::unique_ptr<D> d;
    D* given = nullptr;
    hart::DSP<T>& dsp() override { return *d; }

    template <typename X = D> typename std::enable_if<std::is_copy_constructible<X>::value, std::unique_ptr<Slot<T>>>::type doCopy()
    {
        std::unique_ptr<SlotOf> n (new SlotOf); n->m = this->m; n->d.reset (new D (*d)); return n;
    }
    template <typename X = D> typename std::enable_if<! std::is_copy_constructible<X>::value, std::unique_ptr<Slot<T>>>::type doCopy() { return nullptr; }
    template <typename X = D> typename std::enable_if<std::is_copy_constructible<X>::value, std::unique_ptr<Slot<T>>>::type doMove()
    {
        std::unique_ptr<SlotOf> n (new SlotOf); n->m = this->m; n->d.reset (new D (std::move (*d))); d.reset(); return n;
    }
    template <typename X = D> typename std::enable_if<! std::is_copy_constructible<X>::value, std::unique_ptr<Slot<T>>>::type doMove() { return nullptr; }
    template <typename X = D> typename std::enable_if<std::is_copy_assignable<X>::value>::type doAssign (SlotOf& o) { *d = *o.d; this->m = o.m; }
    template <typename X = D> typename std::enable_if<! std::is_copy_assignable<X>::value>::type doAssign (SlotOf&) {}
    template <typename X = D> typename std::enable_if<std::is_copy_assignable<X>::value>::type doMoveAssign (SlotOf& o) { *d = std::move (*o.d); this->m = o.m; }
    template <typename X = D> typename std::enable_if<! std::is_copy_assignable<X>::value>::type doMoveAssign (SlotOf&) {}
    template <typename X = D> typename std::enable_if<std::is_copy_constructible<X>::value, hart::AudioTestBuilder<T>>::type doTest (int how)
    {
        if (how == 0) return hart::processAudioWith (*d);
        if (how == 1) { const D& c = *d; return hart::processAudioWith (c); }
        return hart::processAudioWith (std::move (*d));
    }
    template <typename X = D> typename std::enable_if<! std::is_copy_constructible<X>::value, hart::AudioTestBuilder<T>>::type doTest (int) { return hart::processAudioWith (std::move (d)); }

    std::unique_ptr<Slot<T>> copied() override { return doCopy(); }
    std::unique_ptr<Slot<T>> moved() override { return doMove(); }
    void assign (Slot<T>& o) override { doAssign (static_cast<SlotOf&> (o)); }
    void moveAssign (Slot<T>& o) override { doMoveAssign (static_cast<SlotOf&> (o)); }
    hart::AudioTestBuilder<T> test (int how) override
    {
        given = d.get();
        if (how == 3) return hart::processAudioWith (std::move (d));
        if (how == 4) { std::unique_ptr<hart::DSP<T>> p (d.release()); return hart::processAudioWith (std::move (p)); }
        return doTest (how);
    }
    bool take (std::unique_ptr<hart::DSP<T>>& returned, bool sameObject) override
    {
        D* p = dynamic_cast<D*> (returned.get());
        if (! p || (sameObject && p != given)) return false;
        returned.release();
        d.reset (p);
        return true;
    }
};

template <typename T> std::unique_ptr<Slot<T>> makeSlot (int kind, double v)
{
    std::unique_ptr<Slot<T>> s;
    auto with = [&] (auto* d) { using D = typename std::remove_pointer<decltype (d)>::type; std::unique_ptr<SlotOf<T, D>> n (new SlotOf<T, D>); n->d.reset (d); s = std::move (n); };
    switch (kind)
    {
        case kGainDb: with (new hart::GainDb<T> (v)); break;
        case kGainLinear: with (new hart::GainLinear<T> (v)); break;
        case kHardClip: with (new hart::HardClip<T> (v)); break;
        case kLeaky: with (new LeakyDsp<T> (v)); break;
        case kTally: with (new Tally<T> (v)); break;
        case kTwo: with (new TwoParams<T> (v)); break;
        default: with (new Unique<T> (v)); break;
    }
    s->m.kind = kind;
    s->m.value[0] = v;
    return s;
}

double genValue (Gen& g, int kind)
{
    switch (kind) { case kGainDb: return g.real (-30, 6); case kGainLinear: case kTwo: return g.real (-2, 2); case kHardClip: return g.real (-20, 0); case kLeaky: return g.real (-0.9, 0.9); default: return g.real (-1, 1); }
}

template <typename T> void property (Gen& g)
{
    const double fs = g.pick ({ 44100.0, 1000.0, 8000.0, 48000.5 });
    const size_t frames = g.logSize (1, 60);
    std::vector<std::unique_ptr<Slot<T>>> slots;
    int copies = 0, assignments = 0, runs = 0, returnedAgain = 0, envelopes = 0;

    auto name = [&] (size_t i) { return std::string (kindNames[slots[i]->m.kind]) + " #" + std::to_string (i); };

    auto compare = [&] (const Chans<T>& got, const Model& m, const Chans<double>& in, const std::string& what)
    {
        std::vector<char> ambiguous (in[0].size());
        const auto want = reference (m, in, fs, ambiguous);
        const double tol = tolFor<T>() * 12;
        PBT_CHECK (got.size() == want.size() && got[0].size() == want[0].size(), what << ": wrong size");
        for (size_t c = 0; c < want.size(); ++c)
            for (size_t f = 0; f < want[c].size(); ++f)
            {
                if (ambiguous[f]) { if (m.kind == kLeaky) break; continue; }
                PBT_CHECK (std::abs ((double) got[c][f] - want[c][f]) <= tol, what << ": frame " << f << " on channel " << c << " is " << (double) got[c][f] << ", an effect in the same state gives " << want[c][f]);
            }
    };

    auto observe = [&] (size_t i, const char* when)
    {
        auto& s = *slots[i];
        for (int p = 0; p < numParams (s.m.kind); ++p)
        {
            const int id = paramId (s.m.kind, p);
            PBT_CHECK (std::abs (s.dsp().getValue (id) - s.m.value[p]) < 1e-5, name (i) << " " << when << ": parameter " << id << " is " << s.dsp().getValue (id) << ", not " << s.m.value[p]);
            PBT_CHECK (s.dsp().hasEnvelopeFor (id) == s.m.hasEnv[p], name (i) << " " << when << (s.m.hasEnv[p] ? ": lost its envelope" : ": has an envelope it was not given") << " for parameter " << id);
        }
    };

    auto run = [&] (size_t i, int how, bool withValue)
    {
        auto& s = *slots[i];
        const bool lent = how <= 1;
        if (s.m.kind == kUnique) how = 3 + (how & 1);
        const size_t channels = g.size (1, 2);
        const auto data = genData<double> (g, channels, frames);
        Chans<T> dataT;
        for (auto& c : data) dataT.emplace_back (c.begin(), c.end());
        Chans<double> in;
        for (auto& c : dataT) in.emplace_back (c.begin(), c.end());
        const size_t block = genBlock (g, frames);

        Model ran = s.m;
        auto b = s.test (how);
        b.withSampleRate (fs).withDuration ((double) frames / fs).withBlockSize (block).withInputChannels (channels).withOutputChannels (channels).withInputSignal (DataSignal<T> (dataT));
        if (withValue)
        {
            const int p = (int) g.size (0, (size_t) numParams (s.m.kind) - 1);
            const double v = genValue (g, s.m.kind);
            b.withValue (paramId (s.m.kind, p), v);
            ran.value[p] = v;
        }
        ++ran.prepares;
        g.note ([&] (auto& o) { const char* n[] = { "by reference", "by const reference", "by move", "by smart pointer", "by base smart pointer" }; o << "run " << name (i) << " " << n[how] << ", block " << block << (withValue ? ", withValue" : ""); });

        auto cap = std::make_shared<Captured<T>>();
        b.assertTrue (Capture<T> (cap));
        auto returned = b.process();
        ++runs;
        compare (cap->audio, ran, in, name (i) + " in a run");
        PBT_CHECK (returned != nullptr, "nothing was returned");

        if (lent && s.m.kind != kUnique)
        {
            PBT_CHECK (returned.get() != &s.dsp(), "the lent effect itself was returned");
            observe (i, "after it was lent");
            if (slots.size() < 5)  // the copy that ran comes back with its state
            {
                auto n = s.copied();
                PBT_CHECK (n->take (returned, false), "an effect of another class was returned");
                n->m = ran;
                slots.push_back (std::move (n));
                observe (slots.size() - 1, "after it ran");
            }
            return;
        }

        PBT_CHECK (s.take (returned, how >= 3), "another effect than the one given was returned");
        s.m = ran;
        observe (i, "after it ran");
        ++returnedAgain;
    };

    slots.push_back (makeSlot<T> (kGainDb, -6));
    {
        const int kind = (int) g.draw (6);
        const double v = genValue (g, kind);
        slots[0] = makeSlot<T> (kind, v);
        g.note ([&] (auto& s) { s << "fs " << fs << ", " << frames << " frames; " << name (0) << " (" << v << ")"; });
    }

    const size_t steps = g.size (1, 14);
    for (size_t step = 0; step < steps; ++step)
    {
        const size_t i = g.size (0, slots.size() - 1);
        auto& s = *slots[i];
        switch (g.draw (9))
        {
            case 0:
                run (i, (int) g.draw (4), g.oneIn (3));
                break;
            case 1: case 2:  // an envelope
            {
                const int p = (int) g.size (0, (size_t) numParams (s.m.kind) - 1), id = paramId (s.m.kind, p);
                if (s.m.kind == kHardClip)
                {
                    bool refused = false;
                    try { s.dsp().withEnvelope (id, hart::SegmentedEnvelope (0.0)); } catch (const hart::UnsupportedError&) { refused = true; }
                    PBT_CHECK (refused, "an envelope for a parameter without support was accepted");
                    break;
                }
                const EnvSpec e = s.m.kind == kGainDb ? genEnv (g, fs, frames, -40, 6, 3) : s.m.kind == kLeaky ? genEnv (g, fs, frames, 0.1, 0.9, 3) : genEnv (g, fs, frames, -1, 2, 3);
                auto env = makeEnv (e);
                g.note ([&] (auto& o) { o << name (i) << ".withEnvelope(" << id << ", " << e << ")"; });
                if (g.flip()) { s.dsp().withEnvelope (id, (const hart::Envelope&) env); env.rampTo (0.77, 0.001); env.reset(); }  // it was copied
                else s.dsp().withEnvelope (id, std::move (env));
                s.m.hasEnv[p] = true;
                s.m.env[p] = e;
                ++envelopes;
                break;
            }
            case 3:
            {
                const int p = (int) g.size (0, (size_t) numParams (s.m.kind) - 1);
                const double v = genValue (g, s.m.kind);
                g.note ([&] (auto& o) { o << name (i) << ".setValue(" << paramId (s.m.kind, p) << ", " << v << ")"; });
                s.dsp().setValue (paramId (s.m.kind, p), v);
                s.m.value[p] = v;
                break;
            }
            case 4:  // copies
            {
                if (slots.size() >= 5 || s.m.kind == kUnique) break;
                const bool virtually = g.flip();
                g.note ([&] (auto& o) { o << "#" << slots.size() << " = copy of " << name (i) << (virtually ? " by copy()" : ""); });
                auto n = s.copied();
                if (virtually) { auto c = s.dsp().copy(); PBT_CHECK (n->take (c, false), "copy() gave another class"); }
                slots.push_back (std::move (n));
                observe (slots.size() - 1, "after being copied");
                ++copies;
                break;
            }
            case 5:  // moves
            {
                if (s.m.kind == kUnique) break;
                const bool virtually = g.flip();
                g.note ([&] (auto& o) { o << "move " << name (i) << (virtually ? " by move()" : ""); });
                if (virtually) { auto c = s.dsp().move(); PBT_CHECK (s.take (c, false), "move() gave another class"); }
                else slots[i] = s.moved();
                observe (i, "after being moved");
                ++copies;
                break;
            }
            case 6: case 7:  // assignments between effects of one class
            {
                std::vector<size_t> same;
                for (size_t k = 0; k < slots.size(); ++k) if (slots[k]->m.kind == s.m.kind) same.push_back (k);
                if (s.m.kind == kUnique) break;
                size_t from = g.pick (same);
                if (from == i && g.mostly (4) && slots.size() < 5)  // something different to assign
                {
                    from = slots.size();
                    const double v = genValue (g, s.m.kind);
                    const int kind = s.m.kind;
                    slots.push_back (makeSlot<T> (kind, v));
                    g.note ([&] (auto& o) { o << name (from) << " (" << v << ")"; });
                }
                const bool moving = g.flip() && from != i;
                g.note ([&] (auto& o) { o << name (i) << " = " << (moving ? "std::move " : "") << name (from); });
                auto& target = *slots[i];
                if (moving) { target.moveAssign (*slots[from]); observe (i, "after the move assignment"); slots.erase (slots.begin() + (long) from); }
                else { target.assign (*slots[from]); observe (i, "after the assignment"); observe (from, "after it was assigned from"); }
                ++assignments;
                break;
            }
            case 8:  // a copy made and used in the middle of processing
            {
                if (s.m.kind == kUnique || frames < 2) break;
                const size_t first = g.size (1, frames - 1), block = frames;
                Chans<double> in { std::vector<double> (frames) };
                for (size_t f = 0; f < frames; ++f) in[0][f] = (double) (T) (0.9 * std::sin (0.7 * (double) f + 1));
                auto process = [&] (hart::DSP<T>& d, size_t from, size_t n, Chans<T>& out)
                {
                    hart::AudioBuffer<T> a (1, n), b (1, n);
                    for (size_t f = 0; f < n; ++f) a[0][f] = (T) in[0][from + f];
                    d.processWithEnvelopes (a, b);
                    appendChans (out, b);
                };
                auto start = [&] (Slot<T>& x) { x.dsp().resetWithEnvelopes(); x.dsp().prepareWithEnvelopes (fs, 1, 1, block); ++x.m.prepares; };
                g.note ([&] (auto& o) { o << name (i) << " processes " << first << " frames, is copied, the copy processes, then the rest"; });
                Chans<T> mine, others;
                start (s);
                process (s.dsp(), 0, first, mine);
                auto other = s.copied();
                start (*other);
                if (g.flip() && other->m.kind != kHardClip) { const double v = genValue (g, s.m.kind); other->dsp().setValue (paramId (s.m.kind, 0), v); other->m.value[0] = v; }
                process (other->dsp(), 0, frames, others);
                process (s.dsp(), first, frames - first, mine);
                compare (others, other->m, in, "the copy of " + name (i));
                compare (mine, s.m, in, name (i) + " around the use of its copy");
                ++copies;
                break;
            }
            default:
            {
                if (slots.size() >= 5) break;
                const int kind = (int) g.draw (6);
                const double v = genValue (g, kind);
                slots.push_back (makeSlot<T> (kind, v));
                g.note ([&] (auto& o) { o << name (slots.size() - 1) << " (" << v << ")"; });
                break;
            }
        }
    }

    // Whatever happened, every effect behaves as its own history says
    for (size_t i = 0, n = slots.size(); i < n; ++i) observe (i, "at the end");
    for (size_t i = 0, n = slots.size(); i < n; ++i) run (i, slots[i]->m.kind == kUnique ? 3 : 2 + (int) g.draw (2), false);
    for (size_t i = 0, n = slots.size(); i < n; ++i) observe (i, "after the runs");

    g.labelIf (assignments > 0, "assignments");
    g.labelIf (copies > 0, "copies and moves");
    g.labelIf (envelopes > 0, "envelopes");
    g.labelIf (returnedAgain > 1, "returned effects run again");
    if ((assignments || copies || runs > 1) && (envelopes || returnedAgain > 1)) g.nontrivial();
}

}  // namespace

HV_BOTH_TYPES (property)
PBT_MAIN ("C23", "x", propertyDispatch)
