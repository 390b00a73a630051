// C02: what the effect hears and what the matchers are shown.
#include "common.hpp"

using namespace hv;

namespace
{

template <typename T> struct Heard { Chans<T> audio; };

// Plays prepared data as its output and keeps what it hears
template <typename T> class Player : public hart::DSP<T>
{
    using SampleType = T;
public:
    Player (std::shared_ptr<Chans<T>> o, std::shared_ptr<Heard<T>> h) : output (o), heard (h) {}
    void prepare (double, size_t, size_t, size_t) override {}
    void process (const hart::AudioBuffer<T>& in, hart::AudioBuffer<T>& out, const hart::EnvelopeBuffers&) override
    {
        appendChans (heard->audio, in);
        for (size_t c = 0; c < out.getNumChannels(); ++c)
            for (size_t f = 0; f < out.getNumFrames(); ++f)
                out[c][f] = pos + f < (*output)[c].size() ? (*output)[c][pos + f] : (T) 0;
        pos += out.getNumFrames();
    }
    void reset() override { pos = 0; heard->audio.clear(); }
    void setValue (int, double) override {}
    double getValue (int) const override { return 0; }
    bool supportsChannelLayout (size_t, size_t) const override { return true; }
    void represent (std::ostream& s) const override { s << "Player()"; }
    HART_DSP_DEFINE_COPY_AND_MOVE (Player);
    std::shared_ptr<Chans<T>> output;
    std::shared_ptr<Heard<T>> heard;
    size_t pos = 0;
};

template <typename T> struct MatcherLog
{
    struct Piece { size_t start, frames; };
    Chans<T> seen;
    std::vector<size_t> pieces;
    int prepares = 0, resets = 0;
    double rate = 0;
    size_t channels = 0, maxBlock = 0;
    bool late = false;      // prepared or reset after the first piece
    bool unready = false;   // shown audio before both
};

// Answers false on the piece that contains frame `trip` (if any), true otherwise
template <typename T> class Watcher : public hart::Matcher<T>
{
    using SampleType = T;
public:
    Watcher (std::shared_ptr<MatcherLog<T>> l, bool perBlock, size_t trip) : log (l), perBlock (perBlock), trip (trip) {}
    void prepare (double fs, size_t ch, size_t block) override { ++log->prepares; log->rate = fs; log->channels = ch; log->maxBlock = block; log->late |= ! log->pieces.empty(); }
    bool match (const hart::AudioBuffer<T>& a) override
    {
        log->unready |= log->prepares == 0 || log->resets == 0;
        const size_t before = log->seen.empty() ? 0 : log->seen[0].size();
        appendChans (log->seen, a);
        log->pieces.push_back (a.getNumFrames());
        return ! (trip >= before && trip < before + a.getNumFrames());
    }
    bool canOperatePerBlock() override { return perBlock; }
    void reset() override { ++log->resets; log->late |= ! log->pieces.empty(); }
    hart::MatcherFailureDetails getFailureDetails() const override { return {}; }
    void represent (std::ostream& s) const override { s << "Watcher()"; }
    HART_MATCHER_DEFINE_COPY_AND_MOVE (Watcher);
    std::shared_ptr<MatcherLog<T>> log;
    bool perBlock;
    size_t trip;
};

template <typename T> class Picky : public DataSignal<T>
{
    using SampleType = T;
public:
    Picky (Chans<T> d, std::shared_ptr<SignalLog> l, size_t maxCh, double onlyRate) : DataSignal<T> (std::move (d), l), maxCh (maxCh), onlyRate (onlyRate) {}
    bool supportsNumChannels (size_t n) const override { return n <= maxCh; }
    bool supportsSampleRate (double r) const override { return onlyRate == 0 || r == onlyRate; }
    HART_SIGNAL_DEFINE_COPY_AND_MOVE (Picky);
    size_t maxCh;
    double onlyRate;
};

template <typename T> void property (Gen& g)
{
    const HostCfg h = genHost (g, 2500, false, 600);
    const auto inData = genData<T> (g, h.inCh, h.frames, withNan);
    auto outData = std::make_shared<Chans<T>> (genData<T> (g, h.outCh, h.frames, withNan));
    auto heard = std::make_shared<Heard<T>>();
    auto signalLog = std::make_shared<SignalLog>();

    struct Plan { bool perBlock, positive, assertion; size_t trip; int how; std::shared_ptr<MatcherLog<T>> log; };
    std::vector<Plan> plans (g.logSize (0, 7));
    for (auto& p : plans)
        p = { g.flip(), g.mostly (3), g.oneIn (3), g.flip() ? (size_t) -1 : g.flip() ? g.size (0, h.frames - 1) : std::min (h.frames - 1, h.block * g.size (0, 3)), (int) g.draw (2), std::make_shared<MatcherLog<T>>() };

    const bool badChannels = g.oneIn (12), badRate = g.oneIn (12);
    const size_t maxCh = badChannels ? h.inCh - 1 : h.inCh + g.size (0, 2);
    const double onlyRate = badRate ? h.sampleRate * 2 : g.flip() ? h.sampleRate : 0.0;

    g.note ([&] (auto& s)
    {
        s << h << (badChannels ? " signal does not support the channels" : "") << (badRate ? " signal does not support the rate" : "");
        for (auto& p : plans) s << "\n  check: " << (p.assertion ? "assert" : "expect") << (p.positive ? "True" : "False") << (p.perBlock ? " per block" : " whole") << " mismatch at " << (long long) p.trip;
    });

    Player<T> player (outData, heard);
    hart::AudioTestBuilder<T> b (player);
    applyHost (b, h);
    if (g.oneIn (4)) b.withInputSignal (DataSignal<T> (inData));  // replaced by the next one
    b.withInputSignal (Picky<T> (inData, signalLog, maxCh, onlyRate));

    for (auto& p : plans)
    {
        Watcher<T> w (p.log, p.perBlock, p.trip);
        const int kind = (p.assertion ? 2 : 0) + (p.positive ? 1 : 0);
        switch (p.how)
        {
            case 0: if (kind == 0) b.expectFalse (w); else if (kind == 1) b.expectTrue (w); else if (kind == 2) b.assertFalse (w); else b.assertTrue (w); break;
            case 1: if (kind == 0) b.expectFalse (std::move (w)); else if (kind == 1) b.expectTrue (std::move (w)); else if (kind == 2) b.assertFalse (std::move (w)); else b.assertTrue (std::move (w)); break;
            default: { auto make = [&] { return Watcher<T> (p.log, p.perBlock, p.trip); }; if (kind == 0) b.expectFalse (make()); else if (kind == 1) b.expectTrue (make()); else if (kind == 2) b.assertFalse (make()); else b.assertTrue (make()); break; }
        }
    }

    hart::ExpectationFailureMessages::clear();
    bool refused = false;
    try { b.process(); }
    catch (const hart::TestAssertException&) {}
    catch (const std::exception& e) { refused = true; g.note ([&] (auto& s) { s << "refused: " << e.what(); }); }

    if (badChannels || badRate)
    {
        PBT_CHECK (refused, "a run was not refused, although its signal does not support the " << (badChannels ? "channel count" : "sample rate"));
        PBT_CHECK (signalLog->renders == 0, "a signal rendered with an unsupported configuration");
        PBT_CHECK (signalLog->prepares == 0, "a signal was prepared for an unsupported configuration");
        g.label ("refused");
        g.nontrivial();
        return;
    }

    PBT_CHECK (! refused, "the run was refused");
    const std::string d = firstDifference (heard->audio, inData);
    PBT_CHECK (d.empty(), "the effect heard something else than the signal: " << d);
    PBT_CHECK (signalLog->preparedCh == h.inCh && signalLog->preparedRate == h.sampleRate, "the signal was prepared for " << signalLog->preparedCh << " channels at " << signalLog->preparedRate);
    for (size_t n : signalLog->blocks) PBT_CHECK (n <= signalLog->preparedBlock, "the signal was prepared for blocks of " << signalLog->preparedBlock << ", but asked for " << n);

    for (size_t i = 0; i < plans.size(); ++i)
    {
        const auto& p = plans[i];
        const auto& l = *p.log;
        PBT_CHECK (l.prepares > 0 && l.resets > 0 && ! l.unready, "check " << i << " was shown audio before being prepared and reset");
        PBT_CHECK (! l.late, "check " << i << " was prepared or reset in the middle of a run");
        PBT_CHECK (l.rate == h.sampleRate && l.channels == h.outCh, "check " << i << " was prepared for " << l.channels << " channels at " << l.rate << " Hz");
        for (size_t n : l.pieces) PBT_CHECK (n <= l.maxBlock, "check " << i << " was prepared for at most " << l.maxBlock << " frames, but shown " << n);

        Chans<T> seen = l.seen;
        Chans<T> want = *outData;

        if (p.perBlock && p.positive)
        {
            const size_t n = seen.empty() ? 0 : seen[0].size();
            if (p.trip == (size_t) -1)
                PBT_CHECK (n == h.frames, "check " << i << " saw " << n << " of " << h.frames << " frames");
            else
            {
                PBT_CHECK (n > p.trip, "check " << i << " was not shown frame " << p.trip);
                PBT_CHECK (n - l.pieces.back() <= p.trip, "check " << i << " was shown audio after its mismatch at frame " << p.trip);
            }
            for (auto& c : want) c.resize (n);
            g.labelIf (l.pieces.size() > 1, "matcher saw several pieces");
        }
        else
        {
            PBT_CHECK (l.pieces.size() == 1, "check " << i << " (" << (p.perBlock ? "inverted" : "whole-signal") << ") was shown " << l.pieces.size() << " pieces of audio");
        }

        const std::string diff = firstDifference (seen, want);
        PBT_CHECK (diff.empty(), "check " << i << " was shown something else than the output: " << diff);
        g.labelIf (p.trip != (size_t) -1, "matcher with a mismatch");
    }

    if (h.frames > h.block && plans.size() > 1) g.nontrivial();
}

}  // namespace

HV_BOTH_TYPES (property)
PBT_MAIN ("C02", "x", propertyDispatch)
