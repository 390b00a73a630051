// C07: histories of resetting, rendering, copying, moving, extending and destroying signals.
#include "common.hpp"

using namespace hv;

namespace
{

template <typename T> struct Instance
{
    std::unique_ptr<hart::Signal<T>> signal;
    SignalSpec spec;       // with its chain
    bool ready = false;    // prepared since it was made
    size_t position = 0;   // frames rendered since the last reset
    Chans<T> reference;    // what a fresh instance of this recipe renders, from its beginning
    int id = 0;
};

template <typename T> void property (Gen& g)
{
    HostCfg h = genHost (g, 300, true, 1500);
    h.inCh = h.outCh = std::min<size_t> (h.outCh, 4);
    const size_t channels = h.inCh, maxFrames = h.frames;
    const double fs = h.sampleRate;
    std::vector<Instance<T>> all;
    int nextId = 0;
    bool usedAfterOther = false, didCopyMidway = false, didReset = false;

    auto referenceOf = [&] (const SignalSpec& s)
    {
        auto fresh = makeSignal<T> (s);
        return renderSignal<T> (*fresh, fs, channels, maxFrames, maxFrames);
    };
    auto make = [&] (SignalSpec s)
    {
        Instance<T> i;
        i.signal = makeSignal<T> (s);
        i.spec = s;
        i.reference = referenceOf (s);
        i.id = nextId++;
        return i;
    };
    auto prepare = [&] (Instance<T>& i) { i.signal->prepareWithDSPChain (fs, channels, h.block); i.ready = true; };
    auto recursiveJump = [&] (const SignalSpec& s, std::vector<char>& skip)
    {
        size_t to = maxFrames;
        bool recursive = false;
        for (auto& e : s.chain)
        {
            recursive |= e.kind == leaky;
            if (e.hasEnv) for (size_t f = 0; f < maxFrames; ++f) if (envAmbiguous (e.env, f, fs)) skip[f] = 1;
        }
        if (recursive) for (size_t f = 0; f < maxFrames; ++f) if (skip[f]) { to = f; break; }
        return to;
    };
    auto render = [&] (Instance<T>& i, size_t frames)
    {
        if (! i.ready) prepare (i);
        frames = std::min (frames, maxFrames - i.position);
        if (frames == 0) return;
        const auto got = renderSignal<T> (*i.signal, fs, channels, frames, std::min (h.block, frames), false);
        std::vector<char> skip (maxFrames, 0);
        const size_t to = recursiveJump (i.spec, skip);
        double scale = 1;
        for (auto& e : i.spec.chain) scale *= effectGain (e);
        const double tol = tolFor<T>() * scale * 3;
        for (size_t c = 0; c < channels; ++c)
            for (size_t f = 0; f < frames; ++f)
            {
                const size_t at = i.position + f;
                if (at >= to) break;
                if (skip[at]) continue;
                const double x = (double) i.reference[c][at], y = (double) got[c][f];
                PBT_CHECK (std::abs (x - y) <= tol, "instance " << i.id << " (" << i.spec << ") renders " << y << " on channel " << c << " at frame " << at << ", a fresh one " << x);
            }
        i.position += frames;
        if (all.size() > 1) usedAfterOther = true;
    };

    SignalSpec first = genSignal (g, h, channels);
    genChain (g, first, fs, maxFrames, 2);
    g.note ([&] (auto& s) { s << h << "\n  instance 0: " << first; });
    all.push_back (make (first));

    const size_t steps = g.size (1, 12);
    for (size_t step = 0; step < steps; ++step)
    {
        const size_t k = g.size (0, all.size() - 1);
        const int op = (int) g.draw (9);
        switch (op)
        {
            case 0: case 1:
            {
                const size_t n = g.size (1, maxFrames);
                g.note ([&] (auto& s) { s << "  render " << n << " from " << all[k].id; });
                render (all[k], n);
                break;
            }
            case 2:
                g.note ([&] (auto& s) { s << "  reset " << all[k].id; });
                if (g.flip()) { all[k].signal->resetWithDSPChain(); all[k].position = 0; prepare (all[k]); }
                else { prepare (all[k]); all[k].signal->resetWithDSPChain(); all[k].position = 0; }
                didReset = true;
                break;
            case 3:  // copy, possibly midway
            {
                Instance<T> i;
                i.signal = all[k].signal->copy();
                i.spec = all[k].spec; i.reference = all[k].reference; i.position = all[k].position;
                i.id = nextId++;
                g.note ([&] (auto& s) { s << "  copy " << all[k].id << " (at frame " << all[k].position << ") to " << i.id; });
                didCopyMidway |= i.position > 0;
                if (all.size() < 5) all.push_back (std::move (i));
                break;
            }
            case 4:  // move
            {
                g.note ([&] (auto& s) { s << "  move " << all[k].id; });
                auto moved = all[k].signal->move();
                all[k].signal = std::move (moved);  // the moved-from one is destroyed
                all[k].ready = false;
                break;
            }
            case 5:  // extend: the longer chain starts anew
            {
                if (all[k].spec.chain.size() >= 4) break;
                const EffectSpec e = genEffect (g, fs, maxFrames);
                all[k].signal->followedBy (makeEffect<T> (e));
                all[k].spec.chain.push_back (e);
                all[k].reference = referenceOf (all[k].spec);
                all[k].signal->resetWithDSPChain();
                all[k].position = 0;
                all[k].ready = false;
                g.note ([&] (auto& s) { s << "  extend " << all[k].id << " with " << e; });
                break;
            }
            case 6:
                if (all.size() < 2) break;
                g.note ([&] (auto& s) { s << "  destroy " << all[k].id; });
                all.erase (all.begin() + (long) k);
                break;
            case 7:  // assignment (only signals without const members have it)
            {
                if (all[k].spec.kind != dataSignal) break;
                SignalSpec other = genSignal (g, h, channels);
                other.kind = dataSignal;
                other.data = genData<double> (g, channels, maxFrames);
                genChain (g, other, fs, maxFrames, 2);
                Instance<T> i = make (other);
                auto* target = dynamic_cast<DataSignal<T>*> (i.signal.get());
                auto* source = dynamic_cast<DataSignal<T>*> (all[k].signal.get());
                if (! target || ! source) break;
                if (g.flip()) { *target = *source; g.note ([&] (auto& s) { s << "  assign " << all[k].id << " to the new " << i.id; }); }
                else { auto tmp = source->copy(); *target = std::move (dynamic_cast<DataSignal<T>&> (*tmp)); g.note ([&] (auto& s) { s << "  move-assign a copy of " << all[k].id << " to the new " << i.id; }); }
                i.spec = all[k].spec; i.reference = all[k].reference; i.position = all[k].position; i.ready = false;
                if (all.size() < 5) all.push_back (std::move (i));
                g.label ("assigned");
                break;
            }
            case 8:  // lent to a test: copied, the original stays as it is
            {
                g.note ([&] (auto& s) { s << "  use " << all[k].id << " as input of a test"; });
                hart::AudioTestBuilder<T> b = hart::processAudioWith (ThruDsp<T>());
                applyHost (b, h);
                b.withInputSignal (*all[k].signal);
                const auto out = runHost<T> (b);
                Instance<T> viewed;  // compare like a render from the start
                std::vector<char> skip (maxFrames, 0);
                const size_t to = recursiveJump (all[k].spec, skip);
                double scale = 1;
                for (auto& e : all[k].spec.chain) scale *= effectGain (e);
                for (size_t c = 0; c < channels; ++c)
                    for (size_t f = 0; f < to; ++f)
                        PBT_CHECK (skip[f] || std::abs ((double) out[c][f] - (double) all[k].reference[c][f]) <= tolFor<T>() * scale * 3,
                            "instance " << all[k].id << " in a test renders " << (double) out[c][f] << " on channel " << c << " at frame " << f << ", a fresh one " << (double) all[k].reference[c][f]);
                break;
            }
            default:  // rendered at other settings, then reset
            {
                g.note ([&] (auto& s) { s << "  other settings on " << all[k].id; });
                if (all[k].spec.kind == wavFile) break;  // one sample rate only
                all[k].signal->resetWithDSPChain();
                all[k].signal->prepareWithDSPChain (fs * 2, channels, 7);
                renderSignal<T> (*all[k].signal, fs * 2, channels, g.size (1, 40), 7, false);
                all[k].signal->resetWithDSPChain();
                all[k].position = 0;
                prepare (all[k]);
                break;
            }
        }
    }

    for (auto& i : all) render (i, maxFrames);
    for (auto& i : all) { i.signal->resetWithDSPChain(); i.position = 0; prepare (i); render (i, maxFrames); }

    static const char* names[] = { "SineWave", "Silence", "WhiteNoise", "SineSweep", "Data", "WavFile" };
    g.label (names[first.kind]);
    g.labelIf (didCopyMidway, "copied midway");
    g.labelIf (didReset, "reset midway");
    if (usedAfterOther && maxFrames > 2) g.nontrivial();
}

}  // namespace

HV_BOTH_TYPES (property)
PBT_MAIN ("C07", "x", propertyDispatch)
