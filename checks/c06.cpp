// C06: block size, repetition and duration do not change the rendered audio.
#include "common.hpp"

using namespace hv;

namespace
{

template <typename T> void property (Gen& g)
{
    HostCfg h = genHost (g, 1500, true, 600);
    const bool isLong = h.frames > 60000;
    h.inCh = h.outCh = std::min<size_t> (h.outCh, 6);
    const bool oneToMany = g.oneIn (5);
    if (oneToMany) h.inCh = 1;
    const bool longer = g.flip();
    const size_t totalFrames = longer ? h.frames + genFrames (g, 800) : h.frames;
    HostCfg hLong = h;
    hLong.frames = totalFrames;
    SignalSpec sig = genSignal (g, hLong, h.inCh);
    genChain (g, sig, h.sampleRate, totalFrames, 2);
    EffectSpec effect = genEffect (g, h.sampleRate, totalFrames);
    if (oneToMany && effect.kind == hardClip) effect.kind = gainDb;
    const bool asValue = effect.hasEnv ? false : g.oneIn (4);
    g.note ([&] (auto& s) { s << h << "\n  " << sig << "\n  effect under test: " << effect << (longer ? "\n  longer run: " : "") << (longer ? std::to_string (totalFrames) : ""); });

    auto run = [&] (size_t frames, size_t block)
    {
        hart::AudioTestBuilder<T> b (makeEffect<T> (effect));
        HostCfg c = h;
        c.frames = frames;
        c.block = block;
        c.duration = (double) frames / h.sampleRate;
        applyHost (b, c);
        if (asValue && effect.kind <= leaky)
        {
            const int id = effect.kind == gainDb ? (int) hart::GainDb<T>::gainDb : effect.kind == gainLinear ? (int) hart::GainLinear<T>::gainLinear : effect.kind == hardClip ? (int) hart::HardClip<T>::thresholdDb : (int) LeakyDsp<T>::coefficient;
            b.withValue (id, effect.value * 0.5);
        }
        const auto s = makeSignal<T> (sig);
        b.withInputSignal (*s);
        return runHost<T> (b);
    };

    const auto reference = run (h.frames, h.block);
    PBT_CHECK (reference.size() == h.outCh && reference[0].size() == h.frames, "the output has the wrong size");

    // Frames at which an envelope jumps may go either way; what follows them in a recursive effect is not compared
    std::vector<char> skip (totalFrames, 0);
    size_t compareTo = totalFrames;
    auto mark = [&] (const EffectSpec& e) { if (e.hasEnv) for (size_t f = 0; f < totalFrames; ++f) if (envAmbiguous (e.env, f, h.sampleRate)) skip[f] = 1; };
    bool recursive = effect.kind == leaky;
    for (auto& e : sig.chain) { mark (e); recursive |= e.kind == leaky; }
    mark (effect);
    if (recursive) for (size_t f = 0; f < totalFrames; ++f) if (skip[f]) { compareTo = f; break; }

    double scale = effectGain (effect);
    for (auto& e : sig.chain) scale *= effectGain (e);
    const double tol = tolFor<T>() * std::max (1.0, scale) * 3;

    auto compare = [&] (const Chans<T>& a, const Chans<T>& b, size_t frames, const char* what)
    {
        PBT_CHECK (a.size() == b.size(), what << ": channel counts differ");
        for (size_t c = 0; c < a.size(); ++c)
            for (size_t f = 0; f < std::min (frames, compareTo); ++f)
            {
                if (skip[f]) continue;
                const double x = (double) a[c][f], y = (double) b[c][f];
                PBT_CHECK (sameValue (x, y) || std::abs (x - y) <= tol, what << ": channel " << c << " frame " << f << " is " << y << " instead of " << x);
            }
    };

    const size_t variants = g.size (1, 3);
    for (size_t i = 0; i < variants; ++i)
    {
        const size_t block = isLong ? genLongBlock (g, h.frames) : genBlock (g, h.frames);
        const auto other = run (h.frames, block);
        PBT_CHECK (other[0].size() == h.frames, "the output has the wrong length");
        compare (reference, other, h.frames, "another block size changed the audio");
        if (block != h.block && std::min (block, h.block) < h.frames) g.label ("really different blocks");
    }

    const auto again = run (h.frames, h.block);
    PBT_CHECK (firstDifference (reference, again).empty(), "running the same again gave other audio: " << firstDifference (reference, again));

    if (longer)
    {
        const auto l = run (totalFrames, isLong || g.flip() ? h.block : genBlock (g, totalFrames));
        PBT_CHECK (l[0].size() == totalFrames, "the longer output has the wrong length");
        compare (reference, l, h.frames, "a longer run changed the audio before");
        g.label ("longer run");
    }

    bool sound = false;
    for (T v : reference[0]) sound |= v != 0;
    static const char* names[] = { "SineWave", "Silence", "WhiteNoise", "SineSweep", "Data", "WavFile" };
    g.label (names[sig.kind]);
    g.labelIf (effect.hasEnv, "envelope on the effect under test");
    for (auto& e : sig.chain) g.labelIf (e.hasEnv, "envelope in the signal chain");
    if (sound && h.frames > 2) g.nontrivial();
}

}  // namespace

HV_BOTH_TYPES (property)
PBT_MAIN ("C06", "x", propertyDispatch)
