// C14: SegmentedEnvelope against its closed-form curve.
#include "common.hpp"

using namespace hv;

static void property (Gen& g)
{
    const double fs = genSampleRate (g);
    const bool isLong = g.oneIn (1500);
    const size_t frames = isLong ? genLongFrames (g) : genFrames (g, 400);
    g.labelIf (isLong, "more than 65534 frames");
    const int range = (int) g.draw (3);
    const EnvSpec spec = range == 0 ? genEnv (g, fs, frames, 0, 1, 7) : range == 1 ? genEnv (g, fs, frames, -60, 12, 7) : range == 2 ? genEnv (g, fs, frames, -5, -0.01, 7) : genEnv (g, fs, frames, 20, 20000, 7);
    g.note ([&] (auto& s) { s << "fs=" << fs << " " << spec; });
    double scale = 1e-6, lo = spec.start, hi = spec.start;
    bool ramp = false;
    for (auto& s : spec.segs)
    {
        if (! s.hold) { lo = std::min (lo, s.target); hi = std::max (hi, s.target); ramp |= s.duration * fs > 2; g.label (s.shape == 0 ? "linear" : s.shape == 1 ? "exponential" : "s-curve"); if (s.duration == 0) g.label ("jump"); }
        else g.label ("hold");
    }
    scale = std::max ({ scale, std::abs (lo), std::abs (hi) });
    const double tol = 1e-9 * scale;
    g.labelIf (spec.segs.empty(), "no segments");

    std::unique_ptr<hart::Envelope> env = makeEnv (spec).copy();
    const size_t passes = g.size (1, 3);

    for (size_t pass = 0; pass < passes; ++pass)
    {
        // How this pass starts: fresh / reset / copy of the used one / other rate in between
        const bool useCopy = pass > 0 && g.oneIn (3);
        if (useCopy) { env = env->copy(); g.label ("copied after use"); }
        if (pass > 0 && g.oneIn (3)) { env->prepare (fs * 2, 16); (void) env->renderNextBlock (5); g.label ("other rate in between"); }
        const size_t block = isLong ? genLongBlock (g, frames) : genBlock (g, frames);
        const bool resetFirst = g.flip();
        if (pass > 0 && resetFirst) env->reset();
        env->prepare (fs, block);
        if (pass > 0 ? ! resetFirst : resetFirst) env->reset();

        const size_t count = pass + 1 == passes ? frames : g.size (1, frames);  // earlier passes may be abandoned midway
        const bool varying = ! isLong && g.oneIn (3);
        size_t n = 0;
        while (n < count)
        {
            const size_t size = std::min (varying ? g.size (1, std::min<size_t> (block, 60)) : block, count - n);
            std::vector<double> values;
            if (g.oneIn (5)) { values.assign (g.size (0, 5), 123.0); env->renderNextBlock (size, values); }
            else if (g.flip()) { values.assign (size, 123.0); env->renderNextBlock (size, values); }
            else values = env->renderNextBlock (size);
            PBT_CHECK (values.size() == size, "renderNextBlock (" << size << ") gave " << values.size() << " values");

            for (size_t i = 0; i < size; ++i)
            {
                const Interval want = envRange (spec, n + i, fs, tol);
                PBT_CHECK (values[i] >= want.lo && values[i] <= want.hi, "pass " << pass << ", frame " << n + i << " (block of " << block << "): value " << values[i] << ", the curve is in [" << want.lo << ", " << want.hi << "]");
                PBT_CHECK (values[i] >= lo - tol && values[i] <= hi + tol, "frame " << n + i << ": value " << values[i] << " leaves [" << lo << ", " << hi << "]");
            }
            n += size;
        }
    }

    g.labelIf (passes > 1, "several passes");
    if (ramp && frames > 2) g.nontrivial();
}

PBT_MAIN ("C14", "random segment lists, sample rates, block sizes and histories (reset, copy, other rate, abandoned passes); every frame is compared with the closed-form curve; non-trivial: a ramp longer than two frames", property)
