// C13: GainDb, GainLinear, HardClip against their definitions, under random sequences of calls.
#include "common.hpp"

using namespace hv;

template <typename T> static void property (Gen& g)
{
    const int kind = (int) g.draw (2);
    auto genValue = [&] () -> double
    {
        if (kind == gainLinear)
            switch (g.draw (5)) { case 0: return 1; case 1: return 0; case 2: return -1; case 3: return g.real (-4, 4); case 4: return g.logReal (1e-7, 1e4); default: return (double) g.range (-3, 3); }
        switch (g.draw (8))
        {
            case 0: return 0; case 1: return (double) g.range (-24, 24); case 2: return g.real (-100, 40); case 3: return g.real (-119.9, -90); case 4: return g.real (-500, -120.001);
            case 5: return -hart::inf; case 6: return kind == hardClip ? hart::inf : 6; case 7: return g.real (-3, 3); default: return -6;
        }
    };
    const char* names[] = { "GainDb", "GainLinear", "HardClip" };
    double value = genValue();
    std::unique_ptr<hart::DSP<T>> dsp;
    int id = 0;
    const bool defaulted = g.oneIn (8);
    switch (kind)
    {
        case gainDb: dsp.reset (defaulted ? new hart::GainDb<T>() : new hart::GainDb<T> (value)); id = hart::GainDb<T>::gainDb; if (defaulted) value = 0; break;
        case gainLinear: dsp.reset (defaulted ? new hart::GainLinear<T>() : new hart::GainLinear<T> (value)); id = hart::GainLinear<T>::gainLinear; if (defaulted) value = 1; break;
        default: dsp.reset (defaulted ? new hart::HardClip<T>() : new hart::HardClip<T> (value)); id = hart::HardClip<T>::thresholdDb; if (defaulted) value = 0; break;
    }
    g.label (names[kind]);
    g.note ([&] (auto& s) { s << names[kind] << "(" << value << ")"; });
    const size_t ops = g.logSize (1, 12);
    bool processed = false;
    const double relTol = sizeof (T) == 4 ? 3e-6 : 1e-12;

    for (size_t op = 0; op < ops; ++op)
    {
        switch (g.draw (6))
        {
            case 1:
                value = genValue();
                dsp->setValue (id, value);
                g.note ([&] (auto& s) { s << "setValue(" << value << ")"; });
                g.label ("value set later");
                continue;
            case 2:
            {
                const int otherId = g.pick ({ 1, -1, 2, 100, 1 << 30 }) ;
                if (otherId == id) continue;
                dsp->setValue (otherId, g.real (-50, 50));
                g.label ("other parameter ID set");
                continue;
            }
            case 3: dsp->reset(); continue;
            default: break;
        }

        // reading
        const double read = dsp->getValue (id);
        if (kind == gainLinear) PBT_CHECK (std::abs (read - value) <= 1e-12 * std::abs (value), "getValue gives " << read << " after " << value << " was set");
        else if (std::isinf (value) && value > 0) PBT_CHECK (read > 1000, "getValue gives " << read << " for an infinite threshold");
        else PBT_CHECK (std::abs (read - std::max (-120.0, value)) <= 1e-6, "getValue gives " << read << " after " << value << " was set");

        // processing
        const bool vast = g.oneIn (40);
        const size_t inCh = vast ? genChannels (g) : g.size (1, 5), frames = vast ? g.logSize (0, 1500) : g.logSize (0, 40);
        const size_t outCh = g.flip() ? inCh : vast ? genChannels (g) : g.size (1, 5);
        const bool supported = inCh == outCh || (inCh == 1 && kind != hardClip);
        PBT_CHECK (dsp->supportsChannelLayout (inCh, outCh) == supported, names[kind] << " says it " << (supported ? "does not support" : "supports") << " " << inCh << " to " << outCh << " channels");
        const Chans<T> data = genData<T> (g, inCh, frames, withLoud);
        const bool inPlace = inCh == outCh && g.flip();
        if (supported && g.mostly (3)) dsp->prepare (genSampleRate (g), inCh, outCh, std::max<size_t> (1, frames));
        hart::AudioBuffer<T> in (inCh, frames), out (outCh, frames);
        for (size_t c = 0; c < inCh; ++c) std::copy (data[c].begin(), data[c].end(), in[c]);
        for (size_t c = 0; c < outCh; ++c) std::fill (out[c], out[c] + frames, (T) 55);
        g.note ([&] (auto& s) { s << "process " << inCh << " to " << outCh << " channels, " << frames << " frames" << (inPlace ? ", in place" : ""); });
        bool threw = false;
        try { dsp->process (in, inPlace ? in : out, hart::EnvelopeBuffers()); } catch (const std::exception&) { threw = true; }
        PBT_CHECK (threw == ! supported, names[kind] << (threw ? " refused " : " accepted ") << inCh << " to " << outCh << " channels");
        if (! supported) { g.label ("refused layout"); continue; }
        hart::AudioBuffer<T>& result = inPlace ? in : out;
        PBT_CHECK (result.getNumFrames() == frames && result.getNumChannels() == outCh, "the output buffer changed its size");
        g.labelIf (inPlace, "in place");
        g.labelIf (inCh != outCh, "1-to-n");
        processed |= frames > 0;

        for (size_t c = 0; c < outCh; ++c)
            for (size_t f = 0; f < frames; ++f)
            {
                const double x = (double) data[inCh == outCh ? c : 0][f], y = (double) result[c][f];
                if (! inPlace && inCh == outCh) PBT_CHECK (sameValue (in[c][f], data[c][f]), "the input buffer was modified");

                if (kind != hardClip)
                {
                    const double gain = kind == gainLinear ? value : refDb (value);
                    const double want = x * gain;
                    if (std::abs (want) > (sizeof (T) == 4 ? 1e38 : 1e300)) continue;
                    PBT_CHECK (std::abs (y - want) <= std::abs (want) * relTol + (sizeof (T) == 4 ? 1e-37 : 1e-300), names[kind] << "(" << value << ") turned " << x << " into " << y << ", expected " << want << " (channel " << c << ", frame " << f << ")");
                }
                else
                {
                    const double t = std::isinf (value) && value > 0 ? hart::inf : refDb (value);
                    if (std::abs (x) <= t * (1 - 1e-6) || (t == 0 && x == 0)) PBT_CHECK (y == x, "HardClip(" << value << ") changed " << x << " to " << y << " although it is within the threshold");
                    else PBT_CHECK (std::abs (y - (x < 0 ? -t : t)) <= t * (relTol + 1e-6 * 0) + (std::abs (x) <= t * (1 + 1e-6) ? t * 2e-6 : 0), "HardClip(" << value << ") turned " << x << " into " << y << ", threshold " << t);
                }
            }
    }

    if (processed) g.nontrivial();
}

HV_BOTH_TYPES (property)
PBT_MAIN ("C13", "random effect, values, layouts, data and call sequences (construct, set, set other IDs, reset, prepare, process in place or not); non-trivial: at least one non-empty block processed", propertyDispatch)
