// C11: saved wav files, decoded independently.
#include "common.hpp"

using namespace hv;

namespace
{

template <typename T> T genSaved (Gen& g)
{
    switch (g.draw (8))
    {
        case 0: return (T) g.real (-1, 1);
        case 1: return (T) (g.flip() ? 1 : -1);
        case 2: return (T) ((double) g.range (-32768, 32768) / 32768.0);            // 16-bit steps
        case 3: return (T) (((double) g.range (-32768, 32768) + 0.5) / 32767.0);    // between two of them
        case 4: return (T) g.real (0.9999, 1.0001) * (T) (g.flip() ? 1 : -1);
        case 5: return (T) g.real (1, 3) * (T) (g.flip() ? 1 : -1);
        case 6: return (T) (g.flip() ? 1e9 : -3e30);
        case 7: return g.flip() ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity();
        default: return (T) g.logReal (1e-10, 1e-3) * (T) (g.flip() ? 1 : -1);
    }
}

template <typename T> void property (Gen& g)
{
    static int counter = 0;
    const std::string path = g.workDir + "/out" + std::to_string (counter++ % 16) + ".wav";
    const bool isLong = g.oneIn (600);
    const size_t channels = isLong ? g.size (1, 2) : g.mostly (12) ? g.size (1, 5) : g.size (6, 128);
    const size_t frames = isLong ? genLongFrames (g) : channels > 5 ? g.size (1, 40) : g.logSize (1, 600);
    g.labelIf (isLong, "more than 65534 frames");
    double rate = std::floor (genSampleRate (g));
    const auto format = g.pick ({ hart::WavFormat::pcm24, hart::WavFormat::pcm16, hart::WavFormat::pcm32, hart::WavFormat::float32 });
    const int bits = format == hart::WavFormat::pcm16 ? 16 : format == hart::WavFormat::pcm24 ? 24 : 32;
    const bool isFloat = format == hart::WavFormat::float32;

    Chans<T> d (channels, std::vector<T> (frames));
    {
        const auto base = genData<double> (g, channels, frames);
        for (size_t c = 0; c < channels; ++c) for (size_t f = 0; f < frames; ++f) d[c][f] = (T) base[c][f];
    }
    const size_t pokes = g.size (0, 12);
    bool beyond = false;
    for (size_t i = 0; i < pokes; ++i)
    {
        const T v = genSaved<T> (g);
        beyond |= std::abs (v) > 1;
        d[g.size (0, channels - 1)][g.size (0, frames - 1)] = v;
    }

    const bool direct = g.flip();
    const bool stale = g.oneIn (4);
    const int unwritable = g.oneIn (15) ? 1 + (int) g.draw (1) : 0;
    const size_t block = isLong ? genLongBlock (g, frames) : genBlock (g, frames);
    const bool defaultFormat = format == hart::WavFormat::pcm24 && g.flip();
    g.note ([&] (auto& s) { s << (direct ? "WavWriter" : "saveOutputTo") << (defaultFormat ? ", default" : ",") << (isFloat ? " float32, " : " pcm") << (isFloat ? 0 : bits) << ", " << channels << " channels, " << frames << " frames, rate " << rate << ", block " << block << (stale ? ", overwriting" : "") << (unwritable ? ", unwritable" : ""); });

    if (stale) writeFile (path, std::string (frames * channels * 5 + 5000, 'x'));
    std::string target = path;
    if (unwritable == 1) target = g.workDir + "/no/such/dir/out.wav";
    if (unwritable == 2) target = g.workDir;  // a directory

    bool io = false;
    try
    {
        if (direct)
        {
            hart::AudioBuffer<T> b (channels, frames);
            for (size_t c = 0; c < channels; ++c) std::copy (d[c].begin(), d[c].end(), b[c]);
            if (defaultFormat) hart::WavWriter<T>::writeBuffer (b, target, rate);
            else hart::WavWriter<T>::writeBuffer (b, target, rate, format);
            PBT_CHECK (firstDifference (toChans (b), d).empty(), "saving changed the buffer");
        }
        else
        {
            auto b = hart::processAudioWith (ThruDsp<T>());
            b.withSampleRate (rate).withDuration ((double) frames / rate).withBlockSize (block).withInputChannels (channels).withOutputChannels (channels).withInputSignal (DataSignal<T> (d));
            if (defaultFormat) b.saveOutputTo (target);
            else b.saveOutputTo (target, hart::Save::always, format);
            b.process();
        }
    }
    catch (const hart::IOError&) { io = true; }

    if (unwritable)
    {
        PBT_CHECK (io, "a file that cannot be created is not reported as hart::IOError");
        g.label ("unwritable");
        g.nontrivial();
        return;
    }

    PBT_CHECK (! io, "hart::IOError although the file can be created");
    const WavContent w = readWav (path);
    PBT_CHECK (w.ok, "the saved file is not a readable wav file: " << w.why);
    PBT_CHECK (w.frames == frames, "the saved file has " << w.frames << " frames instead of " << frames);
    PBT_CHECK (w.channels == channels, "the saved file has " << w.channels << " channels instead of " << channels);
    PBT_CHECK (w.rate == rate, "the saved file has sample rate " << w.rate << " instead of " << rate);
    PBT_CHECK (w.bits == bits && w.format == (isFloat ? 3 : 1), "the saved file has " << w.bits << " bits, format tag " << w.format);

    const double full = std::ldexp (1.0, bits - 1);
    for (size_t f = 0; f < frames; ++f)
        for (size_t c = 0; c < channels; ++c)
        {
            const double x = (double) d[c][f];
            const std::int64_t word = w.words[f * channels + c];
            if (isFloat)
            {
                const float got = wordFloat ((std::uint64_t) word), want = (float) d[c][f];
                PBT_CHECK (got == want, "channel " << c << " frame " << f << ": saved " << x << ", the file holds " << (double) got);
            }
            else if (std::abs (x) >= 1)
                PBT_CHECK (x > 0 ? word == (std::int64_t) full - 1 : word == -(std::int64_t) full || word == -(std::int64_t) full + 1,
                    "channel " << c << " frame " << f << ": saved " << x << ", the file holds " << word << " (" << bits << " bits)");
            else
                PBT_CHECK (std::abs ((double) word - x * (full - 1)) <= 1.0 + 1e-6 || (std::abs ((double) word - x * full) <= 1.0 + 1e-6),
                    "channel " << c << " frame " << f << ": saved " << x << ", the file holds " << word << " (" << bits << " bits), expected " << x * (full - 1));
        }

    // And through the library's own reader
    {
        hart::WavFile<T> back (path);
        const auto got = renderSignal<T> (back, rate, channels, frames + 2, frames + 2);
        for (size_t c = 0; c < channels; ++c)
            for (size_t f = 0; f < frames + 2; ++f)
            {
                const double x = f < frames ? (double) d[c][f] : 0.0;
                const double want = isFloat ? (double) (float) x : std::max (-1.0, std::min (1.0, x));
                const double tol = f >= frames || isFloat ? 0.0 : 1.6 / full + (bits == 32 ? 1.3e-7 : 0);
                PBT_CHECK ((double) got[c][f] == want || std::abs ((double) got[c][f] - want) <= tol,
                    "channel " << c << " frame " << f << ": saved " << x << ", WavFile plays " << (double) got[c][f]);
            }
    }

    g.label (isFloat ? "float32" : bits == 16 ? "pcm16" : bits == 24 ? "pcm24" : "pcm32");
    g.labelIf (beyond, "beyond full scale");
    g.labelIf (stale, "overwrites a longer file");
    if (frames * channels > 2) g.nontrivial();
}

}  // namespace

HV_BOTH_TYPES (property)
PBT_MAIN ("C11", "x", propertyDispatch)
