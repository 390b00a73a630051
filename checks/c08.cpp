// C08: SineWave, Silence, WhiteNoise against their definitions.
#include "common.hpp"

using namespace hv;

template <typename T> static void sine (Gen& g)
{
    const double fs = genSampleRate (g);
    const bool allDefault = g.oneIn (25);
    const double f = allDefault ? 1000 : genFrequency (g, fs);
    const double phase = g.oneIn (12) ? (g.flip() ? 1 : -1) * g.logReal (200, g.flip() ? 1e9 : 1e18) : genPhase (g);
    const bool isLong = g.oneIn (300);
    const size_t frames = isLong ? g.size (30000, 400000) : g.oneIn (40) ? 20000 : genFrames (g, 1500), channels = isLong ? g.size (1, 2) : genChannels (g), block = genBlock (g, frames);
    const bool defaultPhase = allDefault || g.oneIn (6);
    g.note ([&] (auto& s) { s << "SineWave(" << f << ", " << (defaultPhase ? 0.0 : phase) << ") fs=" << fs << " channels=" << channels << " frames=" << frames << " block=" << block; });
    auto s = allDefault ? hart::SineWave<T>() : defaultPhase ? hart::SineWave<T> (f) : hart::SineWave<T> (f, phase);
    if (g.flip()) { s.prepare (fs, channels, block); s.reset(); } else { s.reset(); s.prepare (fs, channels, block); }
    const auto got = renderSignal (s, fs, channels, frames, block, false);
    // 2 pi is not a double: at a phase this large, its rounding alone turns the sine by phase * 4e-17
    const double phaseTol = defaultPhase || std::abs (phase) <= 200 ? 0 : std::abs (phase) * 4e-16;
    const auto diff = firstFar (got, refSine (f, defaultPhase ? 0 : phase, fs, channels, frames), std::min (2.0, phaseTol + tolFor<T>() + 1e-13 * (double) frames * std::max (1.0, f / fs)));
    PBT_CHECK (diff.empty(), "SineWave: " << diff);
    g.labelIf (isLong, "long sine");
    g.labelIf (phaseTol > 0, "large phase");
    g.labelIf (phase < 0 && ! defaultPhase, "negative phase");
    g.labelIf (f > fs / 2, "above Nyquist");
    g.label ("sine");
    if (frames > 1) g.nontrivial();
}

template <typename T> static void illegalSine (Gen& g)
{
    const double f = g.flip() ? 0.0 : -g.logReal (1e-9, 1e6);
    bool threw = false;
    try { hart::SineWave<T> s (f, g.real (-1, 1)); } catch (const std::exception&) { threw = true; }
    PBT_CHECK (threw, "SineWave (" << f << ") was accepted");
    g.label ("illegal frequency");
}

template <typename T> static void silenceCase (Gen& g)
{
    const size_t frames = genFrames (g, 300), channels = genChannels (g), block = genBlock (g, frames);
    hart::Silence<T> s;
    const auto got = renderSignal (s, genSampleRate (g), channels, frames, block);
    for (auto& c : got) for (auto v : c) PBT_CHECK (v == (T) 0, "Silence gives " << v);
    g.label ("silence");
    g.note ([&] (auto& s) { s << "Silence " << channels << "x" << frames; });
    g.nontrivial();
}

template <typename T> static void noise (Gen& g)
{
    const bool statistics = g.oneIn (20);
    const size_t frames = statistics ? 6000 : g.size (8, 300), channels = statistics ? g.size (1, 3) : genChannels (g), block = genBlock (g, frames);
    const double fs = genSampleRate (g);
    const std::uint32_t seed = (std::uint32_t) (g.flip() ? g.draw (5) : g.draw (0xffffffffull));
    const bool fromCli = g.oneIn (3);
    g.note ([&] (auto& s) { s << "WhiteNoise seed=" << seed << (fromCli ? " from the command line" : "") << " channels=" << channels << " frames=" << frames << " block=" << block; });
    Cli cli; cli.dataRoot = "."; cli.seed = fromCli ? seed : seed + 17u;
    setCli (cli);
    auto a = fromCli ? hart::WhiteNoise<T>() : hart::WhiteNoise<T> (seed);
    hart::WhiteNoise<T> b (seed);
    const auto first = renderSignal (a, fs, channels, frames, block);
    const auto second = renderSignal (b, fs, channels, frames, block);
    const auto diff = firstDifference (first, second);
    PBT_CHECK (diff.empty(), "two noises with seed " << seed << (fromCli ? " (one by default from the command line)" : "") << " differ: " << diff);
    const std::uint32_t otherSeed = g.flip() ? seed + 1 : seed ^ (1u << g.draw (31));
    hart::WhiteNoise<T> c (otherSeed);
    const auto third = renderSignal (c, fs, channels, frames, block);

    for (size_t ch = 0; ch < channels; ++ch)
    {
        PBT_CHECK (first[ch] != third[ch], "seeds " << seed << " and " << otherSeed << " give the same noise on channel " << ch);
        for (size_t other = 0; other < ch; ++other) PBT_CHECK (first[ch] != first[other], "channels " << ch << " and " << other << " carry the same noise");
        for (T v : first[ch]) PBT_CHECK (v >= (T) -1 && v <= (T) 1, "noise sample " << v << " outside -1..+1");
        if (block >= 8 && 2 * block <= frames)
            PBT_CHECK (! std::equal (first[ch].begin(), first[ch].begin() + (long) block, first[ch].begin() + (long) block), "channel " << ch << ": the second block repeats the first one");
        // no repetition of any other length either
        for (size_t lag = 1; lag + 8 <= frames; ++lag)
            PBT_CHECK (! std::equal (first[ch].begin(), first[ch].begin() + 8, first[ch].begin() + (long) lag), "channel " << ch << ": the noise repeats after " << lag << " frames");
    }

    if (statistics)
    {
        const double n = (double) frames;
        for (size_t ch = 0; ch < channels; ++ch)
        {
            double sum = 0, squares = 0, lag1 = 0;
            std::array<double, 16> bins {};
            for (size_t f = 0; f < frames; ++f)
            {
                const double v = (double) first[ch][f];
                sum += v; squares += v * v;
                if (f) lag1 += v * (double) first[ch][f - 1];
                bins[std::min<size_t> (15, (size_t) ((v + 1) * 8))] += 1;
            }
            PBT_CHECK (std::abs (sum / n) < 7 * std::sqrt (1.0 / 3 / n), "seed " << seed << ": the mean of " << n << " samples is " << sum / n);
            PBT_CHECK (std::abs (squares / n - 1.0 / 3) < 7 * std::sqrt (4.0 / 45 / n), "seed " << seed << ": the mean square is " << squares / n << ", expected 1/3");
            PBT_CHECK (std::abs (lag1 / n) < 7 * std::sqrt (1.0 / 9 / n), "seed " << seed << ": neighbouring samples are correlated: " << lag1 / n);
            std::vector<T> sorted (first[ch]);
            std::sort (sorted.begin(), sorted.end());
            const size_t distinct = (size_t) (std::unique (sorted.begin(), sorted.end()) - sorted.begin());
            PBT_CHECK (distinct * 100 >= frames * 99, "seed " << seed << ": only " << distinct << " of " << n << " samples are different values");
            for (double count : bins) PBT_CHECK (std::abs (count - n / 16) < 7 * std::sqrt (n / 16), "seed " << seed << ": " << count << " of " << n << " samples in one of 16 equal bins");
            for (size_t other = 0; other < ch; ++other)
            {
                double cross = 0;
                for (size_t f = 0; f < frames; ++f) cross += (double) first[ch][f] * (double) first[other][f];
                PBT_CHECK (std::abs (cross / n) < 7 * std::sqrt (1.0 / 9 / n), "channels " << ch << " and " << other << " are correlated: " << cross / n);
            }
        }
        g.label ("noise statistics");
    }

    // reset brings the same noise again
    const auto again = renderSignal (a, fs, channels, frames, block);
    PBT_CHECK (firstDifference (first, again).empty(), "after a reset the noise differs: " << firstDifference (first, again));
    g.label ("noise");
    g.nontrivial();
}

// Over any length, no run of four values comes twice, on whatever channel (by chance it does with a probability below 1e-15)
template <typename T> static void longNoise (Gen& g)
{
    const size_t frames = g.size (20000, g.oneIn (4) ? 700000 : 200000), channels = g.size (1, 3), block = g.flip() ? genBlock (g, frames) : g.size (256, 70000);
    const std::uint32_t seed = (std::uint32_t) (g.flip() ? g.draw (5) : g.draw (0xffffffffull));
    g.note ([&] (auto& s) { s << "WhiteNoise seed=" << seed << " channels=" << channels << " frames=" << frames << " block=" << block << ", looked through for repetitions"; });
    hart::WhiteNoise<T> noise (seed);
    const auto got = renderSignal (noise, genSampleRate (g), channels, frames, std::max<size_t> (block, 16));
    std::vector<std::pair<std::uint64_t, std::uint64_t>> seen;
    seen.reserve (channels * frames);
    for (size_t c = 0; c < channels; ++c)
        for (size_t f = 0; f + 4 <= frames; ++f)
        {
            std::uint64_t h = 1469598103934665603ull;
            for (size_t k = 0; k < 4; ++k)
            {
                const double v = (double) got[c][f + k];
                std::uint64_t bits; std::memcpy (&bits, &v, 8);
                h = (h ^ bits) * 0x9E3779B97F4A7C15ull; h ^= h >> 29;
            }
            seen.push_back ({ h, c * frames + f });
        }
    std::sort (seen.begin(), seen.end());
    for (size_t i = 1; i < seen.size(); ++i)
    {
        if (seen[i].first != seen[i - 1].first) continue;
        const size_t a = seen[i - 1].second, b = seen[i].second;
        bool same = true;
        for (size_t k = 0; k < 4; ++k) same = same && got[a / frames][a % frames + k] == got[b / frames][b % frames + k];
        PBT_CHECK (! same, "the noise of channel " << b / frames << " at frame " << b % frames << " repeats that of channel " << a / frames << " at frame " << a % frames);
    }
    for (size_t c = 0; c < channels; ++c)
    {
        double sum = 0, squares = 0;
        for (T v : got[c]) { sum += (double) v; squares += (double) v * (double) v; }
        const double n = (double) frames;
        PBT_CHECK (std::abs (sum / n) < 7 * std::sqrt (1.0 / 3 / n), "seed " << seed << ": the mean of " << n << " samples is " << sum / n);
        PBT_CHECK (std::abs (squares / n - 1.0 / 3) < 7 * std::sqrt (4.0 / 45 / n), "seed " << seed << ": the mean square is " << squares / n << ", expected 1/3");
    }
    g.label ("long noise");
    g.nontrivial();
}

template <typename T> static void property (Gen& g)
{
    switch (g.draw (7))
    {
        case 0: case 1: case 2: case 3: sine<T> (g); break;
        case 4: silenceCase<T> (g); break;
        case 5: illegalSine<T> (g); break;
        default: if (g.oneIn (250)) longNoise<T> (g); else noise<T> (g); break;
    }
}

HV_BOTH_TYPES (property)
PBT_MAIN ("C08", "random signal parameters, rates, channel counts and block sizes; every sample is compared with the formula (sine, silence) or the noise laws are tested; non-trivial: more than one frame rendered", propertyDispatch)
