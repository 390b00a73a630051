// C10: a wav file as a signal: independently encoded files, histories of rendering, resetting, copying.
#include "common.hpp"

using namespace hv;

namespace
{

template <typename T> void property (Gen& g)
{
    using Wav = hart::WavFile<T>;
    static int counter = 0;
    const std::string name = "f" + std::to_string (counter++ % 16) + (g.oneIn (4) ? " with space.WAV" : ".wav");
    const std::string path = g.workDir + "/" + name;

    const bool isLong = g.oneIn (600);
    const size_t channels = isLong ? g.size (1, 2) : g.mostly (10) ? g.size (1, 4) : g.mostly (4) ? g.size (5, 12) : genChannels (g);
    const size_t frames = isLong ? genLongFrames (g) : g.oneIn (10) ? 0 : g.logSize (1, 400);
    g.labelIf (isLong, "more than 65534 frames");
    const double rate = std::floor (genSampleRate (g)) + (g.oneIn (8) ? 1 : 0);
    const int encoding = (int) g.draw (1);  // float32 (exact) or 16-bit

    Chans<double> content = genData<double> (g, channels, frames, withLoud);
    double tol = 0;
    if (encoding == 0)
    {
        for (auto& c : content) for (auto& x : c) x = (double) (float) x;
        writeFile (path, floatWav (content, rate));
    }
    else
    {
        std::vector<std::uint64_t> words;
        for (size_t f = 0; f < frames; ++f)
            for (auto& c : content)
            {
                const long v = std::lround (std::max (-1.0, std::min (1.0, c[f])) * 32767);
                words.push_back ((std::uint64_t) v & 0xffff);
                c[f] = (double) v / 32768.0;
            }
        writeFile (path, wavBytes ({ 1, channels, rate, 16 }, words));
        tol = 1.5 / 32768.0;  // whether full scale is 32767 or 32768
    }

    const bool loop = g.flip();
    const bool relative = g.flip();
    Cli cli;
    cli.dataRoot = relative && g.flip() ? g.workDir + "/" : g.workDir;
    if (! relative) cli.dataRoot = g.workDir + "/nowhere";
    setCli (cli);

    if (g.oneIn (25))
    {
        bool io = false;
        try { Wav w (g.flip() ? std::string ("missing.wav") : g.workDir + "/nodir/" + name, loop ? Wav::Loop::yes : Wav::Loop::no); }
        catch (const hart::IOError&) { io = true; }
        catch (const std::exception&) {}
        PBT_CHECK (io, "a missing wav file is not reported as hart::IOError");
        g.label ("missing file");
        return;
    }

    g.note ([&] (auto& s) { s << (encoding ? "16-bit" : "float") << " file, " << channels << " channels, " << frames << " frames, rate " << rate << (loop ? ", looped" : "") << (relative ? ", relative path" : ""); });

    auto expected = [&] (size_t c, size_t at) -> double
    {
        if (frames == 0 || (! loop && at >= frames)) return 0;
        return content[c][at % frames];
    };

    Wav original (relative ? name : path, loop ? Wav::Loop::yes : Wav::Loop::no);
    if (g.flip()) unlink (path.c_str());  // it is read when constructed

    const bool moreChannels = g.oneIn (10), otherRate = g.oneIn (10);
    if (moreChannels || otherRate)
    {
        const size_t wantCh = moreChannels ? channels + g.size (1, 3) : channels;
        const double wantRate = otherRate ? (g.flip() ? rate + (g.flip() ? 1 : 0.5) : rate * 2) : rate;
        bool refused = false;
        auto cap = std::make_shared<Captured<T>>();
        try
        {
            if (g.oneIn (4)) original.prepare (wantRate, wantCh, 64);
            else if (g.flip()) { original.resetWithDSPChain(); original.prepareWithDSPChain (wantRate, wantCh, 64); }
            else
            {
                auto b = hart::processAudioWith (ThruDsp<T>());
                b.withSampleRate (wantRate).withDuration (10.0 / wantRate).withInputChannels (wantCh).withOutputChannels (wantCh).withInputSignal (original).expectTrue (Capture<T> (cap)).process();
            }
        }
        catch (const std::exception&) { refused = true; }
        PBT_CHECK (refused, "a wav file of " << channels << " channels at " << rate << " Hz was accepted for " << wantCh << " channels at " << wantRate << " Hz");
        PBT_CHECK (cap->matches == 0, "audio was rendered although refused");
        g.label (moreChannels ? "more channels refused" : "other rate refused");
        g.nontrivial();
        return;
    }

    struct Inst { std::unique_ptr<hart::Signal<T>> signal; size_t position, channels, block; bool ready; };
    std::vector<Inst> all;
    {
        Inst i { nullptr, 0, g.size (1, channels), 64, false };
        i.signal.reset (new Wav (std::move (original)));
        all.push_back (std::move (i));
    }

    bool wrapped = false, crossedEnd = false, fewer = false;
    const size_t steps = g.size (2, 14);

    for (size_t step = 0; step < steps; ++step)
    {
        Inst& i = all[g.size (0, all.size() - 1)];
        switch ((int) g.draw (5))
        {
            case 0: case 1: case 2:
            {
                if (! i.ready)
                {
                    i.block = isLong ? genLongBlock (g, frames) : g.mostly (3) ? g.logSize (1, 2 * frames + 8) : 1024;
                    i.channels = g.flip() ? channels : g.size (1, channels);
                    i.signal->prepareWithDSPChain (rate, i.channels, i.block);
                    i.ready = true;
                }
                const size_t blocks = g.size (1, 5);
                for (size_t k = 0; k < blocks; ++k)
                {
                    const size_t n = g.mostly (3) ? i.block : g.size (1, i.block);
                    hart::AudioBuffer<T> b (i.channels, n);
                    for (size_t c = 0; c < i.channels; ++c) std::fill (b[c], b[c] + n, (T) 77);
                    i.signal->renderNextBlockWithDSPChain (b);
                    PBT_CHECK (b.getNumFrames() == n && b.getNumChannels() == i.channels, "the rendered buffer changed size");
                    for (size_t c = 0; c < i.channels; ++c)
                        for (size_t f = 0; f < n; ++f)
                        {
                            const double want = expected (c, i.position + f);
                            const double t = want == 0 ? 0 : tol;
                            PBT_CHECK (std::abs ((double) b[c][f] - want) <= t || ((double) b[c][f] == want),
                                "frame " << i.position + f << " on channel " << c << " is " << (double) b[c][f] << ", the file holds " << want << " (block of " << n << ")");
                        }
                    if (frames && i.position < frames && i.position + n > frames) (loop ? wrapped : crossedEnd) = true;
                    if (loop && frames && (i.position + n) / frames > i.position / frames) wrapped = true;
                    fewer |= i.channels < channels;
                    i.position += n;
                    if (i.position > 6 * frames + 3000) break;
                }
                break;
            }
            case 3:
                i.signal->resetWithDSPChain();
                i.position = 0;
                if (g.flip()) i.ready = false;
                break;
            case 4:
            {
                if (all.size() >= 3) break;
                Inst n { nullptr, i.position, i.channels, i.block, false };
                n.signal = g.flip() ? i.signal->copy() : nullptr;
                if (! n.signal) { auto m = i.signal->move(); i.signal = m->copy(); i.ready = false; n.signal = std::move (m); }
                all.push_back (std::move (n));
                break;
            }
            default:  // in a whole run
            {
                const size_t want = isLong ? frames + g.size (0, 1000) : g.logSize (1, 3 * frames + 10), ch = g.size (1, channels);
                auto b = hart::processAudioWith (ThruDsp<T>());
                b.withSampleRate (rate).withDuration ((double) want / rate).withBlockSize (isLong ? genLongBlock (g, want) : g.logSize (1, want + 2)).withInputChannels (ch).withOutputChannels (ch).withInputSignal (*i.signal);
                const auto out = runHost<T> (b);
                PBT_CHECK (out.size() == ch && out[0].size() == want, "wrong size");
                for (size_t c = 0; c < ch; ++c)
                    for (size_t f = 0; f < want; ++f)
                        PBT_CHECK (std::abs ((double) out[c][f] - expected (c, f)) <= (expected (c, f) == 0 ? 0 : tol) || (double) out[c][f] == expected (c, f),
                            "in a run, frame " << f << " on channel " << c << " is " << (double) out[c][f] << ", the file holds " << expected (c, f));
                break;
            }
        }
    }

    g.label (encoding ? "16-bit" : "float32");
    g.labelIf (frames == 0, "no frames");
    g.labelIf (wrapped, "loop wrapped");
    g.labelIf (crossedEnd, "block across the end");
    g.labelIf (fewer, "fewer channels than the file");
    if (wrapped || crossedEnd || fewer) g.nontrivial();
}

}  // namespace

HV_BOTH_TYPES (property)
PBT_MAIN ("C10", "x", propertyDispatch)
