// Shared generators, reference models and test doubles. Only HART's public, documented API is used.
#pragma once

#include "pbt.hpp"

#include <array>
#include <cstdint>
#include <memory>

#include "hart.hpp"

namespace hv
{

using pbt::Gen;
using hart::DSP;      // HART's copy/move macros name these unqualified
using hart::Signal;
using hart::Matcher;

// ------------------------------------------------------------------------------------------------
// stdout capture (the library prints warnings, reports and, without exceptions, errors to std::cout)

struct CoutCapture
{
    std::ostringstream buffer;
    std::streambuf* old;
    CoutCapture() : old (std::cout.rdbuf (buffer.rdbuf())) {}
    ~CoutCapture() { std::cout.rdbuf (old); }
    std::string text() const { return buffer.str(); }
};

// ------------------------------------------------------------------------------------------------
// Command line

struct Cli
{
    std::string dataRoot;  // passed only if passRoot
    bool passRoot = true;
    std::uint64_t seed = 0;
    int lin = 6, db = 1, sec = 3, hz = 1, rad = 1;
    bool generators = false, shuffle = false;
};

inline void setCli (const Cli& c)
{
    static bool initialised = false;
    auto& cfg = hart::CLIConfig::getInstance();
    if (! initialised) { cfg.initCommandLineArgs(); initialised = true; }
    std::vector<std::string> a = { "prog",
        "--seed", std::to_string (c.seed), "--lin-decimals", std::to_string (c.lin), "--db-decimals", std::to_string (c.db),
        "--sec-decimals", std::to_string (c.sec), "--hz-decimals", std::to_string (c.hz), "--rad-decimals", std::to_string (c.rad),
        std::string ("--run-generators=") + (c.generators ? "true" : "false"), std::string ("--shuffle=") + (c.shuffle ? "true" : "false") };
    if (c.passRoot) { a.push_back ("--data-root-path"); a.push_back (c.dataRoot); }
    std::vector<const char*> argv;
    for (auto& s : a) argv.push_back (s.c_str());
    cfg.getCLIApp().parse ((int) argv.size(), argv.data());
}

// ------------------------------------------------------------------------------------------------
// Audio data

template <typename T> using Chans = std::vector<std::vector<T>>;

template <typename T> Chans<T> toChans (const hart::AudioBuffer<T>& b)
{
    Chans<T> c (b.getNumChannels());
    for (size_t ch = 0; ch < c.size(); ++ch)
        c[ch].assign (b[ch], b[ch] + b.getNumFrames());
    return c;
}

template <typename T> void appendChans (Chans<T>& dst, const hart::AudioBuffer<T>& b)
{
    if (dst.empty()) dst.resize (b.getNumChannels());
    for (size_t ch = 0; ch < dst.size(); ++ch)
        dst[ch].insert (dst[ch].end(), b[ch], b[ch] + b.getNumFrames());
}

template <typename T> bool sameBits (T a, T b) { return std::memcmp (&a, &b, sizeof (T)) == 0; }
template <typename T> bool sameValue (T a, T b) { return a == b || (std::isnan (a) && std::isnan (b)); }

template <typename T> std::string firstDifference (const Chans<T>& a, const Chans<T>& b)
{
    std::ostringstream s;
    s.precision (17);
    if (a.size() != b.size()) { s << "channel counts " << a.size() << " and " << b.size(); return s.str(); }
    for (size_t c = 0; c < a.size(); ++c)
    {
        for (size_t f = 0; f < std::min (a[c].size(), b[c].size()); ++f)
            if (! sameValue (a[c][f], b[c][f])) { s << "channel " << c << " frame " << f << ": " << a[c][f] << " and " << b[c][f]; return s.str(); }
        if (a[c].size() != b[c].size()) { s << "channel " << c << " lengths " << a[c].size() << " and " << b[c].size(); return s.str(); }
    }
    return "";
}

template <typename A, typename B> std::string firstFar (const Chans<A>& got, const Chans<B>& want, double tol)
{
    std::ostringstream s;
    s.precision (17);
    if (got.size() != want.size()) { s << "channel counts " << got.size() << " and " << want.size(); return s.str(); }
    for (size_t c = 0; c < got.size(); ++c)
    {
        if (got[c].size() != want[c].size()) { s << "channel " << c << " lengths " << got[c].size() << " and " << want[c].size(); return s.str(); }
        for (size_t f = 0; f < got[c].size(); ++f)
            if (! (std::abs ((double) got[c][f] - (double) want[c][f]) <= tol))
            { s << "channel " << c << " frame " << f << ": got " << (double) got[c][f] << ", expected " << (double) want[c][f] << " (tolerance " << tol << ")"; return s.str(); }
    }
    return "";
}

enum SampleClass { ordinary = 0, withLoud = 1, withNan = 2 };

template <typename T> T genSample (Gen& g, int cls = ordinary)
{
    const int k = (int) g.draw (cls == withNan ? 11 : cls == withLoud ? 9 : 6);
    switch (k)
    {
        case 0: return (T) 0;
        case 1: return (T) 0.5;
        case 2: return (T) -1;
        case 3: return (T) 1;
        case 4: return (T) g.real (-1, 1);
        case 5: return (T) (g.flip() ? 1e-7 : -3e-6);
        case 6: return (T) g.real (-0.01, 0.01);
        case 7: return (T) g.real (-4, 4);
        case 8: return (T) (g.flip() ? 1000.0 : -1e6);
        case 9: return std::numeric_limits<T>::denorm_min();
        case 10: return std::numeric_limits<T>::quiet_NaN();
        default: return g.flip() ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity();
    }
}

// Cheap in choices: a fill pattern and a few individually drawn samples
template <typename T> Chans<T> genData (Gen& g, size_t channels, size_t frames, int cls = ordinary)
{
    Chans<T> d (channels, std::vector<T> (frames, (T) 0));
    const int pattern = (int) g.draw (3);
    const double amp = g.pick ({ 0.5, 1.0, 0.01, 0.9999 });
    pbt::Rng r (g.draw (1u << 20));

    for (size_t c = 0; c < channels; ++c)
        for (size_t f = 0; f < frames; ++f)
            switch (pattern)
            {
                case 0: break;
                case 1: d[c][f] = (T) (amp * ((double) (r.next() >> 11) / (double) (1ull << 52) - 1.0)); break;
                case 2: d[c][f] = (T) (amp * (((double) (c * 131 + f + 1)) / ((double) (channels * 131 + frames + 2)))); break;  // every sample different
                default: d[c][f] = (T) ((f & 1) ? -amp : amp); break;
            }

    if (frames > 0 && channels > 0)
    {
        const size_t pokes = g.logSize (0, 6);
        for (size_t i = 0; i < pokes; ++i)
        {
            const size_t c = g.size (0, channels - 1), f = g.size (0, frames - 1);
            d[c][f] = genSample<T> (g, cls);
        }
    }

    return d;
}

// ------------------------------------------------------------------------------------------------
// An independent, minimal wav writer and reader

inline void putLe (std::string& s, std::uint64_t v, int bytes) { for (int i = 0; i < bytes; ++i) s += (char) ((v >> (8 * i)) & 0xff); }

struct WavHead { int format = 3; size_t channels = 1; double rate = 44100; int bits = 32; };

// Samples are given as raw little-endian words (low `bits` bits used), interleaved
inline std::string wavBytes (const WavHead& h, const std::vector<std::uint64_t>& words)
{
    std::string data;
    data.reserve (words.size() * (size_t) h.bits / 8);
    for (auto w : words) putLe (data, w, h.bits / 8);
    std::string s = "RIFF";
    const size_t pad = data.size() & 1;
    putLe (s, 4 + 24 + 8 + data.size() + pad, 4);
    s += "WAVEfmt ";
    putLe (s, 16, 4);
    putLe (s, (std::uint64_t) h.format, 2);
    putLe (s, h.channels, 2);
    putLe (s, (std::uint64_t) h.rate, 4);
    putLe (s, (std::uint64_t) h.rate * h.channels * (size_t) h.bits / 8, 4);
    putLe (s, h.channels * (size_t) h.bits / 8, 2);
    putLe (s, (std::uint64_t) h.bits, 2);
    s += "data";
    putLe (s, data.size(), 4);
    s += data;
    if (pad) s += '\0';
    return s;
}

inline void writeFile (const std::string& path, const std::string& bytes)
{
    std::ofstream f (path, std::ios::binary | std::ios::trunc);
    f.write (bytes.data(), (std::streamsize) bytes.size());
    f.close();
    if (! f) throw pbt::Failure { "the harness could not write " + path };
}

inline std::uint64_t floatWord (float v) { std::uint32_t w; std::memcpy (&w, &v, 4); return w; }
inline float wordFloat (std::uint64_t w) { std::uint32_t x = (std::uint32_t) w; float v; std::memcpy (&v, &x, 4); return v; }

template <typename V> std::string floatWav (const Chans<V>& d, double rate)
{
    std::vector<std::uint64_t> words;
    for (size_t f = 0; ! d.empty() && f < d[0].size(); ++f)
        for (auto& c : d) words.push_back (floatWord ((float) c[f]));
    return wavBytes ({ 3, d.size(), rate, 32 }, words);
}

struct WavContent { bool ok = false; std::string why; int format = 0, bits = 0; size_t channels = 0, frames = 0; double rate = 0; std::vector<std::int64_t> words; };

inline WavContent readWav (const std::string& path)
{
    WavContent w;
    std::ifstream f (path, std::ios::binary);
    if (! f) { w.why = "cannot open"; return w; }
    std::stringstream ss; ss << f.rdbuf();
    const std::string b = ss.str();
    auto le = [&] (size_t at, int n) { std::uint64_t v = 0; for (int i = 0; i < n; ++i) v |= (std::uint64_t) (unsigned char) b[at + (size_t) i] << (8 * i); return v; };
    if (b.size() < 12 || b.substr (0, 4) != "RIFF" || b.substr (8, 4) != "WAVE") { w.why = "no RIFF/WAVE header"; return w; }
    if (le (4, 4) + 8 != b.size() && le (4, 4) + 9 != b.size()) { w.why = "the RIFF size does not match the file size"; return w; }
    bool haveFmt = false;
    for (size_t at = 12; at + 8 <= b.size();)
    {
        const std::string id = b.substr (at, 4);
        const size_t n = le (at + 4, 4);
        if (at + 8 + n > b.size()) { w.why = "chunk '" + id + "' is longer than the file"; return w; }
        if (id == "fmt ") { w.format = (int) le (at + 8, 2); w.channels = le (at + 10, 2); w.rate = (double) le (at + 12, 4); w.bits = (int) le (at + 22, 2); if (w.format == 0xfffe && n >= 40) w.format = (int) le (at + 32, 2); haveFmt = true; }
        if (id == "data")
        {
            if (! haveFmt || w.channels == 0 || w.bits % 8 || w.bits == 0) { w.why = "bad format chunk"; return w; }
            const size_t bytes = (size_t) w.bits / 8;
            w.frames = n / (bytes * w.channels);
            for (size_t i = 0; i + bytes <= n; i += bytes)
            {
                std::uint64_t v = le (at + 8 + i, (int) bytes);
                if (bytes < 8 && (v >> (8 * bytes - 1)) & 1) v |= ~0ull << (8 * bytes);
                w.words.push_back ((std::int64_t) v);
            }
            w.ok = true;
            return w;
        }
        at += 8 + n + (n & 1);
    }
    w.why = "no data chunk";
    return w;
}

inline bool exists (const std::string& path) { struct stat st; return lstat (path.c_str(), &st) == 0; }

// ------------------------------------------------------------------------------------------------
// Host settings

struct HostCfg
{
    double sampleRate = 44100;
    double duration = 0;
    size_t frames = 1, block = 1024, inCh = 1, outCh = 1;
};

inline double genSampleRate (Gen& g)
{
    switch (g.draw (4))
    {
        case 0: return 44100;
        case 1: return g.pick ({ 48000.0, 8000.0, 96000.0, 192000.0, 22050.0, 11025.0, 16000.0, 88200.0 });
        case 2: return (double) g.range (1, 1000);
        case 3: return (double) g.range (1000, 200000);
        default: return g.real (20, 100000);
    }
}

// A duration that unambiguously rounds to `frames` at this rate
inline double genDuration (Gen& g, size_t frames, double fs)
{
    const double off = g.mostly (3) ? 0.0 : g.real (-0.4, 0.4);
    return ((double) frames + off) / fs;
}

inline size_t genFrames (Gen& g, size_t maxFrames) { return g.logSize (1, maxFrames); }

inline size_t genBlock (Gen& g, size_t frames)
{
    switch (g.draw (6))
    {
        case 0: return 1024;
        case 1: return std::max<size_t> (1, g.logSize (1, frames + 3));
        case 2: return g.size (1, 16);
        case 3: return frames;
        case 4: return frames + (size_t) g.range (0, 2);
        case 5: return std::max<size_t> (1, frames - 1);
        default: { const size_t parts = g.size (2, 7); return std::max<size_t> (1, frames / parts); }
    }
}

inline size_t genChannels (Gen& g) { return g.mostly (12) ? g.size (1, 4) : g.mostly (5) ? g.size (5, 20) : g.flip() ? g.size (21, 128) : g.pick ({ (size_t) 32, (size_t) 33, (size_t) 64, (size_t) 65, (size_t) 127, (size_t) 128 }); }

// Beyond 16-bit counts; rare, since such cases are slow
inline size_t genLongFrames (Gen& g) { return g.pick ({ (size_t) 65535, (size_t) 65536, (size_t) 65537, (size_t) 70001, (size_t) 131073 }) + g.size (0, 700); }
inline size_t genLongBlock (Gen& g, size_t frames) { return g.pick ({ (size_t) 1024, (size_t) 4096, (size_t) 32768, (size_t) 65535, (size_t) 65536, (size_t) 65537, frames, frames - 1, frames / 2, frames + 5 }); }

// One case in longOneIn (if not zero) is a long run
inline HostCfg genHost (Gen& g, size_t maxFrames, bool sameChannels = false, std::uint64_t longOneIn = 0)
{
    HostCfg h;
    if (longOneIn && g.oneIn (longOneIn))
    {
        h.frames = genLongFrames (g);
        h.block = genLongBlock (g, h.frames);
        h.sampleRate = genSampleRate (g);
        h.duration = genDuration (g, h.frames, h.sampleRate);
        h.inCh = g.size (1, 2);
        h.outCh = sameChannels ? h.inCh : g.size (1, 2);
        g.label ("more than 65534 frames");
        return h;
    }
    h.frames = genFrames (g, maxFrames);
    h.block = genBlock (g, h.frames);
    h.sampleRate = genSampleRate (g);
    h.duration = genDuration (g, h.frames, h.sampleRate);
    h.inCh = genChannels (g);
    h.outCh = sameChannels || g.flip() ? h.inCh : genChannels (g);
    return h;
}

inline std::ostream& operator<< (std::ostream& s, const HostCfg& h)
{
    return s << "sampleRate=" << h.sampleRate << " duration=" << h.duration << "s (" << h.frames << " frames) block=" << h.block << " in=" << h.inCh << " out=" << h.outCh;
}

template <typename T> void applyHost (hart::AudioTestBuilder<T>& b, const HostCfg& h)
{
    b.withSampleRate (h.sampleRate).withDuration (h.duration).withBlockSize (h.block).withInputChannels (h.inCh).withOutputChannels (h.outCh);
}

// ------------------------------------------------------------------------------------------------
// Test doubles

// Plays fixed data, then zeros; optionally records how it is used
struct SignalLog { std::vector<std::string> events; std::vector<size_t> blocks; size_t preparedCh = 0, preparedBlock = 0; double preparedRate = 0; int prepares = 0, resets = 0, renders = 0; };

template <typename T> class DataSignal : public hart::Signal<T>
{
    using SampleType = T;
public:
    explicit DataSignal (Chans<T> d, std::shared_ptr<SignalLog> l = nullptr) : data (std::make_shared<Chans<T>> (std::move (d))), log (l) {}
    void prepare (double fs, size_t ch, size_t maxBlock) override { if (log) { ++log->prepares; log->preparedRate = fs; log->preparedCh = ch; log->preparedBlock = maxBlock; } }
    void renderNextBlock (hart::AudioBuffer<T>& out) override
    {
        if (log) { ++log->renders; log->blocks.push_back (out.getNumFrames()); }
        for (size_t c = 0; c < out.getNumChannels(); ++c)
            for (size_t f = 0; f < out.getNumFrames(); ++f)
                out[c][f] = c < data->size() && offset + f < (*data)[c].size() ? (*data)[c][offset + f] : (T) 0;
        offset += out.getNumFrames();
    }
    void reset() override { offset = 0; if (log) ++log->resets; }
    void represent (std::ostream& s) const override { s << "DataSignal()"; }
    HART_SIGNAL_DEFINE_COPY_AND_MOVE (DataSignal);
    std::shared_ptr<Chans<T>> data;
    std::shared_ptr<SignalLog> log;
    size_t offset = 0;
};

// Copies input to output; extra output channels repeat the last input channel
template <typename T> class ThruDsp : public hart::DSP<T>
{
    using SampleType = T;
public:
    void prepare (double, size_t, size_t, size_t) override {}
    void process (const hart::AudioBuffer<T>& in, hart::AudioBuffer<T>& out, const hart::EnvelopeBuffers&) override
    {
        for (size_t c = 0; c < out.getNumChannels(); ++c)
            for (size_t f = 0; f < out.getNumFrames(); ++f)
                out[c][f] = in[std::min (c, in.getNumChannels() - 1)][f];
    }
    void reset() override {}
    void setValue (int, double) override {}
    double getValue (int) const override { return 0; }
    bool supportsChannelLayout (size_t, size_t) const override { return true; }
    void represent (std::ostream& s) const override { s << "ThruDsp()"; }
    HART_DSP_DEFINE_COPY_AND_MOVE (ThruDsp);
};

// Whole-signal matcher which keeps what it is shown and always agrees
template <typename T> struct Captured { Chans<T> audio; int matches = 0; };

template <typename T> class Capture : public hart::Matcher<T>
{
    using SampleType = T;
public:
    explicit Capture (std::shared_ptr<Captured<T>> c) : captured (c) {}
    void prepare (double, size_t, size_t) override {}
    bool match (const hart::AudioBuffer<T>& a) override { captured->audio = toChans (a); ++captured->matches; return true; }
    bool canOperatePerBlock() override { return false; }
    void reset() override {}
    hart::MatcherFailureDetails getFailureDetails() const override { return {}; }
    void represent (std::ostream& s) const override { s << "Capture()"; }
    HART_MATCHER_DEFINE_COPY_AND_MOVE (Capture);
    std::shared_ptr<Captured<T>> captured;
};

template <typename T, typename M> void addCheck (hart::AudioTestBuilder<T>& b, M m, bool assertion, bool positive, bool asLvalue = false)
{
    if (asLvalue)
    {
        if (assertion) { if (positive) b.assertTrue (m); else b.assertFalse (m); }
        else { if (positive) b.expectTrue (m); else b.expectFalse (m); }
        return;
    }
    if (assertion) { if (positive) b.assertTrue (std::move (m)); else b.assertFalse (std::move (m)); }
    else { if (positive) b.expectTrue (std::move (m)); else b.expectFalse (std::move (m)); }
}

// Stateful effect with one parameter (a leaky integrator, coefficient = value) that supports automation
template <typename T> class LeakyDsp : public hart::DSP<T>
{
    using SampleType = T;
public:
    enum Params { coefficient = 7 };
    explicit LeakyDsp (double c = 0.5) : coeff (c) {}
    void prepare (double, size_t, size_t nOut, size_t) override { state.resize (std::max (state.size(), nOut), 0.0); }
    void process (const hart::AudioBuffer<T>& in, hart::AudioBuffer<T>& out, const hart::EnvelopeBuffers& env) override
    {
        const auto e = env.find (coefficient);
        if (state.size() < out.getNumChannels()) state.resize (out.getNumChannels(), 0.0);
        for (size_t c = 0; c < out.getNumChannels(); ++c)
            for (size_t f = 0; f < out.getNumFrames(); ++f)
            {
                const double k = e != env.end() && f < e->second.size() ? e->second[f] : coeff;
                state[c] = k * state[c] + (double) in[std::min (c, in.getNumChannels() - 1)][f];
                out[c][f] = (T) state[c];
            }
    }
    void reset() override { std::fill (state.begin(), state.end(), 0.0); }
    void setValue (int id, double v) override { if (id == coefficient) coeff = v; }
    double getValue (int id) const override { return id == coefficient ? coeff : 0; }
    bool supportsChannelLayout (size_t i, size_t o) const override { return i == o || i == 1; }
    bool supportsEnvelopeFor (int id) const override { return id == coefficient; }
    void represent (std::ostream& s) const override { s << "LeakyDsp(" << coeff << ")"; }
    HART_DSP_DEFINE_COPY_AND_MOVE (LeakyDsp);
    double coeff;
    std::vector<double> state;
};

// ------------------------------------------------------------------------------------------------
// Envelopes: description, construction, closed-form reference

struct EnvSeg { bool hold = true; double target = 0, duration = 0; int shape = 0; };
struct EnvSpec { double start = 0; std::vector<EnvSeg> segs; };

inline std::ostream& operator<< (std::ostream& s, const EnvSpec& e)
{
    s << "SegmentedEnvelope(" << e.start << ")";
    for (auto& x : e.segs)
        if (x.hold) s << ".hold(" << x.duration << ")";
        else s << ".rampTo(" << x.target << "," << x.duration << "," << (x.shape == 0 ? "lin" : x.shape == 1 ? "exp" : "s") << ")";
    return s;
}

// allowExp: exponential ramps are generated only between two nonzero values of the same sign (where the curve is defined)
inline EnvSpec genEnv (Gen& g, double fs, size_t frames, double lo, double hi, size_t maxSegs = 5)
{
    EnvSpec e;
    auto value = [&] { switch (g.draw (4)) { case 0: return lo; case 1: return hi; case 2: return (lo + hi) * 0.5; default: return g.real (lo, hi); } };
    e.start = value();
    double current = e.start;
    const bool many = g.oneIn (80);  // short ones then, so that the later ones are reached
    const size_t n = many ? g.size (maxSegs + 1, g.oneIn (8) ? 400 : 50) : g.logSize (0, maxSegs);
    g.labelIf (many, "many segments");
    for (size_t i = 0; i < n; ++i)
    {
        EnvSeg s;
        s.hold = ! g.mostly (4);
        switch (g.draw (5))
        {
            case 0: s.duration = (double) g.size (0, frames) / fs; break;
            case 1: s.duration = g.real (0, (double) frames) / fs; break;
            case 2: s.duration = g.real (0, 3) / fs; break;
            case 3: s.duration = (double) frames * g.real (0.1, 0.6) / fs; break;
            case 4: s.duration = 0; break;
            default: s.duration = (double) frames * g.real (1, 4) / fs; break;
        }
        if (many) s.duration = g.mostly (5) ? g.real (0, 2.0 * (double) frames / (double) n) / fs : (double) g.size (0, 2) / fs;
        if (! s.hold)
        {
            s.target = g.oneIn (6) ? current : value();
            s.shape = (int) g.draw (2);
            if (s.shape == 1 && (current * s.target <= 0 || std::abs (current) < 1e-3 || std::abs (s.target) < 1e-3))
                s.shape = 0;
            current = s.target;
        }
        e.segs.push_back (s);
    }
    return e;
}

inline hart::SegmentedEnvelope makeEnv (const EnvSpec& e)
{
    hart::SegmentedEnvelope out (e.start);
    for (auto& s : e.segs)
        if (s.hold) out.hold (s.duration);
        else out.rampTo (s.target, s.duration, s.shape == 0 ? hart::SegmentedEnvelope::Shape::linear : s.shape == 1 ? hart::SegmentedEnvelope::Shape::exponential : hart::SegmentedEnvelope::Shape::sCurve);
    return out;
}

inline double envAt (const EnvSpec& e, double time)
{
    double begin = 0, v = e.start;
    for (auto& s : e.segs)
    {
        const double target = s.hold ? v : s.target;
        if (time < begin + s.duration)
        {
            if (s.hold) return v;
            const double t = std::max (0.0, (time - begin) / s.duration);
            switch (s.shape)
            {
                case 0: return v + (target - v) * t;
                case 1: return v * std::pow (target / v, t);
                default: return v + (target - v) * (3 * t * t - 2 * t * t * t);
            }
        }
        begin += s.duration;
        v = target;
    }
    return v;
}

// The set of values that a correct implementation may give at frame n: the curve around (n + 1) / fs, with a time
// tolerance far below a frame (it matters only at the jumps that zero-length ramps make)
struct Interval { double lo, hi; };

inline Interval envRange (const EnvSpec& e, size_t n, double fs, double absTol)
{
    const double t = ((double) n + 1.0) / fs;
    const double eps = 1e-5 / fs + 1e-12 * t;
    const double a = envAt (e, std::max (0.0, t - eps)), b = envAt (e, t), c = envAt (e, t + eps);
    Interval r { std::min ({ a, b, c }), std::max ({ a, b, c }) };
    double end = 0, v = e.start;
    for (size_t i = 0; i <= e.segs.size(); ++i)  // values at the joints inside the window
    {
        if (std::abs (end - t) <= eps) { r.lo = std::min (r.lo, v); r.hi = std::max (r.hi, v); }
        if (i == e.segs.size()) break;
        end += e.segs[i].duration;
        if (! e.segs[i].hold) v = e.segs[i].target;
    }
    return { r.lo - absTol, r.hi + absTol };
}

// Segment boundaries (a jump anywhere but inside the time tolerance is exact), used to avoid ambiguous frames when
// the reference must be a single number
inline bool envAmbiguous (const EnvSpec& e, size_t n, double fs)
{
    const Interval i = envRange (e, n, fs, 0);
    double scale = 1e-3;
    for (auto& s : e.segs) scale = std::max (scale, std::abs (s.target));
    return i.hi - i.lo > 1e-3 * std::max (scale, std::abs (e.start));
}

// ------------------------------------------------------------------------------------------------
// Effects and signals as data ("recipes"), so that equal instances can be built any number of times

enum EffectKind { gainDb = 0, gainLinear = 1, hardClip = 2, leaky = 3 };

struct EffectSpec
{
    int kind = 0;
    double value = 0;
    bool viaSet = false;  // constructed with another value and then set
    bool hasEnv = false;
    EnvSpec env;
};

inline std::ostream& operator<< (std::ostream& s, const EffectSpec& e)
{
    const char* names[] = { "GainDb", "GainLinear", "HardClip", "Leaky" };
    s << names[e.kind] << "(" << e.value << (e.viaSet ? " via setValue" : "") << ")";
    if (e.hasEnv) s << ".withEnvelope(" << e.env << ")";
    return s;
}

inline EffectSpec genEffect (Gen& g, double fs, size_t frames, bool allowEnv = true, bool allowLeaky = true)
{
    EffectSpec e;
    e.kind = (int) g.draw (allowLeaky ? 3 : 2);
    e.viaSet = g.oneIn (4);
    switch (e.kind)
    {
        case gainDb: e.value = g.oneIn (12) ? -130.0 : g.real (-40, 12); break;
        case gainLinear: e.value = g.real (-2, 3); break;
        case hardClip: e.value = g.real (-30, 3); break;
        default: e.value = g.real (-0.9, 0.9); break;
    }
    if (allowEnv && e.kind != hardClip && g.flip())
    {
        e.hasEnv = true;
        if (e.kind == gainDb) e.env = genEnv (g, fs, frames, -50, 10);
        else if (e.kind == gainLinear) e.env = genEnv (g, fs, frames, g.flip() ? 0.05 : -1.0, 2.0);
        else e.env = genEnv (g, fs, frames, 0.05, 0.9);
    }
    return e;
}

template <typename T> std::unique_ptr<hart::DSP<T>> makeEffect (const EffectSpec& e)
{
    std::unique_ptr<hart::DSP<T>> d;
    int id = 0;
    const double initial = e.viaSet ? (e.kind == leaky ? 0.1 : -3.0) : e.value;
    switch (e.kind)
    {
        case gainDb: d.reset (new hart::GainDb<T> (initial)); id = hart::GainDb<T>::gainDb; break;
        case gainLinear: d.reset (new hart::GainLinear<T> (initial)); id = hart::GainLinear<T>::gainLinear; break;
        case hardClip: d.reset (new hart::HardClip<T> (initial)); id = hart::HardClip<T>::thresholdDb; break;
        default: d.reset (new LeakyDsp<T> (initial)); id = LeakyDsp<T>::coefficient; break;
    }
    if (e.viaSet) d->setValue (id, e.value);
    if (e.hasEnv) { const auto env = makeEnv (e.env); d->withEnvelope (id, (const hart::Envelope&) env); }
    return d;
}

inline double refDb (double db) { return db < -120 ? 0.0 : std::pow (10.0, db / 20.0); }

// Reference effect on n-to-n channels, or 1-to-n. Works in double; `ambiguous` is set per frame where an envelope jumps
inline Chans<double> refEffect (const EffectSpec& e, const Chans<double>& in, size_t outCh, double fs, std::vector<char>* ambiguous = nullptr)
{
    const size_t n = in.empty() ? 0 : in[0].size();
    Chans<double> out (outCh, std::vector<double> (n));
    std::vector<double> param (n);
    for (size_t f = 0; f < n; ++f)
    {
        param[f] = e.hasEnv ? envAt (e.env, ((double) f + 1) / fs) : e.value;
        if (e.hasEnv && ambiguous && envAmbiguous (e.env, f, fs)) (*ambiguous)[f] = 1;
        if (e.kind == gainDb || e.kind == hardClip) param[f] = refDb (param[f]);
    }
    for (size_t c = 0; c < outCh; ++c)
    {
        double state = 0;
        const auto& x = in[in.size() == outCh ? c : 0];
        for (size_t f = 0; f < n; ++f)
            switch (e.kind)
            {
                case gainDb: case gainLinear: out[c][f] = x[f] * param[f]; break;
                case hardClip: out[c][f] = std::max (-param[f], std::min (param[f], x[f])); break;
                default: state = param[f] * state + x[f]; out[c][f] = state; break;
            }
    }
    return out;
}

// A bound on how much an effect can amplify differences (for tolerances)
inline double effectGain (const EffectSpec& e)
{
    double m = std::abs (e.kind == gainDb ? refDb (e.value) : e.kind == hardClip ? 1.0 : e.kind == leaky ? 10.0 : e.value);
    if (e.hasEnv && e.kind != leaky)
    {
        m = std::abs (e.kind == gainDb ? refDb (e.env.start) : e.env.start);
        for (auto& s : e.env.segs) if (! s.hold) m = std::max (m, std::abs (e.kind == gainDb ? refDb (s.target) : s.target));
    }
    return std::max (1.0, m);
}

enum SignalKind { sineWave = 0, silence = 1, whiteNoise = 2, sineSweep = 3, dataSignal = 4, wavFile = 5 };

struct SignalSpec
{
    int kind = 0;
    double frequency = 1000, phase = 0;
    std::uint32_t seed = 0;
    double duration = 1, endFrequency = 20000;
    bool logSweep = true, loop = false;
    Chans<double> data;
    std::string path;  // of a wav file with this data
    std::vector<EffectSpec> chain;
};

inline std::ostream& operator<< (std::ostream& s, const SignalSpec& x)
{
    switch (x.kind)
    {
        case sineWave: s << "SineWave(" << x.frequency << "," << x.phase << ")"; break;
        case silence: s << "Silence()"; break;
        case whiteNoise: s << "WhiteNoise(" << x.seed << ")"; break;
        case sineSweep: s << "SineSweep(" << x.duration << "," << x.frequency << "," << x.endFrequency << "," << (x.logSweep ? "log" : "lin") << "," << (x.loop ? "loop" : "once") << "," << x.phase << ")"; break;
        case wavFile: s << "WavFile(" << x.data.size() << "x" << (x.data.empty() ? 0 : x.data[0].size()) << "," << (x.loop ? "loop" : "once") << ")"; break;
        default: s << "Data[" << x.data.size() << "x" << (x.data.empty() ? 0 : x.data[0].size()) << "]"; break;
    }
    for (auto& e : x.chain) s << " >> " << e;
    return s;
}

inline double genFrequency (Gen& g, double fs)
{
    switch (g.draw (4)) { case 0: return 1000; case 1: return fs * g.real (0.001, 0.499); case 2: return g.logReal (0.01, 20000); case 3: return fs / (double) g.size (1, 32); default: return fs * g.real (0.5, 2.5); }
}

inline double genPhase (Gen& g)
{
    switch (g.draw (4)) { case 0: return 0; case 1: return g.pick ({ hart::pi, hart::halfPi, hart::twoPi, -hart::halfPi, -hart::pi, -hart::twoPi, 3 * hart::pi }); case 2: return g.real (-7, 7); default: return g.real (-200, 200); }
}

inline SignalSpec genSignal (Gen& g, const HostCfg& h, size_t channels, bool allowData = true)
{
    SignalSpec s;
    s.kind = (int) g.draw (allowData ? 5 : 3);
    if (s.kind == wavFile && (h.sampleRate != std::floor (h.sampleRate) || channels > 20)) s.kind = dataSignal;
    switch (s.kind)
    {
        case sineWave: s.frequency = genFrequency (g, h.sampleRate); s.phase = genPhase (g); break;
        case whiteNoise: s.seed = (std::uint32_t) g.draw (g.flip() ? 3 : 0xffffffffull); break;
        case sineSweep:
            s.duration = ((double) g.size (1, std::max<size_t> (2, h.frames * (size_t) g.pick ({ 1, 2 }))) + g.real (-0.3, 0.3)) / h.sampleRate;
            s.frequency = g.oneIn (5) ? genFrequency (g, h.sampleRate) : h.sampleRate * g.real (0.0005, 0.4);
            s.endFrequency = g.oneIn (8) ? s.frequency : h.sampleRate * g.real (0.0005, 0.4);
            s.logSweep = g.flip();
            s.loop = g.flip();
            s.phase = genPhase (g);
            break;
        case dataSignal: s.data = genData<double> (g, channels, h.frames); break;
        case wavFile:
        {
            static size_t counter = 0;
            s.data = genData<double> (g, channels + (g.oneIn (3) ? g.size (1, 2) : 0), g.size (1, h.frames + 3));
            s.loop = g.flip();
            s.path = g.workDir + "/sig" + std::to_string (counter++ % 64) + ".wav";  // read at construction only
            writeFile (s.path, floatWav (s.data, h.sampleRate));
            break;
        }
        default: break;
    }
    return s;
}

inline void genChain (Gen& g, SignalSpec& s, double fs, size_t frames, size_t maxLen, bool allowEnv = true, bool allowLeaky = true)
{
    const size_t n = g.size (0, maxLen);
    for (size_t i = 0; i < n; ++i) s.chain.push_back (genEffect (g, fs, frames, allowEnv, allowLeaky));
}

template <typename T> std::unique_ptr<hart::Signal<T>> makeBareSignal (const SignalSpec& s)
{
    using Sweep = hart::SineSweep<T>;
    switch (s.kind)
    {
        case sineWave: return std::unique_ptr<hart::Signal<T>> (new hart::SineWave<T> (s.frequency, s.phase));
        case silence: return std::unique_ptr<hart::Signal<T>> (new hart::Silence<T>());
        case whiteNoise: return std::unique_ptr<hart::Signal<T>> (new hart::WhiteNoise<T> (s.seed));
        case sineSweep: return std::unique_ptr<hart::Signal<T>> (new Sweep (s.duration, s.frequency, s.endFrequency,
            s.logSweep ? Sweep::SweepType::log : Sweep::SweepType::linear, s.loop ? Sweep::Loop::yes : Sweep::Loop::no, s.phase));
        case wavFile: return std::unique_ptr<hart::Signal<T>> (new hart::WavFile<T> (s.path, s.loop ? hart::WavFile<T>::Loop::yes : hart::WavFile<T>::Loop::no));
        default:
        {
            Chans<T> d;
            for (auto& c : s.data) d.emplace_back (c.begin(), c.end());
            return std::unique_ptr<hart::Signal<T>> (new DataSignal<T> (std::move (d)));
        }
    }
}

template <typename T> std::unique_ptr<hart::Signal<T>> makeSignal (const SignalSpec& s)
{
    auto sig = makeBareSignal<T> (s);
    for (auto& e : s.chain) sig->followedBy (makeEffect<T> (e));
    return sig;
}

// Runs a signal by hand (reset, prepare, render in the given block sizes)
template <typename T> Chans<T> renderSignal (hart::Signal<T>& s, double fs, size_t channels, size_t frames, size_t block, bool resetAndPrepare = true)
{
    if (resetAndPrepare) { s.resetWithDSPChain(); s.prepareWithDSPChain (fs, channels, block); }
    Chans<T> out (channels);
    for (size_t done = 0; done < frames;)
    {
        const size_t n = std::min (block, frames - done);
        hart::AudioBuffer<T> b (channels, n);
        for (size_t c = 0; c < channels; ++c) std::fill (b[c], b[c] + n, (T) 77);  // whatever was there before must be overwritten
        s.renderNextBlockWithDSPChain (b);
        appendChans (out, b);
        done += n;
    }
    return out;
}

// Runs a whole test and returns the output (copy of the effect unless moved in by the caller)
template <typename T> Chans<T> runHost (hart::AudioTestBuilder<T>& b)
{
    auto cap = std::make_shared<Captured<T>>();
    b.assertTrue (Capture<T> (cap));
    b.process();
    return cap->audio;
}

inline Chans<double> refSine (double f, double phase, double fs, size_t channels, size_t frames)
{
    Chans<double> out (channels, std::vector<double> (frames));
    for (size_t n = 0; n < frames; ++n)
    {
        const long double cycles = (long double) f * (long double) n / (long double) fs;
        const long double frac = cycles - std::floor (cycles);
        const double v = (double) std::sin (2.0L * 3.14159265358979323846264338327950288L * frac + (long double) phase);
        for (size_t c = 0; c < channels; ++c) out[c][n] = v;
    }
    return out;
}

template <typename T> constexpr double tolFor() { return sizeof (T) == 4 ? 3e-6 : 1e-8; }

}  // namespace hv

// Runs the templated property for float or double
#define HV_BOTH_TYPES(name) \
    static void name##Dispatch (pbt::Gen& g) { if (g.flip()) { g.label ("double"); name<double> (g); } else { g.label ("float"); name<float> (g); } }
