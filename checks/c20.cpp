// C20: well-formed wav files in all common encodings decode to what they encode; damaged and arbitrary files are
// refused with an I/O error or render within bounds. Runs under the address sanitizer with bounded allocations.
#include "common.hpp"

using namespace hv;

namespace
{

struct Chunk { std::string id, body; std::uint32_t size; };

void putBe (std::string& s, std::uint64_t v, int bytes) { for (int i = bytes; i-- > 0;) s += (char) ((v >> (8 * i)) & 0xff); }

struct Container { std::string magic = "RIFF"; bool bigEndian = false; };

std::string assemble (const std::vector<Chunk>& chunks, const std::string& magic = "RIFF", const std::string& form = "WAVE", bool big = false)
{
    auto put = [&] (std::string& s, std::uint64_t v, int n) { if (big) putBe (s, v, n); else putLe (s, v, n); };
    std::string body = form;
    for (auto& c : chunks)
    {
        body += c.id;
        put (body, c.size, 4);
        body += c.body;
        if (c.body.size() & 1) body += '\0';
    }
    std::string s = magic;
    if (magic == "RF64") putLe (s, 0xffffffffu, 4); else put (s, body.size(), 4);
    return s + body;
}

Chunk chunk (const std::string& id, const std::string& body) { return { id, body, (std::uint32_t) body.size() }; }

struct Encoding { int format, bits; };
const Encoding encodings[] = { { 1, 16 }, { 1, 24 }, { 1, 8 }, { 1, 32 }, { 3, 32 }, { 3, 64 } };

struct Pcm
{
    Encoding enc { 1, 16 };
    size_t channels = 1, frames = 0;
    std::uint32_t rate = 44100;
    bool extensible = false;
    Chans<double> value;  // as a float signal
    double tol = 0;
    std::string data;
};

Pcm genPcm (Gen& g, size_t maxFrames)
{
    Pcm p;
    p.enc = encodings[g.draw (5)];
    p.channels = g.mostly (8) ? g.size (1, 3) : g.size (4, 9);
    p.frames = g.oneIn (12) ? 0 : g.logSize (1, maxFrames);
    p.rate = (std::uint32_t) g.pick ({ 44100, 48000, 8000, 192000, 1, 384000 });
    p.extensible = g.oneIn (3);
    p.value = genData<double> (g, p.channels, p.frames, p.enc.format == 3 ? withLoud : ordinary);
    const bool extremes = g.flip();

    for (size_t f = 0; f < p.frames; ++f)
        for (size_t c = 0; c < p.channels; ++c)
        {
            double& v = p.value[c][f];
            if (p.enc.format == 3)
            {
                v = (double) (float) v;
                std::uint64_t w = floatWord ((float) v);
                if (p.enc.bits == 64) std::memcpy (&w, &v, 8);
                putLe (p.data, w, p.enc.bits / 8);
                continue;
            }
            const double full = std::ldexp (1.0, p.enc.bits - 1);
            std::int64_t q = (std::int64_t) std::floor (std::max (-1.0, std::min (1.0, v)) * full);
            if (extremes && (f + c) % 5 == 0) q = f % 2 ? (std::int64_t) full - 1 : -(std::int64_t) full;
            q = std::max<std::int64_t> (-(std::int64_t) full, std::min<std::int64_t> ((std::int64_t) full - 1, q));
            v = (double) q / full;
            putLe (p.data, (std::uint64_t) (p.enc.bits == 8 ? q + 128 : q), p.enc.bits / 8);
        }

    // Whether full scale is 2^n or 2^n - 1 (and where unsigned 8-bit zero lies) is a matter of convention
    p.tol = p.enc.format == 3 ? 0 : 1.01 / std::ldexp (1.0, std::min (p.enc.bits, 24) - 1);
    return p;
}

std::string fmtBody (Gen& g, const Pcm& p)
{
    std::string s;
    const size_t align = p.channels * (size_t) p.enc.bits / 8;
    putLe (s, p.extensible ? 0xfffe : (std::uint64_t) p.enc.format, 2);
    putLe (s, p.channels, 2);
    putLe (s, p.rate, 4);
    putLe (s, (std::uint64_t) p.rate * align, 4);
    putLe (s, align, 2);
    putLe (s, (std::uint64_t) p.enc.bits, 2);
    if (p.extensible)
    {
        putLe (s, 22, 2);
        putLe (s, (std::uint64_t) p.enc.bits, 2);
        putLe (s, g.pick ({ 0, 3, 4, 0x3f }), 4);
        putLe (s, (std::uint64_t) p.enc.format, 2);
        const unsigned char tail[] = { 0, 0, 0, 0, 0x10, 0, 0x80, 0, 0, 0xaa, 0, 0x38, 0x9b, 0x71 };
        s.append ((const char*) tail, sizeof (tail));
    }
    else if (p.enc.format != 1 || g.oneIn (3)) { if (g.flip()) putLe (s, 0, 2); }
    return s;
}

Chunk genExtra (Gen& g)
{
    const std::string id = g.pick ({ "LIST", "JUNK", "bext", "id3 ", "abcd", "cue ", "smpl", "inst", "PEAK" });
    std::string body (g.pick ({ (size_t) 0, (size_t) 1, (size_t) 2, (size_t) 7, (size_t) 28, (size_t) 60, (size_t) 133 }), (char) g.draw (255));
    if (id == "LIST" && body.size() >= 12) { body.replace (0, 4, g.pick ({ "INFO", "adtl" })); body.replace (4, 4, "IART"); }
    if (g.oneIn (4) && body.size() > 8) body.replace (0, 4, g.pick ({ "data", "fmt ", "fact", "RIFF" }));  // inside another chunk it means nothing
    return chunk (id, body);
}

std::vector<Chunk> genChunks (Gen& g, const Pcm& p, size_t& extras)
{
    std::vector<Chunk> cs;
    auto extra = [&] { for (size_t n = g.mostly (3) ? 0 : g.size (1, 2); n > 0; --n) { cs.push_back (genExtra (g)); ++extras; } };
    extra();
    cs.push_back (chunk ("fmt ", fmtBody (g, p)));
    extra();
    if (g.oneIn (4)) { std::string b; putLe (b, p.frames, 4); if (g.oneIn (3)) b.append (g.size (1, 9), (char) g.draw (255)); cs.push_back (chunk ("fact", b)); ++extras; }
    cs.push_back (chunk ("data", p.data));
    extra();
    return cs;
}

template <typename T> struct Rendered { bool refused = false; size_t channels = 0; Chans<T> audio; };

// Opens a file the way a user does; anything but an I/O error escapes as a failure
template <typename T> Rendered<T> open (Gen& g, const std::string& path, double rate, size_t wantChannels, size_t frames, bool loop, bool rateKnown)
{
    using Wav = hart::WavFile<T>;
    Rendered<T> r;
    std::unique_ptr<Wav> w;
    try { w.reset (new Wav (path, loop ? Wav::Loop::yes : Wav::Loop::no)); }
    catch (const hart::IOError&) { r.refused = true; return r; }
    catch (const std::exception& e) { g.fail (std::string ("opening the file raised something else than hart::IOError: ") + e.what()); }

    if (! w->supportsNumChannels (1)) return r;
    r.channels = 1;
    while (r.channels < 70000 && w->supportsNumChannels (r.channels + 1)) ++r.channels;
    if (wantChannels == 0) wantChannels = std::min<size_t> (r.channels, g.size (1, 3));
    if (wantChannels > r.channels) return r;
    const size_t block = g.flip() ? 1024 : g.logSize (1, 700);
    w->resetWithDSPChain();
    try { w->prepareWithDSPChain (rate, wantChannels, block); }
    catch (const std::exception& e) { PBT_CHECK (! rateKnown, "the file is refused for " << wantChannels << " channels at " << rate << " Hz: " << e.what()); return r; }
    r.audio = renderSignal<T> (*w, rate, wantChannels, frames, block, false);
    return r;
}

template <typename T> void checkContent (const Rendered<T>& r, const Pcm& p, size_t frames, const char* what)
{
    for (size_t c = 0; c < r.audio.size(); ++c)
        for (size_t f = 0; f < r.audio[c].size(); ++f)
        {
            const double want = f < frames ? p.value[c][f] : 0;
            const double tol = f < frames ? p.tol : 0;
            PBT_CHECK (std::abs ((double) r.audio[c][f] - want) <= tol || (double) r.audio[c][f] == want,
                what << ": frame " << f << " of " << frames << " on channel " << c << " is " << (double) r.audio[c][f] << ", the file encodes " << want);
        }
}

// Other formats dr_wav knows: compressed data, 64-bit and big-endian containers
std::string genExotic (Gen& g)
{
    const std::string data = [&] { std::string d (g.logSize (0, 600), '\0'); pbt::Rng r (g.draw (1u << 20)); for (auto& c : d) c = (char) r.next(); return d; }();
    const size_t ch = g.size (1, 3);
    auto fmt = [&] (int format, int bits, size_t align, bool big, const std::string& ext)
    {
        std::string s;
        auto put = [&] (std::uint64_t v, int n) { if (big) putBe (s, v, n); else putLe (s, v, n); };
        put ((std::uint64_t) format, 2); put (ch, 2); put (44100, 4); put (44100 * align, 4); put (align, 2); put ((std::uint64_t) bits, 2);
        if (ext.size()) { put (ext.size(), 2); s += ext; }
        return s;
    };
    switch (g.draw (5))
    {
        case 0:  // A-law, mu-law
            return assemble ({ chunk ("fmt ", fmt (g.flip() ? 6 : 7, 8, ch, false, "")), chunk ("data", data) });
        case 1:  // ADPCM
        {
            const bool ima = g.flip();
            const size_t align = g.pick ({ (size_t) 256, (size_t) 32, (size_t) 36, (size_t) 7 * ch, (size_t) 4 * ch, (size_t) 1, (size_t) 0 });
            std::vector<Chunk> cs { chunk ("fmt ", fmt (ima ? 0x11 : 2, 4, align, false, ima ? std::string ("\xf9\x01", 2) : std::string (g.flip() ? 32 : 2, '\1'))) };
            if (g.flip()) { std::string b; putLe (b, (std::uint64_t) g.pick ({ 0l, 100l, 1000000l, 0xffffffffl }), 4); cs.push_back (chunk ("fact", b)); }
            cs.push_back (chunk ("data", data));
            return assemble (cs);
        }
        case 2:  // big-endian RIFX
            return assemble ({ chunk ("fmt ", fmt (1, 16, 2 * ch, true, "")), chunk ("data", data) }, "RIFX", "WAVE", true);
        case 3:  // AIFF, AIFC
        {
            const bool aifc = g.flip();
            std::string comm;
            putBe (comm, ch, 2); putBe (comm, (std::uint64_t) g.pick ({ 0l, 10l, 100l, 0x7fffffffl, 0xffffffffl }), 4); putBe (comm, (std::uint64_t) g.pick ({ 8, 16, 24, 12, 1, 64 }), 2);
            comm += std::string ("\x40\x0e\xac\x44\0\0\0\0\0\0", 10);
            if (aifc) comm += std::string (g.pick ({ "NONE", "sowt", "fl32", "ulaw", "raw ", "fl64" })) + std::string (2, '\0');
            std::string ssnd;
            putBe (ssnd, (std::uint64_t) g.pick ({ 0l, 4l, 0x7fffffffl, 0xffffffffl }), 4); putBe (ssnd, 0, 4);
            return assemble ({ chunk ("COMM", comm), chunk ("SSND", ssnd + data) }, "FORM", aifc ? "AIFC" : "AIFF", true);
        }
        case 4:  // RF64
        {
            std::string ds;
            const std::uint64_t telling[] = { 1ull << 62, (1ull << 62) + 1, (1ull << 61) + 2, (1ull << 63) + 4, ~0ull, 1ull << 40, ~0ull - 15 };
            putLe (ds, 0, 8); putLe (ds, g.flip() ? data.size() : g.flip() ? g.pick ({ telling[0], telling[1], telling[2], telling[3], telling[4], telling[5], telling[6] }) : (std::uint64_t) g.draw (~0ull), 8);
            putLe (ds, g.flip() ? g.draw (1000) : telling[g.draw (6)], 8); putLe (ds, 0, 4);
            return assemble ({ chunk ("ds64", ds), chunk ("fmt ", fmt (1, g.pick ({ 8, 16 }), (size_t) g.pick ({ 1, 2 }) * ch, false, "")), chunk ("data", data) }, "RF64");
        }
        default:  // Wave64
        {
            const std::string tail ("\xF3\xAC\xD3\x11\x8C\xD1\x00\xC0\x4F\x8E\xDB\x8A", 12);
            const std::string f = fmt (1, 16, 2 * ch, false, "");
            std::string s = "riff" + std::string ("\x2E\x91\xCF\x11\xA5\xD6\x28\xDB\x04\xC1\x00\x00", 12);
            putLe (s, 104 + data.size(), 8);
            s += "wave" + tail + "fmt " + tail;
            putLe (s, 24 + f.size(), 8);
            s += f + "data" + tail;
            putLe (s, g.flip() ? 24 + data.size() : g.flip() ? g.draw (30) : (std::uint64_t) g.draw (~0ull), 8);
            return s + data;
        }
    }
}

// --- Well-formed files in the other encodings and containers of wav files, with what they encode ---

struct Other { std::string bytes, what; size_t channels = 1, frames = 0; std::uint32_t rate = 44100; bool wild = false; Chans<double> value, alternative; };

int clip16 (int v) { return std::max (-32768, std::min (32767, v)); }

double alaw (unsigned char a)
{
    a ^= 0x55;
    int t = (a & 15) << 4;
    const int seg = (a & 0x70) >> 4;
    t += seg == 0 ? 8 : 0x108;
    if (seg > 1) t <<= seg - 1;
    return (a & 0x80 ? t : -t) / 32768.0;
}

double mulaw (unsigned char u)
{
    u = (unsigned char) ~u;
    const int t = (((u & 15) << 3) + 0x84) << ((u & 0x70) >> 4);
    return (u & 0x80 ? 0x84 - t : t - 0x84) / 32768.0;
}

int imaStep (int index)
{
    static const int steps[89] = { 7, 8, 9, 10, 11, 12, 13, 14, 16, 17, 19, 21, 23, 25, 28, 31, 34, 37, 41, 45, 50, 55, 60, 66, 73, 80, 88, 97, 107, 118, 130, 143, 157, 173, 190, 209, 230, 253, 279, 307, 337, 371, 408, 449, 494, 544, 598, 658,
        724, 796, 876, 963, 1060, 1166, 1282, 1411, 1552, 1707, 1878, 2066, 2272, 2499, 2749, 3024, 3327, 3660, 4026, 4428, 4871, 5358, 5894, 6484, 7132, 7845, 8630, 9493, 10442, 11487, 12635, 13899, 15289, 16818, 18500, 20350, 22385, 24623, 27086, 29794, 32767 };
    return steps[index];
}

void imaBlock (Gen& g, pbt::Rng& rng, Other& o, std::string& data, size_t groups)
{
    const size_t ch = o.channels;
    std::vector<int> predictor (ch), index (ch);
    for (size_t c = 0; c < ch; ++c)
    {
        predictor[c] = (int) g.draw (65535) - 32768;
        index[c] = (int) g.draw (88);
        putLe (data, (std::uint64_t) predictor[c], 2); putLe (data, (std::uint64_t) index[c], 1); putLe (data, 0, 1);
        o.value[c].push_back (predictor[c] / 32768.0);
    }
    const int quiet = g.oneIn (3) ? 3 : 7;
    for (size_t k = 0; k < groups; ++k)
        for (size_t c = 0; c < ch; ++c)
            for (int b = 0; b < 4; ++b)
            {
                const unsigned byte = (unsigned) (rng.next() & 0xff) & (unsigned) (0x88 | quiet | quiet << 4);
                data += (char) byte;
                for (unsigned nibble : { byte & 15, byte >> 4 })
                {
                    const int step = imaStep (index[c]);
                    int diff = step >> 3;
                    if (nibble & 1) diff += step >> 2;
                    if (nibble & 2) diff += step >> 1;
                    if (nibble & 4) diff += step;
                    predictor[c] = clip16 (predictor[c] + (nibble & 8 ? -diff : diff));
                    static const int change[8] = { -1, -1, -1, -1, 2, 4, 6, 8 };
                    index[c] = std::max (0, std::min (88, index[c] + change[nibble & 7]));
                    o.value[c].push_back (predictor[c] / 32768.0);
                }
            }
}

const int msCoefs[7][2] = { { 256, 0 }, { 512, -256 }, { 0, 0 }, { 192, 64 }, { 240, 0 }, { 460, -208 }, { 392, -232 } };

// The predictor's division by 256 rounds down in some decoders and towards zero in others; they give value and alternative
void msBlock (Gen& g, pbt::Rng& rng, Other& o, std::string& data, size_t bytes)
{
    const size_t ch = o.channels;
    std::vector<int> which (ch), delta (ch), s1 (ch), s2 (ch);
    for (auto& x : which) { x = (int) g.draw (6); putLe (data, (std::uint64_t) x, 1); }
    for (auto& x : delta) { x = (int) g.size (16, 600); putLe (data, (std::uint64_t) x, 2); }
    for (auto& x : s1) { x = (int) g.draw (65535) - 32768; putLe (data, (std::uint64_t) x, 2); }
    for (auto& x : s2) { x = (int) g.draw (65535) - 32768; putLe (data, (std::uint64_t) x, 2); }
    std::string codes;
    const unsigned quiet = g.oneIn (3) ? 0x99 : 0xff;
    for (size_t i = 0; i < bytes; ++i) codes += (char) (rng.next() & quiet);
    for (size_t c = 0; c < ch; ++c)
        for (int down = 0; down < 2; ++down)
        {
            auto& out = (down ? o.alternative : o.value)[c];
            int a = s1[c], b = s2[c], d = delta[c];
            out.push_back (b / 32768.0); out.push_back (a / 32768.0);
            for (size_t k = c; k < 2 * bytes; k += ch)
            {
                int nibble = ((unsigned char) codes[k / 2] >> (k % 2 ? 0 : 4)) & 15;
                if (d > 20000 && nibble > 3 && nibble < 12 && ! o.wild)
                {
                    codes[k / 2] = (char) (codes[k / 2] ^ (nibble << (k % 2 ? 0 : 4)));
                    nibble = 0;
                }
                d = std::min (d, 2000000);
                const int sum = a * msCoefs[which[c]][0] + b * msCoefs[which[c]][1];
                const int p = clip16 ((down ? (int) std::floor (sum / 256.0) : sum / 256) + (nibble < 8 ? nibble : nibble - 16) * d);
                static const int adapt[16] = { 230, 230, 230, 230, 307, 409, 512, 614, 768, 614, 512, 409, 307, 230, 230, 230 };
                d = std::max (16, adapt[nibble] * d / 256);
                b = a; a = p;
                out.push_back (p / 32768.0);
            }
        }
    data += codes;
}

Other genOther (Gen& g)
{
    Other o;
    o.wild = g.oneIn (6);  // step sizes that no encoder lets grow this far
    pbt::Rng rng (g.draw (1u << 20));
    const int container = (int) g.draw (3);  // RIFF, RIFX, RF64, Wave64
    const bool big = container == 1;
    const int coding = g.flip() ? 0 : (int) g.size (1, container == 0 ? 4 : 2);  // PCM or float, A-law, mu-law; in RIFF also IMA, MS ADPCM
    auto put = [&] (std::string& s, std::uint64_t v, int n) { if (big) putBe (s, v, n); else putLe (s, v, n); };
    o.channels = coding >= 3 ? g.size (1, 2) : g.size (1, 4);
    o.rate = (std::uint32_t) g.pick ({ 44100, 48000, 8000, 192000 });
    o.value.resize (o.channels);
    o.alternative.resize (o.channels);
    int format = 1, bits = 8;
    size_t align = o.channels, factFrames = 0;
    std::string data, ext;

    if (coding == 0)
    {
        const Encoding e = encodings[g.draw (5)];
        format = e.format; bits = e.bits; align = o.channels * (size_t) bits / 8;
        o.frames = g.logSize (1, 900);
        const double full = std::ldexp (1.0, bits - 1);
        for (size_t f = 0; f < o.frames; ++f)
            for (size_t c = 0; c < o.channels; ++c)
            {
                double v = ((double) (rng.next() >> 11) / (double) (1ull << 52) - 1) * (e.format == 3 && f % 7 == 0 ? 30 : 1);
                std::uint64_t w;
                if (e.format == 3)
                {
                    v = (double) (float) v;
                    w = floatWord ((float) v);
                    if (bits == 64) std::memcpy (&w, &v, 8);
                }
                else
                {
                    std::int64_t q = f % 9 == 4 ? -(std::int64_t) full : f % 9 == 5 ? (std::int64_t) full - 1 : (std::int64_t) std::floor (v * full);
                    q = std::max<std::int64_t> (-(std::int64_t) full, std::min<std::int64_t> ((std::int64_t) full - 1, q));
                    v = (double) q / full;
                    w = (std::uint64_t) (bits == 8 ? q + 128 : q);
                }
                put (data, w, bits / 8);
                o.value[c].push_back (v);
            }
    }
    else if (coding <= 2)
    {
        format = coding == 1 ? 6 : 7;
        o.frames = g.logSize (1, 6000);
        const bool ramp = g.flip();
        for (size_t f = 0; f < o.frames; ++f)
            for (size_t c = 0; c < o.channels; ++c)
            {
                const unsigned char b = (unsigned char) (ramp ? f + 3 * c : rng.next());
                data += (char) b;
                o.value[c].push_back (coding == 1 ? alaw (b) : mulaw (b));
            }
        if (g.flip()) ext = std::string ("\0\0", 2);
    }
    else
    {
        format = coding == 3 ? 0x11 : 2;
        bits = 4;
        const size_t blocks = g.logSize (1, 12);
        const size_t n = g.mostly (3) ? g.size (1, 30) : g.pick ({ (size_t) 63, (size_t) 127 });
        const size_t bytes = n * o.channels;
        align = coding == 3 ? 4 * o.channels * (n + 1) : 7 * o.channels + bytes;
        for (size_t b = 0; b < blocks; ++b) { if (coding == 3) imaBlock (g, rng, o, data, n); else msBlock (g, rng, o, data, bytes); }
        o.frames = o.value[0].size();
        const size_t perBlock = o.frames / blocks;
        putLe (ext, coding == 3 ? 2 : 32, 2); putLe (ext, perBlock, 2);
        if (coding == 4) { putLe (ext, 7, 2); for (auto& k : msCoefs) for (int x : k) putLe (ext, (std::uint64_t) x, 2); }
        if (g.flip()) factFrames = o.frames;
    }
    for (auto* v : { &o.value, &o.alternative }) for (auto& c : *v) c.resize (std::min (c.size(), o.frames));

    std::string fmt;
    put (fmt, (std::uint64_t) format, 2); put (fmt, o.channels, 2); put (fmt, o.rate, 4); put (fmt, o.rate * align, 4); put (fmt, align, 2); put (fmt, (std::uint64_t) bits, 2);
    if (coding == 0 && ! big && g.oneIn (3))  // the extensible form, where a GUID names the coding
    {
        ext = std::string ("\x16\0", 2);
        putLe (ext, (std::uint64_t) bits, 2); putLe (ext, g.draw (63), 4); putLe (ext, (std::uint64_t) format, 2);
        ext += std::string ("\0\0\0\0\x10\0\x80\0\0\xAA\0\x38\x9B\x71", 14);
        fmt[0] = (char) 0xfe; fmt[1] = (char) 0xff;
    }
    fmt += ext;
    const bool extra = g.oneIn (3);
    if (container == 3)
    {
        const std::string tail ("\xF3\xAC\xD3\x11\x8C\xD1\x00\xC0\x4F\x8E\xDB\x8A", 12);
        std::string body;
        auto add = [&] (const std::string& id, const std::string& b) { body += id + tail; putLe (body, 24 + b.size(), 8); body += b; while (body.size() % 8) body += '\0'; };
        if (extra) add ("junk", std::string (g.size (0, 20), 'j'));
        add ("fmt ", fmt);
        if (g.oneIn (3)) { std::string b; putLe (b, o.frames, 8); add ("fact", b); }
        if (extra) add ("levl", std::string (g.size (0, 20), 'l'));
        add ("data", data);
        if (g.oneIn (3)) add ("bext", std::string (g.size (0, 20), 'b'));
        o.bytes = "riff" + std::string ("\x2E\x91\xCF\x11\xA5\xD6\x28\xDB\x04\xC1\x00\x00", 12);
        putLe (o.bytes, 40 + body.size(), 8);
        o.bytes += "wave" + tail + body;
    }
    else
    {
        std::vector<Chunk> cs;
        if (container == 2)
        {
            std::string ds;
            const size_t table = g.oneIn (3) ? g.size (1, 3) : 0, whole = 4 + 8 + 28 + 12 * table + 8 + fmt.size() + (fmt.size() & 1) + 8 + data.size() + (data.size() & 1);
            putLe (ds, whole, 8); putLe (ds, data.size(), 8); putLe (ds, g.flip() ? o.frames : 0, 8); putLe (ds, table, 4);
            for (size_t i = 0; i < table; ++i) { ds += "levl"; putLe (ds, g.draw (1000), 8); }
            cs.push_back (chunk ("ds64", ds));
            if (extra) cs.push_back (chunk ("bext", std::string (g.size (0, 20), 'b')));
        }
        else if (extra) cs.push_back (chunk ("JUNK", std::string (g.size (0, 20), 'j')));
        cs.push_back (chunk ("fmt ", fmt));
        if (factFrames) { std::string b; put (b, factFrames, 4); cs.push_back (chunk ("fact", b)); }
        cs.push_back (chunk ("data", data));
        if (container == 2) cs.back().size = 0xffffffffu;
        if (g.oneIn (3)) cs.push_back (chunk ("LIST", std::string (g.size (0, 20), 'l')));
        o.bytes = assemble (cs, container == 1 ? "RIFX" : container == 2 ? "RF64" : "RIFF", "WAVE", big);
    }
    const char* containers[] = { "RIFF", "RIFX", "RF64", "Wave64" };
    const char* codings[] = { "", "A-law", "mu-law", "IMA ADPCM", "MS ADPCM" };
    o.what = std::string (containers[container]) + " " + (coding ? codings[coding] : (format == 3 ? "float" : "pcm") + std::to_string (bits));
    return o;
}

std::uint64_t leAt (const std::string& s, size_t at, int n) { std::uint64_t v = 0; for (int i = 0; i < n && at + (size_t) i < s.size(); ++i) v |= (std::uint64_t) (unsigned char) s[at + (size_t) i] << (8 * i); return v; }

void damage (Gen& g, std::string& s)
{
    const size_t n = g.logSize (1, 6);
    for (size_t i = 0; i < n; ++i)
    {
        if (s.empty()) return;
        const size_t head = std::min<size_t> (s.size(), 100);
        const size_t at = g.mostly (4) ? g.size (0, head - 1) : g.size (0, s.size() - 1);
        switch (g.draw (7))
        {
            case 0: s[at] = (char) g.draw (255); break;
            case 1: s.resize (g.flip() ? at : g.size (0, s.size())); break;
            case 2: case 3: case 4:  // a field of the header is replaced with a telling value
            {
                static const struct { size_t offset; int bytes; } fields[] = { { 4, 4 }, { 16, 4 }, { 20, 2 }, { 22, 2 }, { 24, 4 }, { 28, 4 }, { 32, 2 }, { 34, 2 }, { 36, 2 }, { 40, 4 }, { 38, 2 }, { 44, 2 } };
                const auto f = fields[g.draw (11)];
                const std::uint64_t values[] = { 0, 1, 2, 3, 4, 8, 12, 16, 24, 32, 64, 255, 0x7fff, 0xffff, 0x7fffffff, 0x80000000u, 0xffffffffu, s.size(), s.size() * 2, 0x10000, 40000000, 6, 7, 0x11, 0xfffe, 0xfffffff0u, (std::uint64_t) -26, (std::uint64_t) -8 };
                const std::uint64_t v = g.flip() ? values[g.draw (sizeof (values) / sizeof (values[0]) - 1)] : g.draw (0xffffffffu);
                for (int b = 0; b < f.bytes && f.offset + (size_t) b < s.size(); ++b) s[f.offset + (size_t) b] = (char) ((v >> (8 * b)) & 0xff);
                break;
            }
            case 5: { const size_t k = g.size (1, 16); s.insert (at, std::string (k, (char) g.draw (255))); break; }
            case 6: s.erase (at, g.size (1, 16)); break;
            default: { const size_t len = std::min<size_t> (g.size (1, 40), s.size() - at); s.insert (g.size (0, s.size()), s.substr (at, len)); break; }
        }
    }
}

template <typename T> void property (Gen& g)
{
    static int counter = 0;
    // If possible, on a file system where offsets far beyond the end of the file are legal
    static const char* shm = getenv ("PBT_SHM");
    static const bool useShm = shm && access (shm, W_OK) == 0;
    const std::string path = (useShm ? std::string (shm) + "/" + std::to_string (getpid()) + "-" : g.workDir + "/f") + std::to_string (counter++ % 16) + ".wav";
    setCli ([&] { Cli c; c.dataRoot = g.workDir; return c; }());
    const bool loop = g.oneIn (6);
    const int kind = (int) g.draw (7);

    if (kind == 7)
    {
        const Other o = genOther (g);
        g.note ([&] (auto& s) { s << "well-formed " << o.what << ", " << o.channels << " channels, " << o.frames << " frames, rate " << o.rate << ", " << o.bytes.size() << " bytes"; });
        g.label ("well-formed " + o.what);
        writeFile (path, o.bytes);
        const auto r = open<T> (g, path, o.rate, g.size (1, o.channels), o.frames + g.size (1, 40), false, true);
        PBT_CHECK (! r.refused, "a well-formed " << o.what << " file is refused");
        PBT_CHECK (r.channels == o.channels, "the " << o.what << " file has " << o.channels << " channels, up to " << r.channels << " are supported");
        for (size_t c = 0; c < r.audio.size() && ! (o.wild && o.what == "RIFF MS ADPCM"); ++c)
        {
            std::string why[2];
            for (int k = 0; k < 2; ++k)  // the whole channel as one of the two decoders gives it
            {
                const auto& want = k ? o.alternative[c] : o.value[c];
                if (want.empty()) { why[k] = why[0]; continue; }
                for (size_t f = 0; f < r.audio[c].size() && why[k].empty(); ++f)
                {
                    const double x = f < want.size() ? want[f] : 0, got = (double) r.audio[c][f];
                    const double tol = f >= want.size() || o.what.find ("float") != std::string::npos ? 0 : o.what.find ("pcm8") != std::string::npos ? 1.01 / 128 : 1.01 / 32768;
                    if (! (std::abs (got - x) <= tol)) why[k] = "frame " + std::to_string (f) + " of " + std::to_string (want.size()) + " on channel " + std::to_string (c) + " is " + std::to_string (got) + ", the file encodes " + std::to_string (x);
                }
            }
            PBT_CHECK (why[0].empty() || why[1].empty(), "well-formed " << o.what << ": " << why[0]);
        }
        g.nontrivial();
        return;
    }

    if (kind <= 3)
    {
        const Pcm p = genPcm (g, kind == 0 && g.oneIn (10) ? 3000 : 200);
        size_t extras = 0;
        auto chunks = genChunks (g, p, extras);
        std::string bytes = assemble (chunks);
        g.note ([&] (auto& s) { s << (kind == 0 ? "well-formed " : "damaged ") << (p.enc.format == 3 ? "float " : "pcm ") << p.enc.bits << "-bit, " << p.channels << " channels, " << p.frames << " frames, rate " << p.rate
            << (p.extensible ? ", extensible" : "") << ", " << extras << " extra chunks, " << bytes.size() << " bytes"; });
        g.label ((kind == 0 ? "well-formed " : kind == 1 ? "truncated " : kind == 2 ? "data size changed " : "damaged ") + std::string (p.enc.format == 3 ? "float" : "pcm") + std::to_string (p.enc.bits));
        const size_t want = g.size (1, p.channels);

        if (kind == 0)
        {
            writeFile (path, bytes);
            const auto r = open<T> (g, path, p.rate, want, p.frames + g.size (1, 40), false, true);
            PBT_CHECK (! r.refused, "a well-formed file is refused");
            PBT_CHECK (r.channels == p.channels, "the file has " << p.channels << " channels, up to " << r.channels << " are supported");
            checkContent (r, p, p.frames, "well-formed");
            if (p.frames && (extras || p.extensible || p.enc.bits != 16)) g.nontrivial();
            return;
        }

        size_t dataAt = 12;
        size_t dataIndex = 0;
        for (; chunks[dataIndex].id != "data"; ++dataIndex) dataAt += 8 + chunks[dataIndex].body.size() + (chunks[dataIndex].body.size() & 1);
        const size_t align = p.channels * (size_t) p.enc.bits / 8;

        if (kind == 1)  // the end of the file is missing: what is left is honest
        {
            const size_t at = g.flip() && p.data.size() ? dataAt + 8 + g.size (0, p.data.size() - 1) : g.size (0, bytes.size() - 1);
            bytes.resize (at);
            g.note ([&] (auto& s) { s << "truncated to " << at << " bytes"; });
            writeFile (path, bytes);
            const auto r = open<T> (g, path, p.rate, want, p.frames + 20, false, at >= dataAt + 8);
            if (r.refused) { g.label ("refused"); if (at > dataAt + 8) g.nontrivial(); return; }
            size_t left = at > dataAt + 8 ? std::min (p.frames, (at - dataAt - 8) / align) : 0;
            if (r.audio.empty()) return;
            // Fewer frames than are left would be honest too, but not more
            size_t played = 0;
            for (auto& c : r.audio) for (size_t f = 0; f < c.size(); ++f) if (c[f] != 0) played = std::max (played, f + 1);
            PBT_CHECK (played <= left, "frame " << played - 1 << " sounds, but only " << left << " whole frames are in the file");
            checkContent (r, p, left, "truncated");
            g.label ("plays");
            if (left) g.nontrivial();
            return;
        }

        if (kind == 2)  // the data chunk claims another size, so that less is audio
        {
            if (p.data.empty()) return;
            const std::uint32_t size = (std::uint32_t) g.size (0, p.data.size() - 1);
            chunks.resize (dataIndex + 1);
            chunks[dataIndex].size = size;
            bytes = assemble (chunks);
            g.note ([&] (auto& s) { s << "data chunk of " << p.data.size() << " bytes claims " << size; });
            writeFile (path, bytes);
            const auto r = open<T> (g, path, p.rate, want, p.frames + 20, false, true);
            if (r.refused) { g.label ("refused"); return; }
            checkContent (r, p, size / align, "shortened");
            g.nontrivial();
            return;
        }

        damage (g, bytes);
        writeFile (path, bytes);
        g.note ([&] (auto& s) { s << "damaged to " << bytes.size() << " bytes: "; for (size_t i = 0; i < std::min<size_t> (bytes.size(), 64); ++i) { char b[4]; snprintf (b, 4, "%02x", (unsigned char) bytes[i]); s << b; } });
        const size_t bound = 2 * bytes.size() + 16;  // no encoding packs more than two samples into a byte
        const size_t f = bytes.find ("fmt ");
        const double rate = f == std::string::npos ? 44100 : (double) leAt (bytes, f + 12, 4);
        const auto r = open<T> (g, path, rate, 0, std::min<size_t> (bound + 50, 12000), loop, false);
        if (! loop) for (auto& c : r.audio) for (size_t k = bound; k < c.size(); ++k) PBT_CHECK (c[k] == 0, "frame " << k << " sounds, although the file has only " << bytes.size() << " bytes");
        g.labelIf (r.refused, "refused");
        g.labelIf (! r.audio.empty(), "plays");
        g.nontrivial();
        return;
    }

    std::string bytes;
    if (kind == 4)
    {
        bytes = genExotic (g);
        if (g.flip()) damage (g, bytes);
        g.label ("exotic");
    }
    else if (kind == 5)  // chunk soup
    {
        std::vector<Chunk> cs;
        const size_t n = g.size (0, 5);
        for (size_t i = 0; i < n; ++i)
        {
            if (g.oneIn (3)) { cs.push_back (genExtra (g)); if (g.flip()) cs.back().id = "fact"; continue; }
            const Pcm p = genPcm (g, 40);
            cs.push_back (g.flip() ? chunk ("fmt ", fmtBody (g, p)) : chunk ("data", p.data));
            if (g.oneIn (3)) cs.back().size = (std::uint32_t) g.draw (g.flip() ? 300 : 0xffffffffu);
        }
        bytes = assemble (cs);
        g.label ("chunk soup");
    }
    else  // anything
    {
        const size_t n = g.logSize (0, 200);
        if (g.flip()) bytes = "RIFF\x10\x10\x01\x01WAVE";
        if (g.flip()) bytes += std::string ("fmt \x10\0\0\0\1\0\1\0\x44\xac\0\0\x88\x58\1\0\2\0\x10\0", 24);
        for (size_t i = 0; i < n; ++i) bytes += (char) g.draw (255);
        g.label ("bytes");
    }

    writeFile (path, bytes);
    g.note ([&] (auto& s) { s << bytes.size() << " bytes: "; for (size_t i = 0; i < std::min<size_t> (bytes.size(), 96); ++i) { char b[4]; snprintf (b, 4, "%02x", (unsigned char) bytes[i]); s << b; } });
    const size_t bound = 2 * bytes.size() + 16;
    const size_t f = bytes.find ("fmt ");
    double rate = f == std::string::npos || kind == 4 ? 44100 : (double) leAt (bytes, f + 12, 4);
    const auto r = open<T> (g, path, rate, 0, std::min<size_t> (bound + 50, 12000), loop, false);
    if (! loop) for (auto& c : r.audio) for (size_t k = bound; k < c.size(); ++k) PBT_CHECK (c[k] == 0, "frame " << k << " sounds, although the file has only " << bytes.size() << " bytes");
    g.labelIf (r.refused, "refused");
    g.labelIf (! r.audio.empty(), "plays");
    if (bytes.size() > 12) g.nontrivial();
}

}  // namespace

HV_BOTH_TYPES (property)
PBT_MAIN ("C20", "x", propertyDispatch)
