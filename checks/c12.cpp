// C12: which files a run leaves behind, where, and what is in them.
#include "common.hpp"
#include <filesystem>

using namespace hv;
namespace fs = std::filesystem;

namespace
{

struct Plot { bool ok = false; std::string why; std::vector<std::vector<std::pair<double, double>>> lines[2]; };

// The figure holds two plots (input, output); in each, one polyline per channel, written last channel first
Plot parsePlot (const std::string& path)
{
    Plot p;
    std::ifstream f (path, std::ios::binary);
    std::stringstream ss; ss << f.rdbuf();
    const std::string s = ss.str();
    size_t end = s.size();
    while (end > 0 && std::isspace ((unsigned char) s[end - 1])) --end;
    if (s.find ("<svg") == std::string::npos || end < 6 || s.compare (end - 6, 6, "</svg>") != 0) { p.why = "not a complete svg file"; return p; }

    int group = -1;
    for (size_t at = 0;;)
    {
        const size_t axis = s.find ("class=\"svg-plot-axis\"", at), line = s.find ("<path class=\"svg-plot-line", at);
        if (axis == std::string::npos && line == std::string::npos) break;
        if (axis < line) { ++group; at = axis + 5; continue; }
        if (group < 0 || group > 1) { p.why = "a line outside the two plots"; return p; }
        const size_t d = s.find (" d=\"", line), end = s.find ('"', d + 4);
        std::string text = s.substr (d + 4, end - d - 4);
        for (char& c : text) if (c == 'M') c = ' ';
        std::istringstream in (text);
        in.imbue (std::locale::classic());
        std::vector<std::pair<double, double>> points;
        double x, y;
        while (in >> x >> y) points.emplace_back (x, y);
        p.lines[group].insert (p.lines[group].begin(), points);
        at = end;
    }
    if (group != 1) { p.why = "there are " + std::to_string (group + 1) + " plots instead of 2"; return p; }
    p.ok = true;
    return p;
}

template <typename T> void checkTraces (const std::vector<std::vector<std::pair<double, double>>>& lines, const Chans<T>& data, double rate, const char* what)
{
    PBT_CHECK (lines.size() == data.size(), "the " << what << " plot has " << lines.size() << " traces for " << data.size() << " channels");
    const size_t n = data[0].size();
    double peak = 0;
    for (auto& c : data) for (auto x : c) peak = std::max (peak, std::abs ((double) x));
    if (peak == 0 || ! std::isfinite (peak)) return;  // an axis of zero height

    // The time axis ends at the last sample, or at a mark up to the end of the audio
    const double last = (double) (n - 1) / rate;
    double xMax = last;
    for (double t = 0.1; t < (double) n / rate + 1e-6; t += 0.1) xMax = std::max (xMax, t);
    if (xMax == 0) return;

    for (size_t c = 0; c < data.size(); ++c)
    {
        const auto& p = lines[c];
        PBT_CHECK (! p.empty(), "the " << what << " trace of channel " << c << " is empty");
        for (size_t i = 1; i < p.size(); ++i)
            PBT_CHECK (p[i].first >= p[i - 1].first, "the " << what << " trace of channel " << c << " runs backwards in time");
        PBT_CHECK (std::abs (p.front().first) < 0.02, "the " << what << " trace of channel " << c << " starts at " << p.front().first << " px");
        PBT_CHECK (std::abs (p.back().first - 1200 * last / xMax) < 0.05, "the " << what << " trace of channel " << c << " ends at " << p.back().first << " px of 1200, the audio at " << 1200 * last / xMax);

        if (n > 2000) continue;  // several frames per pixel: the plot library drops points, on purpose
        size_t seg = 0;
        for (size_t f = 0; f < n; ++f)
        {
            const double x = 1200 * ((double) f / rate) / xMax, y = 100 - 100 * (double) data[c][f] / peak;
            // anything the polyline does within a hair of this time
            while (seg + 1 < p.size() && p[seg + 1].first < x - 0.03) ++seg;
            double lo = 1e300, hi = -1e300;
            for (size_t k = seg; k < p.size() && p[k].first <= x + 0.03; ++k)
            {
                if (p[k].first >= x - 0.03) { lo = std::min (lo, p[k].second); hi = std::max (hi, p[k].second); }
                if (k + 1 < p.size() && p[k + 1].first > p[k].first)
                {
                    const double t = std::max (0.0, std::min (1.0, (x - p[k].first) / (p[k + 1].first - p[k].first)));
                    const double v = p[k].second + t * (p[k + 1].second - p[k].second);
                    lo = std::min (lo, v); hi = std::max (hi, v);
                }
            }
            PBT_CHECK (y >= lo - 2 && y <= hi + 2, "the " << what << " trace of channel " << c << " is at " << lo << ".." << hi << " px at frame " << f << ", the sample " << (double) data[c][f] << " is at " << y << " px");
        }
    }
}

template <typename T> class Verdict : public hart::Matcher<T>
{
    using SampleType = T;
public:
    Verdict (bool v, bool b, size_t at) : verdict (v), perBlock (b), failAt (at) {}
    void prepare (double, size_t, size_t) override {}
    bool match (const hart::AudioBuffer<T>& a) override { const size_t from = seen; seen += a.getNumFrames(); return verdict || ! (failAt >= from && failAt < seen); }
    bool canOperatePerBlock() override { return perBlock; }
    void reset() override { seen = 0; }
    hart::MatcherFailureDetails getFailureDetails() const override { hart::MatcherFailureDetails d; d.frame = 0; d.channel = 0; d.description = "x"; return d; }
    void represent (std::ostream& s) const override { s << "Verdict()"; }
    HART_MATCHER_DEFINE_COPY_AND_MOVE (Verdict);
    bool verdict, perBlock;
    size_t failAt, seen = 0;
};

template <typename T> void property (Gen& g)
{
    const std::string base = g.workDir + "/case";
    fs::remove_all (base);
    fs::create_directories (base + "/root/sub/deep");
    fs::create_directories (base + "/abs");
    fs::create_directories (base + "/cwd");
    if (chdir ((base + "/cwd").c_str()) != 0) g.fail ("harness: chdir");

    Cli cli;
    const bool rootIsCwd = g.oneIn (8);
    cli.dataRoot = rootIsCwd ? "." : base + "/root" + (g.flip() ? "/" : "");
    setCli (cli);
    const std::string root = rootIsCwd ? base + "/cwd" : base + "/root";
    if (rootIsCwd) fs::create_directories (root + "/sub/deep");

    HostCfg h;
    const bool isLong = g.oneIn (600);
    g.labelIf (isLong, "more than 65534 frames");
    h.frames = isLong ? genLongFrames (g) : g.logSize (1, 250);
    h.block = isLong ? genLongBlock (g, h.frames) : genBlock (g, h.frames);
    h.sampleRate = g.flip() ? std::floor (genSampleRate (g)) + 100 : 44100;
    h.duration = (double) h.frames / h.sampleRate;
    h.inCh = ! isLong && g.oneIn (40) ? genChannels (g) : g.size (1, 3);
    h.outCh = g.flip() ? h.inCh : ! isLong && g.oneIn (20) ? genChannels (g) : g.size (1, 3);
    const auto source = genData<double> (g, h.inCh, h.frames, g.oneIn (3) ? withLoud : ordinary);
    Chans<T> in (h.inCh);
    for (size_t c = 0; c < h.inCh; ++c) in[c].assign (source[c].begin(), source[c].end());

    const double gain = g.pick ({ 1.0, 0.5, -2.0 });
    const bool useGain = h.inCh == h.outCh || h.inCh == 1;
    Chans<T> out (h.outCh);
    for (size_t c = 0; c < h.outCh; ++c)
    {
        out[c] = in[h.inCh == 1 ? 0 : std::min (c, h.inCh - 1)];
        if (useGain) for (auto& x : out[c]) x = (T) (x * (T) gain);
    }

    auto b = useGain ? hart::AudioTestBuilder<T> (hart::GainLinear<T> (gain)) : hart::AudioTestBuilder<T> (ThruDsp<T>());
    const int refusal = g.oneIn (15) ? 1 + (int) g.draw (1) : 0;
    applyHost (b, h);
    if (refusal == 1) b.withDuration (0);
    if (refusal != 2) b.withInputSignal (DataSignal<T> (in));

    // Where and when
    struct Target { bool used = false; std::string path, full; hart::Save mode = hart::Save::never; hart::WavFormat format = hart::WavFormat::pcm24; } wav, plot;
    std::vector<std::pair<std::string, std::string>> before;  // files that exist already

    auto genPath = [&] (const char* stem, const char* ext, Target& t)
    {
        const std::string file = std::string (stem) + (g.oneIn (4) ? " x" : "") + ext;
        switch (g.draw (3))
        {
            case 0: t.path = file; t.full = root + "/" + file; break;
            case 1: t.path = "sub/" + file; t.full = root + "/" + t.path; break;
            case 2: t.path = base + "/abs/" + file; t.full = t.path; break;
            default: t.path = "sub/deep/../" + file; t.full = root + "/sub/" + file; break;
        }
        t.used = true;
        t.mode = g.pick ({ hart::Save::always, hart::Save::whenFails, hart::Save::never });
    };

    auto saveWav = [&] (const char* stem)
    {
        genPath (stem, ".wav", wav);
        wav.format = g.pick ({ hart::WavFormat::float32, hart::WavFormat::pcm24, hart::WavFormat::pcm16, hart::WavFormat::pcm32 });
        if (wav.mode == hart::Save::always && g.flip()) { b.saveOutputTo (wav.path); wav.format = hart::WavFormat::pcm24; }
        else b.saveOutputTo (wav.path, wav.mode, wav.format);
    };
    auto savePlot = [&] (const char* stem)
    {
        genPath (stem, ".svg", plot);
        if (plot.mode == hart::Save::always && g.flip()) b.savePlotTo (plot.path);
        else b.savePlotTo (plot.path, plot.mode);
    };

    if (g.mostly (5)) { saveWav ("o"); if (g.oneIn (6)) saveWav ("second"); }
    if (g.mostly (3)) { savePlot ("p"); if (g.oneIn (6)) savePlot ("second"); }

    // Checks with a known outcome
    const size_t checks = g.size (0, 4);
    bool anyFailed = false, assertFailed = false;
    for (size_t i = 0; i < checks; ++i)
    {
        const bool assertion = g.flip(), positive = g.flip(), holds = g.mostly (3) ? positive : ! positive;
        addCheck (b, Verdict<T> (holds, g.flip(), g.size (0, h.frames - 1)), assertion, positive, g.flip());
        if (holds != positive) { anyFailed = true; assertFailed |= assertion; }
        g.note ([&] (auto& s) { s << "  " << (assertion ? "assert" : "expect") << (positive ? "True" : "False") << (holds != positive ? " fails" : " holds"); });
    }

    // A file of that name may be there already, shorter or longer than the new one
    for (Target* t : { &wav, &plot })
        if (t->used && g.oneIn (5))
        {
            std::string old = "old contents of the file";
            if (g.flip()) old.resize (g.logSize (25, 30000), 'x');
            writeFile (t->full, old);
            before.emplace_back (t->full, old);
            g.label ("a file of that name is there already");
        }

    const char* modes[] = { "always", "whenFails", "never" };
    g.note ([&] (auto& s) { s << h << (refusal ? ", refused" : "") << "; wav " << (wav.used ? wav.path + " " + modes[(int) wav.mode] : std::string ("-")) << "; plot " << (plot.used ? plot.path + " " + modes[(int) plot.mode] : std::string ("-")); });

    hart::ExpectationFailureMessages::clear();
    bool assertThrown = false, otherThrown = false;
    try { b.process(); }
    catch (const hart::TestAssertException&) { assertThrown = true; }
    catch (const std::exception&) { otherThrown = true; }
    hart::ExpectationFailureMessages::clear();

    PBT_CHECK (otherThrown == (refusal != 0), (refusal ? "the run was not refused" : "the run was refused"));
    PBT_CHECK (assertThrown == (! refusal && assertFailed), "assertion error: " << assertThrown << ", a failed assertion: " << assertFailed);

    auto due = [&] (const Target& t) { return t.used && ! refusal && (t.mode == hart::Save::always || (t.mode == hart::Save::whenFails && anyFailed)); };
    std::set<std::string> expected;
    if (due (wav)) expected.insert (fs::weakly_canonical (wav.full).string());
    if (due (plot)) expected.insert (fs::weakly_canonical (plot.full).string());

    std::set<std::string> found;
    for (auto& e : fs::recursive_directory_iterator (base))
        if (! e.is_directory()) found.insert (fs::weakly_canonical (e.path()).string());
        else PBT_CHECK (e.path().filename() == "root" || e.path().filename() == "sub" || e.path().filename() == "deep" || e.path().filename() == "abs" || e.path().filename() == "cwd", "the run created a directory " << e.path());

    for (auto& e : before)
    {
        const std::string canonical = fs::weakly_canonical (e.first).string();
        if (expected.count (canonical)) continue;
        PBT_CHECK (found.count (canonical), "the run removed " << e.first);
        std::ifstream f (e.first);
        std::stringstream ss; ss << f.rdbuf();
        PBT_CHECK (ss.str() == e.second, "the run changed " << e.first << ", although it should not save");
        found.erase (canonical);
    }
    for (auto& e : expected) PBT_CHECK (found.count (e), "not saved: " << e << (anyFailed ? " (a check failed)" : " (no check failed)"));
    for (auto& f : found) PBT_CHECK (expected.count (f), "saved although not due: " << f << (anyFailed ? " (a check failed)" : " (no check failed)"));

    if (due (wav))
    {
        const WavContent w = readWav (wav.full);
        PBT_CHECK (w.ok, "the saved wav file is not readable: " << w.why);
        PBT_CHECK (w.channels == h.outCh && w.frames == h.frames && w.rate == h.sampleRate, "the wav file holds " << w.channels << " channels, " << w.frames << " frames at " << w.rate << " Hz");
        const bool isFloat = wav.format == hart::WavFormat::float32;
        PBT_CHECK (w.bits == (wav.format == hart::WavFormat::pcm16 ? 16 : wav.format == hart::WavFormat::pcm24 ? 24 : 32) && w.format == (isFloat ? 3 : 1), "the wav file has another format: " << w.bits << " bits, tag " << w.format);
        const double full = std::ldexp (1.0, w.bits - 1) - 1;
        for (size_t f = 0; f < h.frames; ++f)
            for (size_t c = 0; c < h.outCh; ++c)
            {
                const double x = (double) out[c][f], got = isFloat ? (double) wordFloat ((std::uint64_t) w.words[f * h.outCh + c]) : (double) w.words[f * h.outCh + c] / full;
                const double want = isFloat ? (double) (float) x : std::max (-1.0, std::min (1.0, x));
                PBT_CHECK (std::abs (got - want) <= (isFloat ? 0 : 2.0 / full) || got == want, "wav file, channel " << c << " frame " << f << ": " << got << ", the output is " << x);
            }
    }

    if (due (plot))
    {
        const Plot p = parsePlot (plot.full);
        PBT_CHECK (p.ok, "the plot: " << p.why);
        checkTraces (p.lines[0], in, h.sampleRate, "input");
        checkTraces (p.lines[1], out, h.sampleRate, "output");
    }

    g.labelIf (anyFailed && ! assertFailed, "expectation failed");
    g.labelIf (assertFailed, "assertion failed");
    g.labelIf (checks && ! anyFailed, "all checks hold");
    g.labelIf (due (wav), "wav saved");
    g.labelIf (due (plot), "plot saved");
    g.labelIf (refusal != 0, "refused run");
    if (wav.used || plot.used) g.nontrivial();
    if (chdir (g.workDir.c_str()) != 0) {}
}

}  // namespace

HV_BOTH_TYPES (property)
PBT_MAIN ("C12", "x", propertyDispatch)
