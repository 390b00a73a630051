// C05: what the reports of failed checks say, compared with the audio.
#include "common.hpp"

using namespace hv;

namespace
{

struct Field { bool found = false, nan = false; double value = 0; };

Field numberAfter (const std::string& text, const std::string& key, size_t from = 0)
{
    Field f;
    const size_t p = text.find (key, from);
    if (p == std::string::npos) return f;
    const char* s = text.c_str() + p + key.size();
    char* end = nullptr;
    f.value = std::strtod (s, &end);
    f.found = end != s;
    f.nan = std::isnan (f.value);
    return f;
}

// The "(x dB)" that follows a position
Field dbAfter (const std::string& text, const std::string& key)
{
    Field f;
    const size_t p = text.find (key);
    if (p == std::string::npos) return f;
    const size_t q = text.find ('(', p);
    if (q == std::string::npos || text.find (" dB)", q) == std::string::npos) return f;
    return numberAfter (text, "(", q);
}

double toDb (double v) { v = std::abs (v); return v < 1e-6 ? -120.0 : 20 * std::log10 (v); }

template <typename T> void property (Gen& g)
{
    const HostCfg h = genHost (g, 1200, true, 600);
    Cli cli;
    cli.dataRoot = g.workDir;
    cli.sec = g.pick ({ 3, 9, 6, 12, 0 });
    cli.lin = g.pick ({ 6, 9, 3, 12, 1 });
    cli.db = g.pick ({ 1, 3, 6, 0 });
    setCli (cli);
    const double halfSec = 0.5001 * std::pow (10.0, -cli.sec), halfLin = 0.5001 * std::pow (10.0, -cli.lin), halfDb = 0.5001 * std::pow (10.0, -cli.db);

    const auto data = genData<T> (g, h.outCh, h.frames, g.oneIn (6) ? withNan : withLoud);
    double peak = 0;
    bool nan = false, infinite = false;
    for (auto& c : data) for (T v : c) { if (std::isnan (v)) nan = true; else peak = std::max (peak, (double) std::abs (v)); infinite |= std::isinf (v); }
    if (infinite) g.discard();

    const std::string label = g.oneIn (3) ? "" : "a test with label " + std::to_string (g.draw (1000));
    auto b = hart::processAudioWith (ThruDsp<T>());
    applyHost (b, h);
    b.withInputSignal (DataSignal<T> (data));
    if (! label.empty()) b.withLabel (label);

    const bool assertion = g.oneIn (3), positive = g.mostly (4), lvalue = g.flip();
    const int kind = (int) g.draw (2);
    Chans<T> ref;
    double tol = 0, limit = 0, target = 0;
    std::string condition;

    auto add = [&] (auto m)
    {
        std::ostringstream s;
        s << m;
        condition = s.str();
        addCheck (b, std::move (m), assertion, positive, lvalue);
    };

    const size_t bystanders = g.size (0, 2);
    for (size_t i = 0; i < bystanders; ++i) b.assertTrue (hart::PeaksBelow<T> (400));  // (these never fail without NaN)

    if (kind == 0)
    {
        ref = data;
        for (auto& c : ref) for (T& v : c) if (std::isnan (v)) v = (T) 0.3;
        tol = g.pick ({ 1e-5, 1e-3, 0.1 });
        if (positive)
        {
            const size_t edits = nan ? 0 : g.size (1, 3);
            for (size_t i = 0; i < edits; ++i)
            {
                T& v = ref[g.size (0, h.outCh - 1)][g.size (0, h.frames - 1)];
                v = (T) ((double) v + (g.flip() ? 1 : -1) * (tol * 2 + g.pick ({ 0.0, 0.5, 0.001 }) + std::abs ((double) v) * 0.01));
            }
        }
        else if (nan) g.discard();
        bool differs = nan;
        for (size_t c = 0; c < ref.size(); ++c) for (size_t f = 0; f < ref[c].size(); ++f) differs |= std::abs ((double) ref[c][f] - (double) data[c][f]) > tol * 1.5;
        if (positive && ! differs) g.discard();  // edits that cancelled each other
        add (hart::EqualsTo<T> (DataSignal<T> (ref), tol));
    }
    else if (kind == 1)
    {
        if (peak < 1e-4 && ! nan) g.discard();
        const double db = positive ? 20 * std::log10 (std::max (peak, 1e-5)) - g.pick ({ 0.5, 6.0, 20.0, 60.0 }) : 20 * std::log10 (std::max (peak, 1e-5)) + 1;
        if (! positive && nan) g.discard();
        tol = std::min (1e-3, peak * 1e-3 + 1e-9);
        limit = std::pow (10.0, db / 20) + tol;
        add (hart::PeaksBelow<T> (db, tol));
    }
    else
    {
        if (peak < 1e-4 && ! nan) g.discard();
        const double db = 20 * std::log10 (std::max (peak, 1e-5)) + (positive ? g.pick ({ 1.0, -1.0, 6.0, -20.0, -60.0 }) : 0.0);
        if (! positive && nan) g.discard();
        tol = std::min (1e-3, peak * 1e-3 + 1e-9);
        target = std::pow (10.0, db / 20);
        add (hart::PeaksAt<T> (db, tol));
    }

    g.note ([&] (auto& s) { s << h << ", " << (assertion ? "assert" : "expect") << (positive ? "True" : "False") << " " << condition << ", decimals sec=" << cli.sec << " lin=" << cli.lin << " db=" << cli.db << " label=\"" << label << "\""; });

    hart::ExpectationFailureMessages::clear();
    std::string report;
    try { b.process(); }
    catch (const hart::TestAssertException& e) { report = e.what(); }
    std::vector<std::string> messages = hart::ExpectationFailureMessages::get();
    hart::ExpectationFailureMessages::clear();

    if (nan && bystanders > 0) g.discard();  // the bystanders fail as well then
    if (! assertion) { PBT_CHECK (messages.size() == 1, messages.size() << " failures recorded"); report = messages[0]; }
    PBT_CHECK (! report.empty(), "the failing check gave no report");
    g.note ([&] (auto& s) { s << "report:\n" << report; });

    const std::string kindText = std::string (assertion ? "assert" : "expect") + (positive ? "True" : "False");
    PBT_CHECK (report.find (kindText) != std::string::npos, "the report does not state its kind, " << kindText << ": " << report);
    for (const char* other : { "expectTrue", "expectFalse", "assertTrue", "assertFalse" })
        PBT_CHECK (other == kindText || report.find (other) == std::string::npos, "the report states another kind than " << kindText << ": " << report);
    PBT_CHECK (report.find (condition) != std::string::npos, "the report does not give its condition, " << condition << ": " << report);
    PBT_CHECK (label.empty() || report.find (label) != std::string::npos, "the report does not give its label, " << label << ": " << report);
    g.label (kindText);

    if (! positive) return;

    const Field channel = numberAfter (report, "Channel: "), time = numberAfter (report, "Timestamp: "), value = numberAfter (report, "Sample value: "), valueDb = dbAfter (report, "Sample value: ");
    PBT_CHECK (channel.found && time.found && value.found, "the report lacks the channel, timestamp or sample value: " << report);
    PBT_CHECK (channel.value >= 0 && channel.value < (double) h.outCh && channel.value == std::floor (channel.value), "channel " << channel.value << " of " << h.outCh << " channels");
    const auto& c = data[(size_t) channel.value];

    const Field expected = kind == 0 ? numberAfter (report, "Expected sample value: ") : Field(), expectedDb = dbAfter (report, "Expected sample value: ");
    const Field difference = kind == 0 ? numberAfter (report, "difference: ") : Field(), differenceDb = dbAfter (report, "difference: ");
    const size_t peaks = report.find ("Observed audio peaks at");
    if (kind == 0) PBT_CHECK (expected.found && difference.found, "the report lacks the expected value or the difference: " << report);
    else PBT_CHECK (peaks != std::string::npos, "the report lacks the observed peak: " << report);

    // Is there a frame at that time for which everything said is true?
    const double eps = sizeof (T) == 4 ? 1e-6 : 1e-12;
    const double first = std::floor ((time.value - halfSec) * h.sampleRate - 1e-3), last = std::ceil ((time.value + halfSec) * h.sampleRate + 1e-3);
    std::string why = "there is no frame at that time";
    bool good = false;
    size_t candidates = 0;
    for (double n = std::max (0.0, first); n <= last && n < (double) h.frames && ! good; ++n)
    {
        if (std::abs (n / h.sampleRate - time.value) > halfSec + 1e-9) continue;
        ++candidates;
        const double v = (double) c[(size_t) n];
        std::ostringstream w;
        w.precision (12);
        w << "frame " << n << " has value " << v << ": ";
        auto close = [] (double a, double b, double t) { return std::abs (a - b) <= t; };
        auto dbClose = [&] (const Field& f, double of, const char* name) { if (! f.found) { w << "no decibel figure for " << name; return false; } if (std::isnan (of)) return true; if (close (f.value, toDb (of), halfDb + 2e-3) || (std::abs (of) < 2e-6 && f.value <= -110)) return true; w << "decibel figure for " << name << " is " << f.value << " instead of " << toDb (of); return false; };

        if (std::isnan (v))
        {
            if (value.nan) { good = true; break; }
            w << "not what the report says"; why = w.str(); continue;
        }

        if (! close (value.value, v, halfLin + eps * std::abs (v))) { w << "the report says " << value.value; why = w.str(); continue; }
        if (! dbClose (valueDb, v, "the sample value")) { why = w.str(); continue; }

        if (kind == 0)
        {
            const double r = (double) ref[(size_t) channel.value][(size_t) n];
            const double d = std::abs (r - v);
            if (! (d > tol * 0.9999)) { w << "does not violate the condition, the reference is " << r; why = w.str(); continue; }
            if (! close (expected.value, r, halfLin + eps * std::abs (r))) { w << "expected value given as " << expected.value << " instead of " << r; why = w.str(); continue; }
            if (! close (difference.value, d, halfLin + eps * (std::abs (v) + std::abs (r)))) { w << "difference given as " << difference.value << " instead of " << d; why = w.str(); continue; }
            if (! dbClose (expectedDb, r, "the expected value") || (d > 1e-4 * (std::abs (v) + std::abs (r)) && ! dbClose (differenceDb, d, "the difference"))) { why = w.str(); continue; }
        }
        else
        {
            const Field observed = numberAfter (report, kind == 1 ? "at least " : "peaks at ", peaks);
            if (kind == 1 && ! (std::abs (v) > limit * 0.9999)) { w << "is not above the threshold"; why = w.str(); continue; }
            if (kind == 2 && ! (std::abs (v) >= peak)) { w << "is not the peak, " << peak; why = w.str(); continue; }
            if (! dbClose (observed, v, "the observed peak")) { why = w.str(); continue; }
        }
        good = true;
    }

    PBT_CHECK (good, "the report is not true: " << why << "\n" << report);
    g.labelIf (candidates == 1, "timestamp identifies the frame");
    g.labelIf (time.value * h.sampleRate >= (double) h.block, "fault after the first block");
    g.labelIf (nan, "NaN");
    static const char* names[] = { "EqualsTo", "PeaksBelow", "PeaksAt" };
    g.label (names[kind]);
    if (candidates == 1 && time.value > 0) g.nontrivial();
}

}  // namespace

HV_BOTH_TYPES (property)
PBT_MAIN ("C05", "x", propertyDispatch)
