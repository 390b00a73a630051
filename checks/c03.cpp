// C03: which checks fail, judged by an independent model of every condition.
#include "common.hpp"

using namespace hv;

namespace
{

// Matches if fewer than `limit` samples in total exceed 0.5 (whole signal), or if no sample is exactly `poison` (per block)
template <typename T> class CountBelow : public hart::Matcher<T>
{
    using SampleType = T;
public:
    CountBelow (size_t limit, std::string name) : limit (limit), name (name) {}
    void prepare (double, size_t, size_t) override {}
    bool match (const hart::AudioBuffer<T>& a) override
    {
        size_t n = 0;
        for (size_t c = 0; c < a.getNumChannels(); ++c) for (size_t f = 0; f < a.getNumFrames(); ++f) n += a[c][f] > (T) 0.5;
        return n < limit;
    }
    bool canOperatePerBlock() override { return false; }
    void reset() override {}
    hart::MatcherFailureDetails getFailureDetails() const override { return {}; }
    void represent (std::ostream& s) const override { s << name; }
    HART_MATCHER_DEFINE_COPY_AND_MOVE (CountBelow);
    size_t limit;
    std::string name;
};

// Block-capable and stateful: running count of frames must not reach `limit` with a positive first channel
template <typename T> class RunningBelow : public hart::Matcher<T>
{
    using SampleType = T;
public:
    RunningBelow (size_t limit, std::string name) : limit (limit), name (name) {}
    void prepare (double, size_t, size_t) override {}
    bool match (const hart::AudioBuffer<T>& a) override
    {
        for (size_t f = 0; f < a.getNumFrames(); ++f) { n += a[0][f] > 0; if (n >= limit) { frame = f; return false; } }
        return true;
    }
    bool canOperatePerBlock() override { return true; }
    void reset() override { n = 0; }
    hart::MatcherFailureDetails getFailureDetails() const override { hart::MatcherFailureDetails d; d.frame = frame; d.channel = 0; d.description = "too many"; return d; }
    void represent (std::ostream& s) const override { s << name; }
    HART_MATCHER_DEFINE_COPY_AND_MOVE (RunningBelow);
    size_t limit, n = 0, frame = 0;
    std::string name;
};

struct Plan { std::string header, condition; bool assertion, positive, verdict; };

template <typename T> double peakOf (const Chans<T>& d, bool& nan)
{
    double p = 0;
    for (auto& c : d) for (T v : c) { if (std::isnan (v)) nan = true; else p = std::max (p, (double) std::abs (v)); }
    return p;
}

template <typename T> void property (Gen& g)
{
    HostCfg h = genHost (g, 1500, true, 600);
    const auto data = genData<T> (g, h.outCh, h.frames, g.oneIn (4) ? withNan : ordinary);
    auto signal = DataSignal<T> (data);
    hart::AudioTestBuilder<T> b = hart::processAudioWith (ThruDsp<T>());
    applyHost (b, h);
    b.withInputSignal (signal);
    const std::string label = g.flip() ? "" : "label " + std::to_string (g.draw (9));
    if (! label.empty()) b.withLabel (label);
    g.note ([&] (auto& s) { s << h << " label=\"" << label << "\""; });

    bool nan = false;
    const double peak = peakOf (data, nan);
    if (std::isinf (peak)) g.discard();

    const bool crowd = h.frames < 300 && g.oneIn (80);
    std::vector<Plan> plans (crowd ? g.size (71, 400) : h.frames < 300 && g.oneIn (50) ? g.size (9, 70) : g.logSize (0, 8));
    g.labelIf (plans.size() > 8, "many checks");
    for (size_t i = 0; i < plans.size(); ++i)
    {
        Plan& p = plans[i];
        p.assertion = g.oneIn (crowd ? 20 : 3);
        p.positive = crowd ? g.mostly (4) : g.flip();
        const bool asLvalue = g.flip();
        auto add = [&] (auto m)
        {
            std::ostringstream cond;
            cond << m;
            p.condition = cond.str();
            addCheck (b, std::move (m), p.assertion, p.positive, asLvalue);
        };

        switch (crowd ? 3 + g.draw (1) : g.draw (4))
        {
            case 0:  // equal, or different at one or several places
            {
                auto ref = data;
                bool nanRef = false;
                for (auto& c : ref) for (T& v : c) if (std::isnan (v)) { v = (T) 0.1; nanRef = true; }
                const double tol = g.pick ({ 1e-5, 1e-3, 0.1, 0.0 });
                const bool differs = g.flip();
                const size_t places = differs ? g.size (1, 3) : 0;
                for (size_t k = 0; k < places; ++k)
                {
                    T& v = ref[g.size (0, h.outCh - 1)][g.size (0, h.frames - 1)];
                    v = (T) (std::max ((double) v, -1.0) + (v > 100 ? 1000.0 : 1.0) * (3 * tol + 0.01));
                }
                if (! differs && tol > 0 && g.flip())
                    for (auto& c : ref) for (T& v : c) if (std::abs (v) < 1) v = (T) (v + tol * 0.4);
                bool ok = true, unclear = false;
                for (size_t c = 0; c < ref.size(); ++c)
                    for (size_t f = 0; f < ref[c].size(); ++f)
                    {
                        const double d = std::abs ((double) ref[c][f] - (double) data[c][f]);
                        if (! (d <= tol)) ok = false;
                        if (tol > 0 && d > 0.7 * tol && d < 1.5 * tol) unclear = true;
                    }
                if (unclear) g.discard();
                p.verdict = ok && ! nanRef;
                add (hart::EqualsTo<T> (DataSignal<T> (ref), tol));
                break;
            }
            case 1:
            {
                const double threshold = g.flip() || peak < 1e-3 ? g.real (-60, 6) : 20 * std::log10 (peak) + g.pick ({ -3.0, -0.1, 0.1, 1.0 });
                const double tol = g.pick ({ 1e-3, 1e-6, 0.05 });
                const double limit = std::pow (10.0, threshold / 20) + tol;
                if (std::abs (peak - limit) < 1e-5 * (1 + limit)) g.discard();
                p.verdict = ! nan && peak < limit;
                add (hart::PeaksBelow<T> (threshold, tol));
                break;
            }
            case 2:
            {
                const double target = g.flip() || peak < 1e-3 ? g.real (-60, 6) : 20 * std::log10 (peak) + g.pick ({ 0.0, 0.0, -1.0, 1.0 });
                const double tol = g.pick ({ 1e-3, 1e-2, 0.3 });
                const double d = std::abs (peak - std::pow (10.0, target / 20));
                if (std::abs (d - tol) < 1e-5 * (1 + peak)) g.discard();
                p.verdict = ! nan && d < tol;
                add (hart::PeaksAt<T> (target, tol));
                break;
            }
            case 3:
            {
                size_t n = 0;
                for (auto& c : data) for (T v : c) n += v > (T) 0.5;
                const size_t limit = n + g.size (0, 2);
                p.verdict = n < limit;
                add (CountBelow<T> (limit, "CountBelow#" + std::to_string (i) + "#"));
                break;
            }
            default:
            {
                size_t n = 0;
                for (T v : data[0]) n += v > 0;
                const size_t limit = g.flip() ? std::max<size_t> (1, n + g.size (0, 1)) : g.size (1, n + 1);
                p.verdict = n < limit;
                add (RunningBelow<T> (limit, "RunningBelow#" + std::to_string (i) + "#"));
                break;
            }
        }

        p.header = std::string (p.assertion ? "assert" : "expect") + (p.positive ? "True" : "False") + "() failed";
        g.note ([&] (auto& s) { s << "  " << p.header.substr (0, 12) << (p.positive ? "" : "e") << " " << p.condition << ": condition " << (p.verdict ? "holds" : "does not hold"); });
    }

    const size_t earlier = g.oneIn (4) ? g.size (1, 2) : 0;
    hart::ExpectationFailureMessages::clear();
    for (size_t i = 0; i < earlier; ++i) hart::ExpectationFailureMessages::get().emplace_back ("earlier failure " + std::to_string (i));

    bool threw = false, returned = false;
    std::string thrown;
    try { returned = b.process() != nullptr; }
    catch (const hart::TestAssertException& e) { threw = true; thrown = e.what(); }

    std::vector<std::string> messages = hart::ExpectationFailureMessages::get();
    hart::ExpectationFailureMessages::clear();
    PBT_CHECK (messages.size() >= earlier, "earlier failures were dropped");
    for (size_t i = 0; i < earlier; ++i) PBT_CHECK (messages[i] == "earlier failure " + std::to_string (i), "earlier failures were changed");
    messages.erase (messages.begin(), messages.begin() + (long) earlier);

    auto names = [&] (const std::string& m, const Plan& p) { return m.find (p.header) != std::string::npos && m.find (p.condition) != std::string::npos && (label.empty() || m.find (label) != std::string::npos); };

    size_t failing = 0, expectsFailing = 0;
    bool assertFails = false, named = false;
    std::vector<char> used (messages.size(), 0);
    for (const Plan& p : plans)
    {
        if (p.verdict == p.positive) continue;
        ++failing;
        if (p.assertion) { assertFails = true; named |= threw && names (thrown, p); continue; }
        ++expectsFailing;
        bool found = false;
        for (size_t k = 0; k < messages.size() && ! found; ++k)
            if (! used[k] && names (messages[k], p)) { used[k] = 1; found = true; }
        PBT_CHECK (found, p.header << " for " << p.condition << " should have been recorded, but is not among the " << messages.size() << " recorded failures" << (messages.empty() ? "" : "; first: " + messages[0]));
    }

    for (size_t k = 0; k < messages.size(); ++k)
        PBT_CHECK (used[k], "a failure was recorded that should not be there (or twice): " << messages[k]);

    if (assertFails)
    {
        PBT_CHECK (threw, "an assertion disagreed, but the run did not end with a TestAssertException");
        PBT_CHECK (named, "the TestAssertException names no check that disagrees: " << thrown);
        g.label ("failing assertion");
    }
    else
    {
        PBT_CHECK (! threw, "no assertion disagreed, but the run ended with: " << thrown);
        PBT_CHECK (returned, "no effect was returned");
    }

    g.labelIf (expectsFailing > 1, "several failing expectations");
    g.labelIf (nan, "audio with NaN");
    g.labelIf (failing > 0 && failing < plans.size(), "failing and agreeing checks together");
    if (failing > 0 && plans.size() > 1) g.nontrivial();
}

}  // namespace

HV_BOTH_TYPES (property)
PBT_MAIN ("C03", "x", propertyDispatch)
