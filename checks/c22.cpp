// C22: what is printed is read back and compared with the settings, for signals, effects, matchers, chains and copies.
#include "common.hpp"

using namespace hv;

namespace
{

struct Token { bool number = false; std::string text; double value = 0; int decimals = 0; double slack = 0; bool modulo = false; };  // text: literal, or the unit of a number
using Tokens = std::vector<Token>;

Token lit (const std::string& t) { Token x; x.text = t; return x; }
Token num (double v, int decimals, const std::string& unit, double slack = 0, bool modulo = false) { Token x; x.number = true; x.text = unit; x.value = v; x.decimals = decimals; x.slack = slack; x.modulo = modulo; return x; }
void add (Tokens& t, const Tokens& more) { t.insert (t.end(), more.begin(), more.end()); }

// Blanks inside parentheses are a matter of taste; those in literals are matched as "any number of blanks"
void match (const std::string& s, const Tokens& tokens)
{
    size_t at = 0;
    auto skip = [&] { while (at < s.size() && s[at] == ' ') ++at; };
    for (auto& t : tokens)
    {
        if (! t.number)
        {
            if (t.text.find (">>") != std::string::npos)
            {
                PBT_CHECK (s.compare (at, t.text.size(), t.text) == 0, "expected '" << t.text << "' at position " << at << " of: " << s);
                at += t.text.size();
                continue;
            }
            skip();
            PBT_CHECK (s.compare (at, t.text.size(), t.text) == 0, "expected '" << t.text << "' at position " << at << " of: " << s);
            at += t.text.size();
            continue;
        }
        skip();
        size_t end = at;
        if (end < s.size() && s[end] == '-') ++end;
        const size_t digits = end;
        while (end < s.size() && isdigit ((unsigned char) s[end])) ++end;
        PBT_CHECK (end > digits, "expected a number at position " << at << " of: " << s);
        size_t decimals = 0;
        if (end < s.size() && s[end] == '.') { ++end; while (end < s.size() && isdigit ((unsigned char) s[end])) { ++end; ++decimals; } }
        const std::string text = s.substr (at, end - at);
        PBT_CHECK ((int) decimals == t.decimals, "'" << text << "' has " << decimals << " decimals, " << t.decimals << " are configured, in: " << s);
        const double got = strtod (text.c_str(), nullptr);
        double diff = got - t.value;
        if (t.modulo) diff = std::remainder (diff, hart::twoPi);
        const double tol = 0.5000001 * std::pow (10.0, -t.decimals) + t.slack + std::abs (t.value) * 1e-14;
        PBT_CHECK (std::abs (diff) <= tol, "'" << text << "' is printed for " << t.value << ", in: " << s);
        at = end;
        PBT_CHECK (s.compare (at, t.text.size(), t.text) == 0, "expected unit '" << t.text << "' after '" << text << "' in: " << s);
        at += t.text.size();
    }
    PBT_CHECK (at == s.size(), "something is left over after position " << at << " of: " << s);
}

template <typename V> std::string print (const V& v)
{
    std::ostringstream s;
    s << v;
    return s.str();
}

double genNumber (Gen& g)
{
    switch (g.draw (7))
    {
        case 7: return g.pick ({ 1.0, 1e-3, 1e-4, 1e-5, 1000.0, 20.0, 20e3, -120.0, -1.0 });  // what is common or a default
        case 0: return (double) g.range (-20, 20);
        case 1: return g.real (-1, 1);
        case 2: return g.real (-100, 100);
        case 3: return 0;
        case 4: return (g.flip() ? 1 : -1) * g.logReal (1e-9, 1);
        case 5: return (g.flip() ? 1 : -1) * g.logReal (1, 1e8);
        default: return g.pick ({ 0.05, 0.95, 9.999, -0.04, 0.5, 99.95, 1e-12, 1.25 });
    }
}

double genPositive (Gen& g) { const double v = std::abs (genNumber (g)); return v == 0 ? 440 : v; }

template <typename T> class Named : public hart::DSP<T>  // a user's own effect
{
    using SampleType = T;
public:
    explicit Named (int n) : number (n) {}
    void prepare (double, size_t, size_t, size_t) override {}
    void process (const hart::AudioBuffer<T>& in, hart::AudioBuffer<T>& out, const hart::EnvelopeBuffers&) override { for (size_t c = 0; c < out.getNumChannels(); ++c) std::copy (in[c], in[c] + in.getNumFrames(), out[c]); }
    void reset() override {}
    void setValue (int, double) override {}
    double getValue (int) const override { return 0; }
    bool supportsChannelLayout (size_t i, size_t o) const override { return i == o; }
    void represent (std::ostream& s) const override { s << "Named (#" << std::to_string (number) << ")"; }
    HART_DSP_DEFINE_COPY_AND_MOVE (Named);
    int number;
};

template <typename T> struct Thing  // whatever is printed
{
    std::unique_ptr<hart::Signal<T>> signal;
    std::unique_ptr<hart::DSP<T>> effect;
    std::unique_ptr<hart::Matcher<T>> matcher;
    Tokens tokens;
    std::string text() const { return signal ? print (*signal) : effect ? print (*effect) : print (*matcher); }
};

template <typename T> std::unique_ptr<hart::DSP<T>> genStockEffect (Gen& g, const Cli& cli, Tokens& t)
{
    std::unique_ptr<hart::DSP<T>> e;
    const double v = genNumber (g);
    const int kind = (int) g.draw (3);
    switch (kind)
    {
        case 0: e.reset (new hart::GainDb<T> (v)); add (t, { lit ("GainDb"), lit ("("), num (v, cli.db, "_dB"), lit (")") }); break;
        case 1: e.reset (new hart::GainLinear<T> (v)); add (t, { lit ("GainLinear"), lit ("("), num (v, cli.lin, ""), lit (")") }); break;
        case 2: e.reset (new hart::HardClip<T> (v)); add (t, { lit ("HardClip"), lit ("("), num (v, cli.db, "_dB"), lit (")") }); break;
        default: { const int n = (int) g.size (0, 99); e.reset (new Named<T> (n)); add (t, { lit ("Named"), lit ("("), lit ("#" + std::to_string (n)), lit (")") }); break; }
    }
    if (kind <= 1 && g.oneIn (4))  // automation does not change what is printed
    {
        hart::SegmentedEnvelope env (0.5);
        env.hold (0.01).rampTo (1, 0.5);
        e->withEnvelope (kind == 0 ? (int) hart::GainDb<T>::gainDb : (int) hart::GainLinear<T>::gainLinear, (const hart::Envelope&) env);
    }
    return e;
}

// Makes the signal and says what it prints
template <typename T> std::unique_ptr<hart::Signal<T>> genStockSignal (Gen& g, const Cli& cli, Tokens& t)
{
    std::unique_ptr<hart::Signal<T>> s;
    switch (g.draw (4))
    {
        case 0:
        {
            const double f = genPositive (g), p = genPhase (g);
            if (g.oneIn (4)) { s.reset (new hart::SineWave<T> (f)); add (t, { lit ("SineWave"), lit ("("), num (f, cli.hz, "_Hz"), lit (","), num (0, cli.rad, "_rad", 0, true), lit (")") }); }
            else { s.reset (new hart::SineWave<T> (f, p)); add (t, { lit ("SineWave"), lit ("("), num (f, cli.hz, "_Hz"), lit (","), num (p, cli.rad, "_rad", 0, true), lit (")") }); }
            break;
        }
        case 1: s.reset (new hart::Silence<T>()); add (t, { lit ("Silence"), lit ("("), lit (")") }); break;
        case 2:
        {
            const std::uint32_t seed = (std::uint32_t) g.draw (0xffffffffull);
            const bool fromCli = g.oneIn (4);
            s.reset (fromCli ? new hart::WhiteNoise<T>() : new hart::WhiteNoise<T> (seed));
            add (t, { lit ("WhiteNoise"), lit ("("), lit (std::to_string (fromCli ? cli.seed : seed)), lit (")") });
            break;
        }
        case 3:
        {
            using Sweep = hart::SineSweep<T>;
            double d = genPositive (g), f0 = genPositive (g), f1 = genPositive (g), p = genPhase (g);
            bool log = g.flip(), loop = g.flip();
            std::unique_ptr<Sweep> w (new Sweep (d, f0, f1, log ? Sweep::SweepType::log : Sweep::SweepType::linear, loop ? Sweep::Loop::yes : Sweep::Loop::no, p));
            for (size_t n = g.mostly (2) ? 0 : g.size (1, 4); n > 0; --n)
                switch (g.draw (5))
                {
                    case 0: d = genPositive (g); w.reset (new Sweep (w->withDuration (d))); break;
                    case 1: f0 = genPositive (g); w.reset (new Sweep (w->withStartFrequency (f0))); break;
                    case 2: f1 = genPositive (g); w.reset (new Sweep (w->withEndFrequency (f1))); break;
                    case 3: log = g.flip(); w.reset (new Sweep (w->withType (log ? Sweep::SweepType::log : Sweep::SweepType::linear))); break;
                    case 4: loop = g.flip(); w.reset (new Sweep (w->withLoop (loop ? Sweep::Loop::yes : Sweep::Loop::no))); break;
                    default: p = genPhase (g); w.reset (new Sweep (w->withPhase (p))); break;
                }
            s = std::move (w);
            add (t, { lit ("SineSweep"), lit ("("), num (d, cli.sec, "_s"), lit (","), num (f0, cli.hz, "_Hz"), lit (","), num (f1, cli.hz, "_Hz"), lit (","),
                lit (log ? "SweepType::log" : "SweepType::linear"), lit (","), lit (loop ? "Loop::yes" : "Loop::no"), lit (","), num (p, cli.rad, "_rad", 0, true), lit (")") });
            break;
        }
        default:
        {
            static int counter = 0;
            const std::string name = g.pick ({ "a.wav", "b c.wav", "sub/d.wav", "x (1) >> y.wav" }), full = g.workDir + "/" + name;
            if (counter++ < 8) { mkdir ((g.workDir + "/sub").c_str(), 0755); }
            writeFile (full, floatWav (Chans<float> { { 0.5f, -0.5f } }, 44100));
            const bool loop = g.flip(), relative = g.flip();
            s.reset (new hart::WavFile<T> (relative ? name : full, loop ? hart::WavFile<T>::Loop::yes : hart::WavFile<T>::Loop::no));
            add (t, { lit ("WavFile"), lit ("("), lit ("\"" + (relative ? name : full) + "\""), lit (","), lit (loop ? "Loop::yes" : "Loop::no"), lit (")") });
            break;
        }
    }
    return s;
}

template <typename T> void chain (Gen& g, const Cli& cli, hart::Signal<T>& s, Tokens& t)
{
    for (size_t n = g.size (0, 4); n > 0; --n)
    {
        t.push_back (lit (" >> "));
        auto e = genStockEffect<T> (g, cli, t);
        switch (g.draw (2))
        {
            case 0: s.followedBy (std::move (e)); break;
            case 1: { const hart::DSP<T>& ref = *e; s >> ref; break; }
            default: s >> std::move (e); break;
        }
    }
}

template <typename T> void property (Gen& g)
{
    Cli cli;
    cli.dataRoot = g.workDir;
    cli.seed = g.draw (0xffffffffull);
    auto decimals = [&] { return (int) (g.mostly (2) ? g.size (0, 6) : g.size (7, 12)); };
    cli.lin = decimals(); cli.db = decimals(); cli.sec = decimals(); cli.hz = decimals(); cli.rad = decimals();
    setCli (cli);
    g.note ([&] (auto& s) { s << "decimals: linear " << cli.lin << ", dB " << cli.db << ", s " << cli.sec << ", Hz " << cli.hz << ", rad " << cli.rad; });

    std::vector<Thing<T>> things;
    const size_t count = g.size (1, 3);

    for (size_t i = 0; i < count; ++i)
    {
        Thing<T> x;
        const double v = genNumber (g), tol = std::abs (genNumber (g));
        const double slack = sizeof (T) == 4 ? 1.3e-7 : 0;
        switch (g.draw (4))
        {
            case 0: x.signal = genStockSignal<T> (g, cli, x.tokens); chain (g, cli, *x.signal, x.tokens); g.label ("signal"); break;
            case 1: x.effect = genStockEffect<T> (g, cli, x.tokens); g.label ("effect"); break;
            case 2:
                x.matcher.reset (new hart::PeaksAt<T> (v, tol));
                x.tokens = { lit ("PeaksAt"), lit ("("), num (v, cli.db, "_dB", std::abs (v) * slack), lit (","), num (tol, cli.lin, "", tol * slack), lit (")") };
                g.label ("PeaksAt");
                break;
            case 3:
                x.matcher.reset (new hart::PeaksBelow<T> (v, tol));
                x.tokens = { lit ("PeaksBelow"), lit ("("), num (v, cli.db, "_dB", std::abs (v) * slack), lit (","), num (tol, cli.lin, "", tol * slack), lit (")") };
                g.label ("PeaksBelow");
                break;
            default:
            {
                Tokens t;
                auto s = genStockSignal<T> (g, cli, t);
                chain (g, cli, *s, t);
                // EqualsTo is built from a concrete signal
                if (auto* p = dynamic_cast<hart::SineWave<T>*> (s.get())) x.matcher.reset (new hart::EqualsTo<T> (*p, tol));
                else if (auto* p = dynamic_cast<hart::Silence<T>*> (s.get())) x.matcher.reset (new hart::EqualsTo<T> (*p, tol));
                else if (auto* p = dynamic_cast<hart::WhiteNoise<T>*> (s.get())) x.matcher.reset (new hart::EqualsTo<T> (*p, tol));
                else if (auto* p = dynamic_cast<hart::SineSweep<T>*> (s.get())) x.matcher.reset (new hart::EqualsTo<T> (*p, tol));
                else if (auto* p = dynamic_cast<hart::WavFile<T>*> (s.get())) x.matcher.reset (new hart::EqualsTo<T> (*p, tol));
                x.tokens = { lit ("EqualsTo"), lit ("(") };
                add (x.tokens, t);
                add (x.tokens, { lit (","), num (tol, cli.lin, "", tol * slack), lit (")") });
                g.label ("EqualsTo");
                break;
            }
        }
        things.push_back (std::move (x));
    }

    g.note ([&] (auto& s) { for (auto& x : things) s << x.text() << "\n"; });

    for (auto& x : things)
    {
        const std::string text = x.text();
        match (text, x.tokens);

        // Use does not change it
        if (x.signal && g.flip())
        {
            try { renderSignal<T> (*x.signal, 44100, 1, 40, 16); } catch (const std::exception&) {}
            PBT_CHECK (x.text() == text, "printed " << text << " before and " << x.text() << " after rendering");
            x.signal->resetWithDSPChain();
        }
        if (x.effect && g.flip())
        {
            x.effect->resetWithEnvelopes();
            x.effect->prepareWithEnvelopes (44100, 1, 1, 16);
            hart::AudioBuffer<T> in (1, 16), out (1, 16);
            x.effect->processWithEnvelopes (in, out);
            PBT_CHECK (x.text() == text, "printed " << text << " before and " << x.text() << " after processing");
        }
        if (x.matcher && g.flip())
        {
            hart::AudioBuffer<T> a (1, 16);
            try { x.matcher->prepare (44100, 1, 16); x.matcher->reset(); x.matcher->match (a); } catch (const std::exception&) {}
            PBT_CHECK (x.text() == text, "printed " << text << " before and " << x.text() << " after matching");
        }

        // Copies
        std::string copied, moved;
        if (x.signal) { auto c = x.signal->copy(); copied = print (*c); moved = print (*c->move()); }
        if (x.effect) { auto c = x.effect->copy(); copied = print (*c); moved = print (*c->move()); }
        if (x.matcher) { auto c = x.matcher->copy(); copied = print (*c); moved = print (*c->move()); }
        PBT_CHECK (copied == text, "the copy prints " << copied << ", the original " << text);
        PBT_CHECK (moved == text, "the moved object prints " << moved << ", the original " << text);
        PBT_CHECK (x.text() == text, "the original prints " << x.text() << " after it was copied, " << text << " before");
    }

    // One stream for all of them: nothing depends on what was printed before
    std::ostringstream all;
    std::string expected;
    for (auto& x : things)
    {
        if (x.signal) all << *x.signal; else if (x.effect) all << *x.effect; else all << *x.matcher;
        all << "|";
        expected += x.text() + "|";
    }
    PBT_CHECK (all.str() == expected, "printed in a row: " << all.str() << "\none by one: " << expected);

    // Other decimals apply at once
    if (g.oneIn (3))
    {
        const Cli old = cli;
        cli.lin = decimals(); cli.db = decimals(); cli.sec = decimals(); cli.hz = decimals(); cli.rad = decimals();
        setCli (cli);
        const bool distinct = std::set<int> { old.lin, old.db, old.sec, old.hz, old.rad }.size() == 5;  // then the decimals tell the unit
        if (distinct)
        {
            for (auto& x : things)
            {
                Tokens t = x.tokens;
                for (auto& k : t) if (k.number) k.decimals = k.decimals == old.lin ? cli.lin : k.decimals == old.db ? cli.db : k.decimals == old.sec ? cli.sec : k.decimals == old.hz ? cli.hz : cli.rad;
                match (x.text(), t);
            }
            g.label ("decimals changed");
        }
    }

    size_t numbers = 0;
    for (auto& x : things) for (auto& t : x.tokens) numbers += t.number;
    if (numbers >= 2) g.nontrivial();
}

}  // namespace

HV_BOTH_TYPES (property)
PBT_MAIN ("C22", "x", propertyDispatch)
