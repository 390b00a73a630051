// C09: SineSweep against its frequency law.
#include "common.hpp"

using namespace hv;

// Integrates the frequency law frame by frame; `rule` chooses where in each frame interval the frequency is taken
// (its end, its start, its middle) - all three follow the documented law
static std::vector<double> refSweep (const SignalSpec& s, double fs, size_t frames, int rule)
{
    std::vector<double> out (frames, 0.0);
    const size_t length = (size_t) std::llround (s.duration * fs);
    if (length == 0) return out;
    long double phase = s.phase;
    auto frequency = [&] (double pos, bool reverse) -> double
    {
        double portion = pos / fs / s.duration;
        if (reverse) portion = 1.0 - portion;
        return s.logSweep ? s.frequency * std::pow (s.endFrequency / s.frequency, portion) : s.frequency + (s.endFrequency - s.frequency) * portion;
    };
    size_t pos = 0;
    bool reverse = false;
    for (size_t n = 0; n < frames; ++n)
    {
        if (! s.loop && n >= length) break;
        out[n] = (double) std::sin (phase);
        double f = frequency (rule == 1 ? (double) pos : (double) pos + 0.5, reverse);
        if (++pos == length) { pos = 0; reverse = ! reverse; }
        if (rule == 0) f = frequency ((double) pos, reverse);
        phase += 2.0L * 3.14159265358979323846264338327950288L * (long double) f / (long double) fs;
        phase = std::fmod (phase, 2.0L * 3.14159265358979323846264338327950288L);
    }
    return out;
}

template <typename T> static void illegal (Gen& g)
{
    const int what = (int) g.draw (2);
    const double bad = g.flip() ? -g.logReal (1e-6, 1e4) : (what == 0 ? -1e-3 : 0.0);
    bool threw = false;
    try
    {
        const bool modifier = g.flip();
        if (modifier)
        {
            hart::SineSweep<T> base;
            if (what == 0) base.withDuration (bad); else if (what == 1) base.withStartFrequency (bad); else base.withEndFrequency (bad);
        }
        else hart::SineSweep<T> s (what == 0 ? bad : 1.0, what == 1 ? bad : 20.0, what == 2 ? bad : 2000.0);
    }
    catch (const std::exception&) { threw = true; }
    PBT_CHECK (threw, "an illegal " << (what == 0 ? "duration" : "frequency") << " of " << bad << " was accepted");
    g.label ("illegal arguments");
}

template <typename T> static void property (Gen& g)
{
    if (g.oneIn (15)) { illegal<T> (g); return; }
    using Sweep = hart::SineSweep<T>;
    HostCfg h;
    h.sampleRate = genSampleRate (g);
    const bool isLong = g.oneIn (800);
    g.labelIf (isLong, "more than 65534 frames");
    h.frames = isLong ? genLongFrames (g) : genFrames (g, 700);
    h.block = isLong ? genLongBlock (g, h.frames) : genBlock (g, h.frames);
    SignalSpec s;
    s.kind = sineSweep;
    size_t length;
    switch (g.draw (5))
    {
        case 0: length = h.frames; break;
        case 1: length = g.size (1, h.frames + 2); break;
        case 2: length = g.size (1, 5); break;
        case 3: length = h.frames * 3; break;
        case 4: length = h.block * g.size (1, 3); break;
        default: length = 0; break;
    }
    s.duration = length == 0 ? (g.flip() ? 0.0 : g.real (0.0, 0.45) / h.sampleRate) : ((double) length + g.pick ({ 0.0, 0.0, 0.3, -0.3, 0.45 })) / h.sampleRate;
    s.frequency = g.oneIn (6) ? g.pick ({ 20.0, 1000.0 }) : h.sampleRate * g.real (0.0005, 0.49);
    s.endFrequency = g.oneIn (6) ? s.frequency : g.oneIn (6) ? 20000 : h.sampleRate * g.real (0.0005, 0.49);
    s.logSweep = g.flip();
    s.loop = g.flip() && length > 0;
    s.phase = genPhase (g);
    const size_t given = g.mostly (12) ? 6 : g.draw (5);  // the other settings are left at their defaults
    if (given < 6)
    {
        s.phase = 0;
        if (given <= 4) s.loop = false;
        if (given <= 3) s.logSweep = true;
        if (given <= 2) s.endFrequency = 20000;
        if (given <= 1) s.frequency = 20;
        if (given == 0)
        {
            s.duration = 1;
            if (! isLong && g.flip()) { h.sampleRate = g.pick ({ 500, 2000 }); h.frames = (size_t) h.sampleRate + g.size (1, 60); h.block = genBlock (g, h.frames); }
            length = (size_t) std::floor (h.sampleRate + 0.5);
        }
        g.label ("default settings");
    }
    const double fs = h.sampleRate;
    const size_t channels = isLong ? g.size (1, 2) : genChannels (g);
    g.note ([&] (auto& o) { o << s << " fs=" << fs << " channels=" << channels << " frames=" << h.frames << " block=" << h.block << " sweep length=" << length; });

    const auto type = s.logSweep ? Sweep::SweepType::log : Sweep::SweepType::linear;
    const auto loop = s.loop ? Sweep::Loop::yes : Sweep::Loop::no;
    std::unique_ptr<hart::Signal<T>> signal;
    const bool viaModifiers = given == 6 && g.oneIn (3);

    if (viaModifiers)
    {
        // Set the six settings in a random order, starting from defaults or from other settings
        std::unique_ptr<Sweep> current (g.flip() ? new Sweep() : new Sweep (0.5, 30.0, 300.0, s.logSweep ? Sweep::SweepType::linear : Sweep::SweepType::log, s.loop ? Sweep::Loop::no : Sweep::Loop::yes, 1.0));
        std::vector<int> order = { 0, 1, 2, 3, 4, 5 };
        for (size_t i = 5; i > 0; --i) std::swap (order[i], order[g.size (0, i)]);
        if (g.oneIn (4)) { (void) renderSignal<T> (*current, fs, channels, 3, 2); }
        for (int o : order)
        {
            switch (o)
            {
                case 0: current.reset (new Sweep (current->withDuration (s.duration))); break;
                case 1: current.reset (new Sweep (current->withStartFrequency (s.frequency))); break;
                case 2: current.reset (new Sweep (current->withEndFrequency (s.endFrequency))); break;
                case 3: current.reset (new Sweep (current->withType (type))); break;
                case 4: current.reset (new Sweep (current->withLoop (loop))); break;
                default: current.reset (new Sweep (current->withPhase (s.phase))); break;
            }
        }
        signal = std::move (current);
        g.label ("built by modifiers");
    }
    else if (given == 0) signal.reset (new Sweep());
    else if (given == 1) signal.reset (new Sweep (s.duration));
    else if (given == 2) signal.reset (new Sweep (s.duration, s.frequency));
    else if (given == 3) signal.reset (new Sweep (s.duration, s.frequency, s.endFrequency));
    else if (given == 4) signal.reset (new Sweep (s.duration, s.frequency, s.endFrequency, type));
    else if (given == 5) signal.reset (new Sweep (s.duration, s.frequency, s.endFrequency, type, loop));
    else signal.reset (new Sweep (s.duration, s.frequency, s.endFrequency, type, loop, s.phase));

    const int passes = g.oneIn (4) ? 2 : 1;
    for (int pass = 0; pass < passes; ++pass)
    {
        if (g.flip()) { signal->prepare (fs, channels, h.block); signal->reset(); } else { signal->reset(); signal->prepare (fs, channels, h.block); }
        const auto got = renderSignal (*signal, fs, channels, h.frames, h.block, false);

        for (size_t c = 1; c < channels; ++c)
            PBT_CHECK (got[c] == got[0], "channel " << c << " differs from channel 0");

        if (! s.loop)
            for (size_t n = length; n < h.frames; ++n)
                PBT_CHECK (got[0][n] == (T) 0, "frame " << n << " is " << got[0][n] << " although the sweep of " << length << " frames has ended");

        const double tol = tolFor<T>() * 10 + 1e-12 * (double) h.frames;
        std::string problem;
        for (int rule = 0; rule < 3; ++rule)
        {
            const auto diff = firstFar (Chans<T> { got[0] }, Chans<double> { refSweep (s, fs, h.frames, rule) }, tol);
            if (diff.empty()) { problem.clear(); break; }
            if (rule == 0) problem = diff;
        }
        PBT_CHECK (problem.empty(), "pass " << pass << ": the sweep leaves its frequency law: " << problem);
    }

    g.label (s.loop ? (h.frames > length ? "loop, turned around" : "loop") : length == 0 ? "no frames" : h.frames > length ? "ended" : "not ended");
    g.label (s.logSweep ? "log" : "linear");
    g.labelIf (s.endFrequency < s.frequency, "downward");
    if (h.frames > 2 && length > 2) g.nontrivial();
}

HV_BOTH_TYPES (property)
PBT_MAIN ("C09", "random sweeps, rates, block sizes and lengths, built directly or by modifiers; every sample is compared with the integrated frequency law; non-trivial: more than two frames of sweep", propertyDispatch)
