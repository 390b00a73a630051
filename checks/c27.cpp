// C27: the same operations in a build with exceptions and in one without. Both are linked into this program.
#include "c27/machine.hpp"

std::vector<c27::Result> c27::runThrowing (const Script& s) { return performScript (s); }

namespace
{

using pbt::Gen;

std::vector<double> genEnvelope (Gen& g)
{
    std::vector<double> e { g.real (-2, 2) };
    const size_t n = g.size (0, 3);
    for (size_t i = 0; i < n; ++i) { e.push_back ((double) g.draw (2)); e.push_back (g.real (-2, 2)); e.push_back (g.real (0, 0.002)); }
    return e;
}

std::uint64_t genSize (Gen& g, std::uint64_t usual)
{
    if (g.mostly (4)) return g.draw (usual);
    return g.pick ({ (std::uint64_t) SIZE_MAX, (std::uint64_t) SIZE_MAX - 1, (std::uint64_t) 1 << 63, (std::uint64_t) 1 << 32, usual + 1, usual + 7 });
}

double genRate (Gen& g) { return g.pick ({ 44100.0, 48000.0, 8000.0, 96000.0, 1000.0 }); }

Step genStep (Gen& g, const std::string& dir, int op = -1)
{
    Step s;
    s.op = op >= 0 ? op : (int) g.draw (numOps + 4);
    if (s.op >= numOps) s.op = s.op == numOps ? (int) render : (int) c27::run;
    if (s.op == registration && ! g.oneIn (6)) s.op = c27::run;
    s.a = (int) g.draw (2);
    s.b = (int) g.draw (2);
    switch (s.op)
    {
        case newBuffer: s.n = g.draw (3); s.m = g.draw (9); s.id = (int) g.draw (20); break;
        case channelPeak: s.id = (int) (g.oneIn (6) ? g.pick ({ -1, 5, 1 << 30 }) : (int) g.draw (3)); s.n = genSize (g, 9); s.m = genSize (g, 9); break;
        case peak: s.n = genSize (g, 9); s.m = genSize (g, 9); break;
        case newEffect: s.kind = (int) g.draw (numEffects - 1); s.x = g.real (-9, 3); break;
        case c27::setValue: s.id = (int) g.range (-1, 3); s.x = g.real (-9, 3); break;
        case attach: s.id = (int) g.range (-1, 3); s.env = genEnvelope (g); s.flag = g.flip(); break;
        case processBlock: s.n = g.size (1, 3); s.m = g.size (1, 3); s.id = (int) g.size (1, 12); s.x = genRate (g); break;
        case newSignal:
            s.a = (int) g.draw (1);
            s.kind = (int) g.draw (numSignals - 1);
            s.flag = g.flip(); s.other = g.flip();
            switch (s.kind)
            {
                case sine: s.x = g.oneIn (3) ? g.pick ({ 0.0, -1.0, -1000.0 }) : g.real (1, 20000); s.z = g.real (-4, 4); break;
                case sweep:
                    s.x = g.oneIn (4) ? g.pick ({ 0.0, -20.0 }) : g.real (1, 2000);
                    s.y = g.oneIn (4) ? g.pick ({ 0.0, -20.0 }) : g.real (1, 2000);
                    s.z = g.oneIn (4) ? -g.real (0.001, 2) : g.real (0, 0.01);
                    break;
                case noise: s.n = g.draw (1000); break;
                case wav: s.path = dir + "/" + g.pick ({ "one.wav", "two.wav", "missing.wav", "damaged.wav", "empty.wav", "nowhere/x.wav", "" }); break;
                default: break;
            }
            break;
        case follow: s.a = (int) g.draw (1); break;
        case render: s.a = (int) g.draw (1); s.n = g.size (1, 3); s.m = g.size (1, 40); s.id = (int) g.size (1, 16); s.x = genRate (g); s.flag = g.flip(); break;
        case envelope: s.env = genEnvelope (g); s.x = genRate (g); s.y = g.flip() ? g.pick ({ 0.0, -1.0, 1e-9, -44100.0 }) : genRate (g); s.id = (int) g.size (1, 30); break;
        case c27::run:
        {
            s.b = g.oneIn (8) ? -1 : (int) g.draw (1);
            const size_t n = g.size (0, 6);
            for (size_t i = 0; i < n; ++i)
            {
                Setting x;
                x.kind = (int) g.draw (10);
                switch (x.kind)
                {
                    case 0: x.value = g.oneIn (4) ? g.pick ({ 0.0, -1.0, -44100.0 }) : genRate (g); break;
                    case 1: x.value = (double) (g.oneIn (4) ? 0 : g.size (1, 50)); break;
                    case 2: x.value = g.oneIn (4) ? g.pick ({ -1.0, 0.0, -0.001 }) : g.real (0, 0.002); break;
                    case 3: case 4: x.value = (double) (g.oneIn (3) ? g.pick ({ (size_t) 0, (size_t) 129, (size_t) 3, (size_t) 128 }) : g.size (1, 2)); break;
                    case 6: x.value = g.real (-9, 3); break;
                    case 7: case 8: case 9: x.value = g.real (-30, 3); break;
                    default: break;
                }
                s.settings.push_back (x);
            }
            s.settings.push_back ({ 2, g.oneIn (12) ? 0.0 : g.real (0.00002, 0.003) });
            if (g.oneIn (3)) s.path = dir + "/" + g.pick ({ "out.wav", "nowhere/out.wav" });
            s.flag = g.flip(); s.other = g.flip();
            break;
        }
        case task: s.flag = g.flip(); s.other = g.flip(); s.x = g.flip() ? 1 : -1; s.y = g.flip() ? 1 : -1; s.z = g.flip() ? 1 : -1; break;
        case registration: s.n = g.size (1, 3); break;
        default: break;
    }
    return s;
}

const char* opName (int op)
{
    static const char* names[] = { "new buffer", "copy buffer", "move buffer", "append", "magnitude of a channel", "magnitude", "clear", "new effect", "copy effect", "setValue", "withEnvelope", "process",
        "new signal", "followedBy", "prepare and render", "envelope", "run", "task", "registration" };
    return names[op];
}

std::ostream& operator<< (std::ostream& o, const Step& s)
{
    static const char* effects[] = { "GainDb", "GainLinear", "HardClip", "Picky" };
    static const char* signals[] = { "SineWave", "SineSweep", "WhiteNoise", "Silence", "WavFile" };
    o << opName (s.op) << " a=" << s.a << " b=" << s.b;
    if (s.op == newEffect) o << " " << effects[s.kind];
    if (s.op == newSignal) o << " " << signals[s.kind];
    o << " id=" << s.id << " n=" << s.n << " m=" << s.m << " x=" << s.x << " y=" << s.y << " z=" << s.z << (s.flag ? " flag" : "") << (s.other ? " other" : "");
    if (s.path.size()) o << " " << s.path;
    for (auto& x : s.settings) o << " [" << x.kind << ": " << x.value << "]";
    return o;
}

void property (Gen& g)
{
    Script script;
    script.isDouble = g.flip();
    script.dir = g.workDir;
    static std::string written;
    if (written != g.workDir)
    {
        const hv::Chans<double> one { { 0.5, -0.25, 1.0, 0.125 } }, two { { 0.5, 0.25, -1 }, { -0.5, 0, 0.75 } };
        hv::writeFile (g.workDir + "/one.wav", hv::floatWav (one, 44100));
        hv::writeFile (g.workDir + "/two.wav", hv::floatWav (two, 48000));
        hv::writeFile (g.workDir + "/damaged.wav", "RIFF....WAVEfmt broken");
        hv::writeFile (g.workDir + "/empty.wav", "");
        written = g.workDir;
    }

    const bool furnished = g.mostly (4);  // something to work on from the start
    const std::vector<int> first = furnished ? std::vector<int> { newBuffer, newBuffer, newEffect, newEffect, newEffect, newSignal, newSignal } : std::vector<int>();
    const size_t n = first.size() + g.size (1, 18);
    for (size_t i = 0; i < n; ++i)
    {
        script.steps.push_back (genStep (g, g.workDir, i < first.size() ? first[i] : -1));
        if (i < first.size()) script.steps.back().a = (int) (i < 2 ? i : i < 5 ? i - 2 : i - 5);
        g.note ([&] (auto& o) { o << script.steps.back(); });
    }

    const auto with = runThrowing (script), without = runWithoutExceptions (script);
    size_t refused = 0, fine = 0;

    for (size_t i = 0; i < n; ++i)
    {
        const Result& a = with[i];
        const Result& b = without[i];
        std::ostringstream step;
        step << "step " << i + 1 << " (" << script.steps[i] << ")";

        PBT_CHECK (b.escaped.empty(), step.str() << " raised " << b.escaped << " although exceptions are disabled");
        if (a.skipped || b.skipped) continue;  // the signal it needs could not be made

        PBT_CHECK (! (a.error.size() && b.error.empty()), step.str() << " raises " << a.error << " (" << a.message << ") with exceptions; without, no error is printed: " << b.printed.substr (0, 300));
        PBT_CHECK (! (a.error.empty() && b.error.size()), step.str() << " is fine with exceptions; without, " << b.error << " is printed: " << b.printed.substr (0, 300));
        PBT_CHECK (a.error == b.error, step.str() << " raises " << a.error << " with exceptions, and prints " << b.error << " without");
        PBT_CHECK (a.error.empty() || b.message.find (a.message) != std::string::npos, step.str() << " raises " << a.error << " with the message '" << a.message << "', and prints without exceptions: " << b.message);

        if (a.error.size()) { ++refused; g.label ("refused: " + a.error); g.label (std::string (opName (script.steps[i].op)) + " refused"); }
        else { ++fine; g.label (std::string (opName (script.steps[i].op)) + " accepted"); }

        if (a.loose || b.loose) continue;
        PBT_CHECK (a.values.size() == b.values.size(), step.str() << " gives " << a.values.size() << " values with exceptions, " << b.values.size() << " without");
        for (size_t k = 0; k < a.values.size(); ++k)
            PBT_CHECK (hv::sameValue (a.values[k], b.values[k]), step.str() << ": value " << k << " is " << a.values[k] << " with exceptions, " << b.values[k] << " without");
        PBT_CHECK (a.texts.size() == b.texts.size(), step.str() << " gives " << a.texts.size() << " texts with exceptions, " << b.texts.size() << " without");
        for (size_t k = 0; k < a.texts.size(); ++k)
            PBT_CHECK (a.texts[k] == b.texts[k], step.str() << ": '" << a.texts[k].substr (0, 200) << "' with exceptions, '" << b.texts[k].substr (0, 200) << "' without");
    }

    if (refused >= 1 && fine >= 2) g.nontrivial();
}

}  // namespace

PBT_MAIN ("C27", "x", property)
