// C27: performs a script. Compiled twice: as is, and with exceptions disabled and HART in another namespace.
#include "common.hpp"
#include "script.hpp"

namespace
{

using namespace c27;
using hart::DSP;
using hart::Signal;
using hart::Matcher;

#if HART_DO_NOT_THROW_EXCEPTIONS
constexpr bool throwing = false;
#else
constexpr bool throwing = true;
#endif

template <typename T> class Picky : public hart::DSP<T>
{
    using SampleType = T;
public:
    explicit Picky (double v) : value (v) {}
    void prepare (double, size_t, size_t, size_t) override { ++calls(); }
    static size_t& calls() { static size_t n = 0; return n; }
    void process (const hart::AudioBuffer<T>& in, hart::AudioBuffer<T>& out, const hart::EnvelopeBuffers&) override
    {
        ++calls();
        for (size_t c = 0; c < out.getNumChannels(); ++c) for (size_t f = 0; f < out.getNumFrames(); ++f) out[c][f] = in[std::min (c, in.getNumChannels() - 1)][f] + (T) value;
    }
    void reset() override {}
    void setValue (int id, double v) override { if (id == 3) value = v; }
    double getValue (int id) const override { return id == 3 ? value : 0; }
    bool supportsChannelLayout (size_t i, size_t o) const override { return i <= 2 && o <= 2; }
    bool supportsSampleRate (double r) const override { return r <= 48000; }
    void represent (std::ostream& s) const override { s << "Picky(" << value << ")"; }
    HART_DSP_DEFINE_COPY_AND_MOVE (Picky);
    double value;
};

template <typename T> struct Heard { hv::Chans<T> audio; };

template <typename T> class Listen : public hart::Matcher<T>
{
    using SampleType = T;
public:
    explicit Listen (std::shared_ptr<Heard<T>> h) : heard (h) {}
    void prepare (double, size_t, size_t) override {}
    bool match (const hart::AudioBuffer<T>& a) override { heard->audio = hv::toChans (a); return true; }
    bool canOperatePerBlock() override { return false; }
    void reset() override {}
    hart::MatcherFailureDetails getFailureDetails() const override { return {}; }
    void represent (std::ostream& s) const override { s << "Listen()"; }
    HART_MATCHER_DEFINE_COPY_AND_MOVE (Listen);
    std::shared_ptr<Heard<T>> heard;
};

void trivialTask() {}

std::string fileBytes (const std::string& p)
{
    std::ifstream f (p, std::ios::binary);
    if (! f) return "(none)";
    std::stringstream s; s << f.rdbuf();
    return s.str();
}

hart::SegmentedEnvelope makeEnvelope (const std::vector<double>& e)
{
    hart::SegmentedEnvelope out (e.at (0));
    for (size_t i = 1; i + 2 < e.size(); i += 3)
        if (e[i] == 0) out.hold (e[i + 2]);
        else out.rampTo (e[i + 1], e[i + 2], e[i] == 1 ? hart::SegmentedEnvelope::Shape::linear : hart::SegmentedEnvelope::Shape::sCurve);
    return out;
}

bool reachedPastRequirement = false;

void taskBody (const Step& s)
{
    if (s.flag) { HART_REQUIRES_DATA_PATH_ARG }
    reachedPastRequirement = true;
    HART_EXPECT_TRUE (s.x > 0);
    HART_ASSERT_TRUE (s.y > 0);
    if (s.z < 0) HART_FAIL_TEST();
}

template <typename T> struct Machine
{
    const Script& script;
    std::unique_ptr<hart::AudioBuffer<T>> buffers[3];
    std::unique_ptr<hart::DSP<T>> effects[3];
    std::unique_ptr<hart::Signal<T>> signals[2];
    bool stillborn[2] = { false, false };  // signals whose construction was refused
    bool noisy[2] = { false, false }, choosy[2] = { false, false };
    std::uint64_t widest[2] = { 1, 1 };
    Result* now = nullptr;
    std::string refusal;

    // Performs one call; returns false if it was refused
    template <typename F> bool attempt (F f)
    {
        hv::CoutCapture cap;
        bool ok = true;
        std::string type, what;
        auto caught = [&] (const char* t, const std::exception& e) { type = t; what = e.what(); };
        try { f(); }
        catch (const hart::TestAssertException& e) { now->texts.push_back (std::string ("assertion: ") + e.what()); }
        catch (const hart::IOError& e) { caught ("IOError", e); }
        catch (const hart::StateError& e) { caught ("StateError", e); }
        catch (const hart::SizeError& e) { caught ("SizeError", e); }
        catch (const hart::ValueError& e) { caught ("ValueError", e); }
        catch (const hart::SampleRateError& e) { caught ("SampleRateError", e); }
        catch (const hart::ChannelLayoutError& e) { caught ("ChannelLayoutError", e); }
        catch (const hart::HartAssertException& e) { caught ("HartAssertException", e); }
        catch (const hart::UnsupportedError& e) { caught ("UnsupportedError", e); }
        catch (const hart::ConfigurationError& e) { caught ("ConfigurationError", e); }
        catch (const hart::IndexError& e) { caught ("IndexError", e); }
        catch (const std::exception& e) { caught ("an unexpected exception", e); }
        const std::string text = cap.text();
        now->printed += text;

        if (throwing)
        {
            if (type.size())
            {
                ok = false;
                if (now->error.empty()) { now->error = type; now->message = what.substr (0, what.rfind (", file: ")); }
            }
        }
        else
        {
            if (type.size()) now->escaped = type + ": " + what;
            const size_t at = text.find (" triggered");
            if (at != std::string::npos)
            {
                ok = false;
                if (now->error.empty())
                {
                    size_t from = at;
                    while (from > 0 && (std::isalnum ((unsigned char) text[from - 1]) || text[from - 1] == '_')) --from;
                    now->error = text.substr (from, at - from);
                    const size_t end = text.find ('\n', at);
                    now->message = text.substr (at, end == std::string::npos ? end : end - at);
                }
            }
        }
        return ok;
    }

    void show (const hart::AudioBuffer<T>& b)
    {
        now->values.push_back ((double) b.getNumChannels());
        now->values.push_back ((double) b.getNumFrames());
        for (size_t c = 0; c < b.getNumChannels(); ++c) for (size_t f = 0; f < b.getNumFrames(); ++f) now->values.push_back ((double) b[c][f]);
    }

    // Whether a signal may be left as it was prepared for more channels, when preparing it is refused by its chain. Going on with
    // it then is outside the statement: it is about what the program does next, not about the refusal.
    bool leftWider (int i, double rate, std::uint64_t channels)
    {
        const bool wider = widest[i] > channels;
        widest[i] = std::max (widest[i], channels);
        return noisy[i] && choosy[i] && wider && (rate > 48000 || channels > 2);
    }

    void showBuffers() { for (auto& b : buffers) if (b) show (*b); else now->values.push_back (-1); }

    void showEffect (hart::DSP<T>& e)
    {
        for (int id = -1; id <= 3; ++id) { now->values.push_back (e.getValue (id)); now->values.push_back (e.hasEnvelopeFor (id)); }
        std::ostringstream s; s << e; now->texts.push_back (s.str());
    }

    static hart::AudioBuffer<T> filled (size_t channels, size_t frames, std::uint64_t seed)
    {
        hart::AudioBuffer<T> b (channels, frames);
        pbt::Rng r (seed);
        for (size_t c = 0; c < channels; ++c) for (size_t f = 0; f < frames; ++f) b[c][f] = (T) ((double) (r.next() >> 40) / (double) (1 << 23) - 1.0);
        return b;
    }

    std::unique_ptr<hart::Signal<T>> makeSignal (const Step& s)
    {
        using Sweep = hart::SineSweep<T>;
        switch (s.kind)
        {
            case sine: return std::unique_ptr<hart::Signal<T>> (new hart::SineWave<T> (s.x, s.z));
            case sweep: return std::unique_ptr<hart::Signal<T>> (new Sweep (s.z, s.x, s.y, s.flag ? Sweep::SweepType::log : Sweep::SweepType::linear, s.other ? Sweep::Loop::yes : Sweep::Loop::no));
            case noise: return std::unique_ptr<hart::Signal<T>> (new hart::WhiteNoise<T> ((uint_fast32_t) s.n));
            case silence: return std::unique_ptr<hart::Signal<T>> (new hart::Silence<T>());
            default: return std::unique_ptr<hart::Signal<T>> (new hart::WavFile<T> (s.path, s.flag ? hart::WavFile<T>::Loop::yes : hart::WavFile<T>::Loop::no));
        }
    }

    void renderInto (hart::Signal<T>& s, size_t channels, size_t frames, size_t block, bool keep)
    {
        for (size_t done = 0; done < frames;)
        {
            const size_t k = std::min (block, frames - done);
            hart::AudioBuffer<T> out (channels, k);
            if (! attempt ([&] { s.renderNextBlockWithDSPChain (out); })) { if (throwing) return; }
            if (keep) show (out);
            done += k;
        }
    }

    void performRun (const Step& s)
    {
        auto& effect = effects[s.a];
        if (! effect || (s.b >= 0 && ! signals[s.b])) { now->skipped = true; return; }
        if (s.b >= 0 && stillborn[s.b]) now->skipped = true;
        auto heard = std::make_shared<Heard<T>>();
        auto& messages = hart::ExpectationFailureMessages::get();
        messages.clear();
        if (s.path.size()) unlink (s.path.c_str());
        hart::AudioTestBuilder<T> b (effect->copy());
        double rate = 44100, seconds = 0.1;
        size_t in = 1, out = 1;
        if (s.b >= 0) b.withInputSignal (*signals[s.b]);
        for (auto& x : s.settings)
        {
            const std::string before = now->error;
            now->error.clear();
            attempt ([&] { switch (x.kind) {
                case 0: b.withSampleRate (x.value); break;
                case 1: b.withBlockSize ((size_t) x.value); break;
                case 2: b.withDuration (x.value); break;
                case 3: b.withInputChannels ((size_t) x.value); break;
                case 4: b.withOutputChannels ((size_t) x.value); break;
                case 5: b.inStereo(); break;
                case 6: b.withValue (0, x.value); break;
                case 7: b.expectTrue (hart::PeaksBelow<T> (x.value)); break;
                case 8: b.assertTrue (hart::PeaksBelow<T> (x.value)); break;
                case 9: b.expectFalse (hart::PeaksAt<T> (x.value)); break;
                default: b.withLabel ("a label"); break; } });
            if (now->error.empty()) switch (x.kind) {
                case 0: rate = x.value; break;
                case 2: seconds = x.value; break;
                case 3: in = (size_t) x.value; break;
                case 4: out = (size_t) x.value; break;
                case 5: in = out = 2; break;
                default: break; }
            now->texts.push_back ("setting " + std::to_string (x.kind) + (now->error.empty() ? " accepted" : " refused with " + now->error));
            now->error = before;
            now->message.clear();
        }
        if (s.path.size()) b.saveOutputTo (s.path, hart::Save::always, s.flag ? hart::WavFormat::float32 : hart::WavFormat::pcm16);
        b.expectTrue (Listen<T> (heard));
        // What is refused before anything is rendered leaves nothing behind
        const bool refusedAtOnce = s.b < 0 || ! effect->supportsChannelLayout (in, out) || rate * seconds < 0.4;
        if (s.b >= 0 && leftWider (s.b, rate, in)) { now->skipped = true; messages.clear(); return; }
        const size_t callsBefore = Picky<T>::calls();
        std::unique_ptr<hart::DSP<T>> back;
        if (! attempt ([&] { back = b.process(); }))
        {
            if (refusedAtOnce && ! now->skipped)
            {
                now->values = { (double) (Picky<T>::calls() - callsBefore), (double) heard->audio.size(), (double) messages.size() };
                if (s.path.size()) now->texts.push_back (fileBytes (s.path));
            }
            else now->loose = true;
        }
        else
        {
            now->values.push_back (back != nullptr);
            if (back) showEffect (*back);
            for (auto& c : heard->audio) for (auto v : c) now->values.push_back ((double) v);
            for (auto& m : messages) now->texts.push_back (m);
            if (s.path.size()) now->texts.push_back (fileBytes (s.path));
        }
        if (! throwing && s.other && now->error.size()) attempt ([&] { b.process(); });  // there may be no effect any more
        messages.clear();
    }

    void perform (const Step& s)
    {
        auto& target = buffers[s.a % 3];
        auto& source = buffers[(s.b + 3) % 3];
        switch (s.op)
        {
            case newBuffer: target.reset (new hart::AudioBuffer<T> (filled ((size_t) s.n, (size_t) s.m, (std::uint64_t) s.id))); showBuffers(); break;
            case copyBuffer: if (target && source) { attempt ([&] { *target = *source; }); } showBuffers(); break;
            case moveBuffer: if (target && source && s.a % 3 != s.b % 3) { attempt ([&] { *target = std::move (*source); }); } showBuffers(); break;
            case appendBuffer: if (target && source && target->getNumFrames() < 5000) { attempt ([&] { target->appendFrom (*source); }); } showBuffers(); break;
            case channelPeak: if (target) { T v = 0; if (attempt ([&] { v = target->getMagnitude ((size_t) s.id, (size_t) s.n, (size_t) s.m); })) now->values.push_back ((double) v); } showBuffers(); break;
            case peak: if (target) { T v = 0; if (attempt ([&] { v = target->getMagnitude ((size_t) s.n, (size_t) s.m); })) now->values.push_back ((double) v); } showBuffers(); break;
            case clearBuffer: if (target) target->clear(); showBuffers(); break;

            case newEffect:
                switch (s.kind)
                {
                    case gainDb: effects[s.a].reset (new hart::GainDb<T> (s.x)); break;
                    case gainLinear: effects[s.a].reset (new hart::GainLinear<T> (s.x)); break;
                    case hardClip: effects[s.a].reset (new hart::HardClip<T> (s.x)); break;
                    default: effects[s.a].reset (new Picky<T> (s.x)); break;
                }
                showEffect (*effects[s.a]);
                break;
            case copyEffect: if (effects[s.b]) { effects[s.a] = effects[s.b]->copy(); showEffect (*effects[s.a]); } break;
            case c27::setValue: if (effects[s.a]) { effects[s.a]->setValue (s.id, s.x); showEffect (*effects[s.a]); } break;
            case attach:
                if (effects[s.a])
                {
                    const auto e = makeEnvelope (s.env);
                    attempt ([&] { if (s.flag) effects[s.a]->withEnvelope (s.id, makeEnvelope (s.env)); else effects[s.a]->withEnvelope (s.id, e); });
                    showEffect (*effects[s.a]);
                }
                break;
            case processBlock:
                if (effects[s.a])
                {
                    auto& e = *effects[s.a];
                    const size_t in = (size_t) s.n, out = (size_t) s.m, frames = (size_t) s.id;
                    const auto input = filled (in, frames, 7);
                    hart::AudioBuffer<T> output (out, frames);
                    for (size_t c = 0; c < out; ++c) std::fill (output[c], output[c] + frames, (T) 77);
                    attempt ([&] { e.resetWithEnvelopes(); e.prepareWithEnvelopes (s.x, in, out, frames); });
                    attempt ([&] { e.processWithEnvelopes (input, output); });
                    show (output);
                    showEffect (e);
                }
                break;

            case newSignal:
                signals[s.a].reset();
                noisy[s.a] = s.kind == noise; choosy[s.a] = false; widest[s.a] = 1;
                stillborn[s.a] = ! attempt ([&] { signals[s.a] = makeSignal (s); });
                if (! stillborn[s.a]) { std::ostringstream o; o << *signals[s.a]; now->texts.push_back (o.str()); }
                break;
            case follow:
                if (! signals[s.a] || ! effects[s.b]) { now->skipped = true; break; }
                if (stillborn[s.a]) now->skipped = true;
                choosy[s.a] = true;
                signals[s.a]->followedBy (effects[s.b]->copy());
                { std::ostringstream o; o << *signals[s.a]; if (! stillborn[s.a]) now->texts.push_back (o.str()); }
                break;
            case render:
            {
                if (! signals[s.a]) { now->skipped = true; break; }
                if (stillborn[s.a]) now->skipped = true;
                std::unique_ptr<hart::Signal<T>> copy;
                hart::Signal<T>* signal = signals[s.a].get();
                if (s.flag) { copy = signal->copy(); signal = copy.get(); }
                if (leftWider (s.a, s.x, s.n)) { now->skipped = true; break; }
                signal->resetWithDSPChain();
                const bool prepared = attempt ([&] { signal->prepareWithDSPChain (s.x, (size_t) s.n, (size_t) s.id); });
                if (prepared) renderInto (*signal, (size_t) s.n, (size_t) s.m, (size_t) s.id, ! stillborn[s.a]);
                else
                {
                    now->loose = true;
                    if (! throwing) renderInto (*signal, (size_t) s.n, (size_t) s.m, (size_t) s.id, false);  // goes on, without harm
                }
                break;
            }

            case envelope:
            {
                auto e = makeEnvelope (s.env);
                attempt ([&] { e.prepare (s.x, 64); });
                attempt ([&] { e.prepare (s.y, 64); });
                std::vector<double> out ((size_t) s.id);
                e.renderNextBlock (out.size(), out);
                now->values = out;
                break;
            }

            case c27::run: performRun (s); break;

            case task:
            {
                hv::Cli c;
                c.dataRoot = s.other ? script.dir : std::string();
                c.passRoot = true;
                hv::setCli (c);
                auto& messages = hart::ExpectationFailureMessages::get();
                messages.clear();
                reachedPastRequirement = false;
                bool failed = false;
                try { hv::CoutCapture cap; taskBody (s); }
                catch (const hart::TestAssertException& e) { failed = true; now->texts.push_back (e.what()); }
                catch (const hart::ConfigurationError& e) { failed = true; if (! throwing) now->escaped = e.what(); }
                failed = failed || messages.size();
                now->values = { (double) failed, (double) reachedPastRequirement };
                if (reachedPastRequirement) for (auto& m : messages) now->texts.push_back (m);
                messages.clear();
                break;
            }

            case registration:
            {
                static std::uint64_t counter = 0;
                static double tasksBefore = 0;
                auto& registry = hart::TestRegistry::getInstance();
                const std::string name = "task " + std::to_string (counter++);
                const size_t times = (size_t) s.n;
                for (size_t i = 0; i < times; ++i) attempt ([&] { registry.add (name, i & 1 ? "tag" : "", hart::TaskCategory::test, &trivialTask); });
                hv::setCli (hv::Cli());
                std::string text;
                { hv::CoutCapture cap; registry.runAll(); text = cap.text(); }
                const size_t at = text.find ("[ PASSED ]"), slash = text.find ('/', at == std::string::npos ? 0 : at);
                const double tasks = at == std::string::npos || slash == std::string::npos ? 0 : std::atof (text.c_str() + slash + 1);
                now->values.push_back (tasks - tasksBefore);
                tasksBefore = tasks;
                break;
            }
            default: break;
        }
    }
};

template <typename T> std::vector<Result> perform (const Script& s)
{
    Machine<T> m { s };
    std::vector<Result> out (s.steps.size());
    for (size_t i = 0; i < s.steps.size(); ++i)
    {
        m.now = &out[i];
        m.perform (s.steps[i]);
        if (out[i].skipped || out[i].loose) out[i].values.clear();
        if (out[i].skipped) out[i].texts.clear();
    }
    return out;
}

std::vector<Result> performScript (const Script& s) { return s.isDouble ? perform<double> (s) : perform<float> (s); }

}  // namespace
