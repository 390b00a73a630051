// C18: AudioBuffer against a model (vector of channels) under random operation sequences over a pool of buffers.
#include "common.hpp"

using namespace hv;

template <typename T> struct Model { size_t channels = 0; size_t frames = 0; Chans<T> data; };

template <typename T> static void compare (const hart::AudioBuffer<T>& b, const Model<T>& m, const char* op, size_t slot)
{
    PBT_CHECK (b.getNumChannels() == m.channels, "after " << op << ": buffer " << slot << " has " << b.getNumChannels() << " channels, expected " << m.channels);
    PBT_CHECK (b.getNumFrames() == m.frames, "after " << op << ": buffer " << slot << " has " << b.getNumFrames() << " frames, expected " << m.frames);
    const T* const* readPointers = b.getArrayOfReadPointers();
    T* const* writePointers = const_cast<hart::AudioBuffer<T>&> (b).getArrayOfWritePointers();

    for (size_t c = 0; c < m.channels; ++c)
        for (size_t f = 0; f < m.frames; ++f)
        {
            PBT_CHECK (sameValue (b[c][f], m.data[c][f]), "after " << op << ": buffer " << slot << " channel " << c << " frame " << f << " is " << b[c][f] << ", expected " << m.data[c][f]);
            PBT_CHECK (&readPointers[c][f] == &b[c][f] && &writePointers[c][f] == &b[c][f], "after " << op << ": pointer arrays of buffer " << slot << " point elsewhere (channel " << c << ")");
        }
}

template <typename T> static void property (Gen& g)
{
    constexpr size_t numSlots = 4;
    std::vector<std::unique_ptr<hart::AudioBuffer<T>>> pool (numSlots);
    std::vector<Model<T>> models (numSlots);
    const bool isLong = g.oneIn (2500);
    g.labelIf (isLong, "more than 65534 frames");
    const size_t maxCh = isLong ? 2 : g.oneIn (100) ? 140 : g.pick ({ 2, 3, 5 });

    auto make = [&] (size_t s, size_t ch, size_t fr)
    {
        pool[s].reset (new hart::AudioBuffer<T> (ch, fr));
        models[s] = Model<T> { ch, fr, Chans<T> (ch, std::vector<T> (fr, (T) 0)) };
    };

    const size_t common = g.size (0, maxCh);
    for (size_t s = 0; s < numSlots; ++s)
        make (s, g.mostly (4) ? common : g.size (0, maxCh), isLong ? g.size (60000, 70000) : g.logSize (0, 12));

    for (size_t s = 0; s < numSlots; ++s)
        compare (*pool[s], models[s], "construction", s);

    const size_t numOps = g.logSize (1, isLong ? 6 : 40);
    bool sawCopy = false, sawMove = false, sawAppend = false;

    for (size_t op = 0; op < numOps; ++op)
    {
        const int kind = (int) g.draw (11);
        const size_t a = g.size (0, numSlots - 1), b = g.size (0, numSlots - 1);
        const char* name = "";
        auto refused = [&] (auto&& f) { try { f(); return false; } catch (const std::exception&) { return true; } };

        switch (kind)
        {
            case 0: case 1:  // writes, several at once
            {
                name = "write";
                if (models[a].channels == 0 || models[a].frames == 0) break;
                const size_t writes = g.size (1, 8);
                for (size_t i = 0; i < writes; ++i)
                {
                    const size_t c = g.size (0, models[a].channels - 1), f = g.size (0, models[a].frames - 1);
                    const T v = genSample<T> (g, withLoud);
                    if (g.flip()) (*pool[a])[c][f] = v;
                    else pool[a]->getArrayOfWritePointers()[c][f] = v;
                    models[a].data[c][f] = v;
                }
                break;
            }
            case 2:
                name = "copy construction";
                if (a == b) break;
                pool[a].reset (new hart::AudioBuffer<T> (*pool[b]));
                models[a] = models[b];
                sawCopy = true;
                break;
            case 3:
                name = "move construction";
                if (a == b) break;
                pool[a].reset (new hart::AudioBuffer<T> (std::move (*pool[b])));
                models[a] = models[b];
                models[b].frames = 0;
                models[b].data.assign (models[b].channels, {});
                sawMove = true;
                break;
            case 4: case 5:
            {
                const bool moving = kind == 5;
                name = moving ? "move assignment" : "copy assignment";
                const bool mismatch = models[a].channels != models[b].channels;
                const bool threw = refused ([&] { if (moving) *pool[a] = std::move (*pool[b]); else *pool[a] = *pool[b]; });
                PBT_CHECK (threw == mismatch, name << " between buffers of " << models[b].channels << " and " << models[a].channels << " channels " << (threw ? "was refused" : "was accepted"));
                g.labelIf (mismatch, "refused assignment");
                g.labelIf (a == b, "self assignment");
                if (! mismatch && a != b)
                {
                    models[a] = models[b];
                    if (moving) { models[b].frames = 0; models[b].data.assign (models[b].channels, {}); sawMove = true; } else sawCopy = true;
                }
                break;
            }
            case 6: case 7:
            {
                name = "appendFrom";
                const bool mismatch = models[a].channels != models[b].channels;
                if (models[a].frames + models[b].frames > 300) break;
                const bool threw = refused ([&] { pool[a]->appendFrom (*pool[b]); });
                PBT_CHECK (threw == mismatch, "appendFrom with " << models[b].channels << " channels to " << models[a].channels << (threw ? " was refused" : " was accepted"));
                g.labelIf (mismatch, "refused append");
                g.labelIf (a == b && models[a].frames > 0, "self append");
                if (! mismatch)
                {
                    const Model<T> other = models[b];
                    for (size_t c = 0; c < models[a].channels; ++c)
                        models[a].data[c].insert (models[a].data[c].end(), other.data[c].begin(), other.data[c].end());
                    models[a].frames += other.frames;
                    sawAppend = true;
                }
                break;
            }
            case 8:
                name = "clear";
                pool[a]->clear();
                models[a].frames = 0;
                models[a].data.assign (models[a].channels, {});
                break;
            case 9:
                name = g.flip() ? "emptyLike" : "construction";
                if (name[0] == 'e')
                {
                    hart::AudioBuffer<T> e = hart::AudioBuffer<T>::emptyLike (*pool[b]);
                    Model<T> m { models[b].channels, models[b].frames, Chans<T> (models[b].channels, std::vector<T> (models[b].frames, (T) 0)) };
                    compare (e, m, "emptyLike", 99);
                    if (a != b) { pool[a].reset (new hart::AudioBuffer<T> (std::move (e))); models[a] = m; }
                }
                else make (a, g.size (0, maxCh), g.logSize (0, 16));
                break;
            default:
            {
                name = "getMagnitude";
                const Model<T>& m = models[a];
                auto number = [&] (size_t limit) -> size_t
                {
                    switch (g.draw (9))
                    {
                        case 0: return ~(size_t) 0;
                        case 1: return ~(size_t) 0 - g.size (0, limit + 1);
                        case 2: return limit + g.size (0, 2);
                        case 3: return (size_t) 1 << g.size (30, 63);
                        default: return g.size (0, limit);
                    }
                };
                const size_t ch = number (m.channels), start = number (m.frames);
                const size_t num = g.mostly (3) && start <= m.frames ? g.size (0, m.frames - start) : number (m.frames);
                const bool rangeOk = num > 0 && start <= m.frames && num <= m.frames - start;
                const bool perChannel = g.flip();
                const bool ok = rangeOk && (! perChannel || ch < m.channels);
                T got = (T) -1;
                const bool threw = refused ([&] { got = perChannel ? pool[a]->getMagnitude (ch, start, num) : pool[a]->getMagnitude (start, num); });
                PBT_CHECK (threw == ! ok, "getMagnitude (" << (perChannel ? "channel " + std::to_string (ch) + ", " : "") << start << ", " << num << ") on " << m.channels << "x" << m.frames << (threw ? " was refused" : " was accepted"));
                if (ok)
                {
                    T want = 0;
                    for (size_t c = perChannel ? ch : 0; c < (perChannel ? ch + 1 : m.channels); ++c)
                        for (size_t f = start; f < start + num; ++f)
                            want = std::max (want, (T) std::abs (m.data[c][f]));
                    PBT_CHECK (got == want, "getMagnitude (" << (perChannel ? "channel " + std::to_string (ch) + ", " : "") << start << ", " << num << ") gives " << got << ", expected " << want);
                }
                g.label (ok ? "magnitude of a valid range" : "magnitude of an invalid range");
                break;
            }
        }

        g.note ([&] (auto& s) { s << name << " a=" << a << " b=" << b; });

        for (size_t s = 0; s < numSlots; ++s)
            compare (*pool[s], models[s], name, s);
    }

    g.labelIf (sawCopy, "copy");
    g.labelIf (sawMove, "move");
    g.labelIf (sawAppend, "append");

    if ((sawCopy || sawMove) && sawAppend)
        g.nontrivial();
}

HV_BOTH_TYPES (property)
PBT_MAIN ("C18", "random operation sequences over a pool of four buffers compared with a model after every operation; non-trivial: at least one copy or move and one append", propertyDispatch)
