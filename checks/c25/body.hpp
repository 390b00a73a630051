// The tests and generators of one source file of the program. Every file registers its own, on the same lines.
#include "hart.hpp"
#include <cstdlib>
#include <cstring>
#include <fstream>

#ifndef FILE_ID
#error "FILE_ID names the source file"
#endif

// Defined in the main file, used from all
struct Plan { int behaviour, count; };
Plan planFor (char file, int slot);
void journal (const std::string& line);

// Each is defined in one file and used from the others
std::unique_ptr<hart::DSP<float>> effectFromB (double gainDb);
std::unique_ptr<hart::Signal<float>> signalFromA (std::uint32_t seed);
bool runInA (const std::string& label);
void expectInB (bool holds);

namespace
{

std::string marker (int slot, int k) { return std::string ("<msg ") + FILE_ID[0] + std::to_string (slot) + "/" + std::to_string (k) + ">"; }

hart::AudioTestBuilder<float> sineRun (const std::string& label)
{
    auto b = hart::processAudioWith (hart::GainDb<float> (0));
    b.withInputSignal (hart::SineWave<float>()).withDuration (0.002).withLabel (label);
    return b;
}

void settings()
{
    auto& c = hart::CLIConfig::getInstance();
    std::ostringstream s;
    s << "settings " << FILE_ID << " root=" << c.getDataRootPath() << " seed=" << c.getRandomSeed() << " decimals=" << c.getLinDecimals() << "," << c.getDbDecimals() << ","
        << c.getSecDecimals() << "," << c.getHzDecimals() << "," << c.getRadDecimals() << " generators=" << c.shouldRunGenerators() << " shuffle=" << c.shouldShuffleTasks()
        << " texts=" << hart::linPrecision << 1.5 << "," << hart::dbPrecision << 1.5 << "," << hart::secPrecision << 1.5 << "," << hart::hzPrecision << 1.5 << "," << hart::radPrecision << 1.5
        << " path=" << hart::toAbsolutePath ("x.wav") << " noise=" << hart::WhiteNoise<double>();
    journal (s.str());
}

void perform (int slot)
{
    journal (std::string ("run ") + FILE_ID + std::to_string (slot));
    const Plan p = planFor (FILE_ID[0], slot);
    switch (p.behaviour)
    {
        case 0: break;
        case 1: sineRun ("fine").expectTrue (hart::PeaksBelow<float> (1)).process(); break;
        case 2: settings(); break;
        case 3: for (int i = 0; i < p.count; ++i) { HART_EXPECT_TRUE (i < 0 && "expected"); } break;
        case 4: for (int i = 0; i < p.count; ++i) sineRun (marker (slot, i)).expectTrue (hart::PeaksBelow<float> (-20)).process(); break;
        case 5: sineRun (marker (slot, 0)).assertFalse (hart::PeaksBelow<float> (1)).process(); break;
        case 6: throw hart::ValueError (marker (slot, 0));
        case 7: throw std::runtime_error (marker (slot, 0));
        case 8: HART_FAIL_TEST_MSG (marker (slot, 0));
        case 9: HART_ASSERT_TRUE (slot < 0); break;
        case 10:  // objects made in other files
        {
            auto b = hart::processAudioWith (effectFromB (-6));
            b.withInputSignal (*signalFromA (5)).withDuration (0.01).withLabel (marker (slot, 0))
                .expectTrue (hart::EqualsTo<float> (hart::WhiteNoise<float> (5) >> hart::GainDb<float> (-6)))
                .expectFalse (hart::EqualsTo<float> (hart::WhiteNoise<float> (6) >> hart::GainDb<float> (-6)))
                .process();
            break;
        }
        case 11: runInA (marker (slot, 0)); break;                      // fails an expectation over there
        case 12: expectInB (true); expectInB (false); break;            // likewise
        default: try { runInA (""); throw hart::IOError ("inner"); } catch (const hart::IOError&) {} break;  // fails an expectation, then is fine
    }
}

// Names given by the check, possibly one which is taken
std::string givenName (int slot)
{
    const std::string own = FILE_ID + std::to_string (slot);
    const char* given = std::getenv (("HV_NAME_" + own).c_str());
    return given ? given : own;
}

}  // namespace

HART_TEST (FILE_ID "0") { perform (0); }
HART_TEST (FILE_ID "1") { perform (1); }
HART_TEST_WITH_TAGS (FILE_ID "2", "[tag]") { perform (2); }
HART_TEST (FILE_ID "3") { perform (3); }
HART_GENERATE (FILE_ID "4") { perform (4); }
HART_GENERATE_WITH_TAGS (FILE_ID "5", "[tag]") { perform (5); }
HART_GENERATE ("shared name " FILE_ID) { perform (6); }
HART_TEST ("shared name " FILE_ID) { perform (7); }
HART_TEST (givenName (8)) { perform (8); }
HART_GENERATE (givenName (9)) { perform (9); }
