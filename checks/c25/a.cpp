#define FILE_ID "a"
#include "body.hpp"

std::unique_ptr<hart::Signal<float>> signalFromA (std::uint32_t seed) { return hart::make_unique<hart::WhiteNoise<float>> (seed); }
bool runInA (const std::string& label) { sineRun (label).expectTrue (hart::PeaksBelow<float> (-20)).process(); return true; }
