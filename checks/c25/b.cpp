#define FILE_ID "b"
#include "body.hpp"

std::unique_ptr<hart::DSP<float>> effectFromB (double gainDb) { return hart::make_unique<hart::GainDb<float>> (gainDb); }
void expectInB (bool holds) { HART_EXPECT_TRUE (holds); }
