// C27: a script of operations as plain data, and what performing it gave. Knows nothing of HART.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

namespace c27
{

enum Op { newBuffer, copyBuffer, moveBuffer, appendBuffer, channelPeak, peak, clearBuffer,
          newEffect, copyEffect, setValue, attach, processBlock,
          newSignal, follow, render, envelope, run, task, registration, numOps };

enum EffectKind { gainDb, gainLinear, hardClip, picky, numEffects };
enum SignalKind { sine, sweep, noise, silence, wav, numSignals };

struct Setting { int kind = 0; double value = 0; };

struct Step
{
    int op = 0;
    int a = 0, b = 0, kind = 0, id = 0;
    std::uint64_t n = 0, m = 0;      // sizes
    double x = 0, y = 0, z = 0;
    bool flag = false, other = false;
    std::vector<double> env;         // start, then triples of kind, target, duration
    std::vector<Setting> settings;   // of a run
    std::string path;                // of a wav file to read or write
};

struct Script { bool isDouble = false; std::string dir; std::vector<Step> steps; };

struct Result
{
    std::string error, message;      // the refusal: its type and its message; "" if there was none
    std::string escaped;             // an exception although they are disabled
    std::string printed;
    bool skipped = false;            // nothing to compare: the operand does not exist, or its construction was refused
    bool loose = false;              // refused somewhere inside: the values are not compared
    std::vector<double> values;
    std::vector<std::string> texts;
};

std::vector<Result> runThrowing (const Script&);
std::vector<Result> runWithoutExceptions (const Script&);

}  // namespace c27
