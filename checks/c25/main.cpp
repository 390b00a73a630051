#define HART_IMPLEMENTATION
#define FILE_ID "m"
#include "body.hpp"

Plan planFor (char file, int slot)
{
    std::ifstream f (std::getenv ("HV_PLAN"));
    char c; int s; Plan p;
    while (f >> c >> s >> p.behaviour >> p.count) if (c == file && s == slot) return p;
    return { 0, 0 };
}

void journal (const std::string& line) { std::ofstream (std::getenv ("HV_JOURNAL"), std::ios::app) << line << "\n"; }

int main (int argc, char** argv)
{
    HART_RUN_ALL_TESTS (argc, argv);
}
