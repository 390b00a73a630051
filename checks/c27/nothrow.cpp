// Compiled with HART_DO_NOT_THROW_EXCEPTIONS=1, hart=hart_quiet and hv=hv_quiet
#include "machine.hpp"
std::vector<c27::Result> c27::runWithoutExceptions (const Script& s) { return performScript (s); }
