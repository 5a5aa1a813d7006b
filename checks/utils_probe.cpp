// The only unit that includes copc-lib/utils.hpp, under another namespace name so that it may define its
// function inline or not.
#include <cmath>
#define copc copc_probe
#include "copc-lib/utils.hpp"
#undef copc
bool probe_are_close(double a, double b, double e) { return copc_probe::AreClose(a, b, e); }
