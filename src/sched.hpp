// Interposes the mutexes the library uses (link with sched.o and $(SCHED)).
//
// free mode: threads run freely; lock operations yield now and then.
// controlled mode: one thread runs at a time; at each lock operation (and each
// call of sched::point()) the test case decides which thread runs next.
#pragma once
#include <functional>
#include <vector>
#include "engine.hpp"
namespace sched {
void perturb(uint64_t seed, unsigned den);	// free mode; den 0: off
void point();
// Runs the bodies in threads of their own.
void run(const std::vector<std::function<void()>> &bodies, pbt::Source *controlled);
uint64_t switches();
}
