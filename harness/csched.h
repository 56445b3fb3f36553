// A user-level scheduler for multi-threaded drivers: at most one managed thread runs at a time and at every
// synchronisation call (and, with instrumented code, memory access) a seeded strategy chooses who goes on.
// Mutexes, condition variables, thread creation and joining are modelled; when no thread can go on, that is a deadlock.
#pragma once
#include <cstdint>
#include <functional>
#include <string>

namespace sched
{
void begin(uint64_t seed, std::function<void(const std::string &)> on_stuck);
void end();
bool active();
void point();                            // an explicit preemption point
void on_sync(std::function<void(char, const void *, int)> f);   // called, in order, for what the threads synchronise on
int alive();                             // managed threads that have not ended, without the caller
int self();                              // index of the calling managed thread (0 = main), -1 if unmanaged
uint64_t steps();
void atomically(const std::function<void()> &f);   // no preemption while f runs (for logging)
}  // namespace sched
