// Exploration of every schedule and every outcome of the C++ memory model (without out-of-thin-air and load buffering)
// for code compiled with -fsanitize=thread and linked with wm_rt.cpp in place of the ThreadSanitizer runtime.
#pragma once
#include "mc.hpp"
namespace wm {
constexpr int kThreads = 3;  // 0 is the thread that creates, joins and destroys
//! starts an execution; weak: loads may return any value the memory model allows, otherwise the latest
void begin(mc::Choices& c, bool weak, unsigned context_bound = ~0u);
//! accesses to these bytes are checked for data races
void track(const void* p, std::size_t n);
//! memory at the same addresses in every execution; tracked
void* arena(std::size_t n, std::size_t align);
bool owns(const void* p);
void spawn(void (*fn)());
//! runs the threads to their end; false if the rest was already explored from the same state
bool run();
//! the harness starts a call: key and progress identify where this thread is
void call(std::uint64_t key, std::uint64_t progress);
std::uint32_t choose(std::uint32_t n);
//! epochs for happens-before questions
std::uint32_t stamp();
bool knows(int thread, std::uint32_t stamp);
int self();
extern std::uint64_t n_states, n_transitions, n_pruned;
}  // namespace wm
