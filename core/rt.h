// Real threads, accelerated clock: every clock, sleep and timer of the code
// under test runs K times faster than real time; timer callbacks run in
// threads of their own, as SIGEV_THREAD does, but created here so that the
// thread sanitizer sees them.
#pragma once
#include <atomic>
#include <cstdint>
namespace rt {
constexpr int K = 50;
uint64_t now_us();                    // accelerated time
void sleep_us(uint64_t us);           // accelerated
extern std::atomic<long> inflight;    // timer callbacks now running
extern std::atomic<unsigned long> fired;
void quiesce();                       // wait until no callback runs
}
