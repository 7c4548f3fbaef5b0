// Harness support: seeded randomness, violation/coverage reporting, case loop.
#pragma once
#include "vt.h"
#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

typedef std::vector<uint8_t> Bytes;

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed) : s(seed) {}
	uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	long range(long a, long b) { return a + (long)below(b - a + 1); }
	bool chance(int pct) { return (int)below(100) < pct; }
	uint8_t byte() { return (uint8_t)next(); }
	Bytes bytes(size_t n) { Bytes b(n); for (auto &x : b) x = byte(); return b; }
	template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
	template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
};

std::string hex(const uint8_t *p, size_t n);
inline std::string hex(const Bytes &b) { return hex(b.data(), b.size()); }
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

extern bool dbg_mode;   // the case is being compared with and without debugging messages
namespace rep {
extern bool verbose;
extern long cur_case, seen_viol;
// key: stable identifier of *what* failed (used against the known-findings
// list); detail: the concrete witness.
void violation(const std::string &key, const std::string &detail);
void cover(const std::string &what, long n = 1); // event counters -> evidence
void distinct(const std::string &sig);         // mark a distinct non-trivial case
void sample(const std::string &s);             // a written-out case
void note(const char *f, ...) __attribute__((format(printf, 1, 2)));
}
#define CHECK(cond, key, ...) do { if (!(cond)) rep::violation(key, fmt(__VA_ARGS__)); } while (0)

typedef void (*case_fn)(Rng &, long idx);
// keeps: what one case allocates may outlive it (otherwise every case must give back what it took)
struct Mode { const char *name; case_fn fn; void (*setup)(); bool keeps = false; };
// Each harness defines its table of modes.
extern std::vector<Mode> modes();

// Run f with the code-under-test's stdout/stderr captured.
std::string capture(const std::function<void()> &f);
// the same, with what went to stderr kept apart
std::string capture(const std::function<void()> &f, std::string &err);
