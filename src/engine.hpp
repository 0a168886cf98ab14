// A small property-based testing engine.
//
// Every random decision of a test case is drawn from a Source as a bounded
// integer.  The sequence of drawn integers *is* the test case: it is what is
// shrunk, stored in a replay file, and replayed.
//
// Cases run in forked worker processes, so that a crash, a sanitizer report or
// a hang in the code under test is a failure of that one case.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <cstring>
#include <string>
#include <vector>
#include <stdexcept>
#include <functional>

namespace pbt {

struct Failure { std::string msg; };
struct Discard {};

// SplitMix64
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 0) : s(seed) {}
	uint64_t next() {
		uint64_t z = (s += 0x9e3779b97f4a7c15ull);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
};

class Source {
public:
	// Random source; records into (rec, cap).
	Source(uint64_t seed, uint64_t *rec, uint64_t *nrec, size_t cap)
		: rng_(seed), replay_(nullptr), nreplay_(0), rec_(rec), nrec_(nrec), cap_(cap) { *nrec_ = 0; }
	// Replay source.
	Source(const uint64_t *replay, size_t n, uint64_t *rec, uint64_t *nrec, size_t cap)
		: rng_(0), replay_(replay), nreplay_(n), rec_(rec), nrec_(nrec), cap_(cap) { *nrec_ = 0; }

	// A value in [0, n); the full 64 bits if n == 0.  Smaller is simpler.
	uint64_t below(uint64_t n) {
		uint64_t v;
		if (replay_) {
			v = idx_ < nreplay_ ? replay_[idx_] : 0;
			idx_++;
			if (n && v >= n)
				v = v % n;
		} else {
			v = rng_.next();
			if (n)
				v %= n;
		}
		put(v);
		return v;
	}
	uint64_t bits(unsigned nbits) {
		if (!nbits) return 0;
		return nbits >= 64 ? below(0) : below(1ull << nbits);
	}
	uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
	// True with probability num/den; false is simpler.
	bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
	bool flip() { return below(2) != 0; }
	uint8_t byte() { return (uint8_t)below(256); }
	// Weighted pick; index 0 is simplest.
	size_t weighted(std::initializer_list<unsigned> w) {
		uint64_t sum = 0;
		for (unsigned x : w) sum += x;
		uint64_t v = below(sum);
		size_t i = 0;
		for (unsigned x : w) { if (v < x) return i; v -= x; i++; }
		return 0;
	}
	template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
	// An integer of up to nbits bits with emphasis on boundaries.
	uint64_t interesting(unsigned nbits) {
		uint64_t mask = nbits >= 64 ? ~0ull : (1ull << nbits) - 1;
		switch (weighted({3, 2, 2, 3})) {
		case 0: return bits(nbits < 8 ? nbits : 8) & mask;
		case 1: { unsigned b = (unsigned)below(nbits); uint64_t v = 1ull << b; uint64_t d = below(3); return (v + d - 1) & mask; }
		case 2: return (mask - below(4)) & mask;
		default: return bits((unsigned)range(1, nbits)) & mask;
		}
	}
	bool replaying() const { return replay_ != nullptr; }
	size_t used() const { return idx_; }
private:
	void put(uint64_t v) {
		if (*nrec_ >= cap_) throw Discard{};
		rec_[(*nrec_)++] = v;
	}
	Rng rng_;
	const uint64_t *replay_;
	size_t nreplay_;
	size_t idx_ = 0;
	uint64_t *rec_;
	uint64_t *nrec_;
	size_t cap_;
};

// What a case reports about itself.
class Ctx {
public:
	// Count a classification label.
	void label(const char *name, uint64_t n = 1);
	// Declare the case non-trivial; h identifies it for distinctness.
	void nontrivial(uint64_t h);
	// Provide a human readable description of the case (used for samples
	// and in the replay file).  fn is only called when wanted.
	template <class F> void describe(F fn) { if (want_describe) { std::string d = fn(); log("%s", d.c_str()); } }
	// Append to the description; survives a crash of the case.
	void log(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
	bool want_describe = false;
	bool verbose = false;
	uint64_t hash = 0;
	bool is_nontrivial = false;
};

[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string hex(const uint8_t *p, size_t n, size_t max = 256);
inline std::string hex(const std::vector<uint8_t> &v, size_t max = 256) { return hex(v.data(), v.size(), max); }

inline uint64_t fnv(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ull) {
	const uint8_t *b = (const uint8_t *)p;
	for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 0x100000001b3ull; }
	return h;
}
inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }

#define CHECK(cond, ...) do { if (!(cond)) ::pbt::fail(__VA_ARGS__); } while (0)
#define CHECK_EQ(a, b, what) do { auto _a = (a); auto _b = (b); if (!(_a == _b)) ::pbt::fail("%s: got %#llx, expected %#llx (%s:%d)", what, (unsigned long long)_a, (unsigned long long)_b, __FILE__, __LINE__); } while (0)

struct Suite {
	const char *id;          // property id
	const char *name;        // part of the property
	const char *rule;        // case rule
	void (*run)(Source &, Ctx &);
	uint64_t quick_cases;
	uint64_t thorough_cases;
	unsigned cpu_limit = 20; // per case, seconds of CPU time
	void (*setup)(void) = nullptr; // run once in the parent
	unsigned max_jobs = 64;
	size_t choice_cap = 1 << 17;
};

// A genuine defect that is recorded rather than repaired.  present() shows it
// on the real code; the generators exclude exactly this input by construction.
struct Finding {
	const char *key;
	const char *what;
	bool (*present)(void);
};

int run_main(int argc, char **argv, const char *id, const std::vector<Suite> &suites, const std::vector<Finding> &findings = {});

} // namespace pbt
