// Property-based testing engine: every random decision of a test is drawn from
// a "tape" of 64-bit choices, so that any test shrinks (by deleting, zeroing
// and lowering choices) and replays without knowing what it generates.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <functional>
#include <sstream>

namespace pt {

typedef uint64_t u64;

inline u64 mix64(u64 x)
{
	x += 0x9e3779b97f4a7c15ULL;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
	return x ^ (x >> 31);
}

struct Failure {
	std::string msg;
};

const size_t kMaxTape = 1 << 15;

// source of choices
class Src {
	u64 s_[2];
	bool replay_;
	bool more_; // random choices after the end of the replayed ones
	u64 *tape_;
	volatile u64 *len_;
	const u64 *in_;
	size_t inLen_;
	size_t pos_;
	u64 *bound_; // number of values of each choice, if wanted
	u64 rnd()
	{
		u64 s1 = s_[0];
		const u64 s0 = s_[1];
		const u64 r = s0 + s1;
		s_[0] = s0;
		s1 ^= s1 << 23;
		s_[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
		return r;
	}
	u64 next(u64 n) // n == 0 : full range
	{
		u64 v;
		if (bound_ && pos_ < kMaxTape) bound_[pos_] = n;
		if (replay_ && (pos_ < inLen_ || !more_)) {
			v = pos_ < inLen_ ? in_[pos_] : 0;
			if (n) v %= n;
		} else {
			v = rnd();
			if (n) v %= n;
		}
		if (pos_ < kMaxTape) {
			tape_[pos_] = v;
			*len_ = pos_ + 1;
		} else {
			v = 0;
		}
		pos_++;
		return v;
	}
public:
	// generation
	Src(u64 seed, u64 *tape, volatile u64 *len)
		: replay_(false), more_(false), tape_(tape), len_(len), in_(0), inLen_(0), pos_(0), bound_(0)
	{
		s_[0] = mix64(seed);
		s_[1] = mix64(seed ^ 0x5851f42d4c957f2dULL) | 1;
		*len_ = 0;
	}
	// replay of in[0..inLen)
	Src(const u64 *in, size_t inLen, u64 *tape, volatile u64 *len)
		: replay_(true), more_(false), tape_(tape), len_(len), in_(in), inLen_(inLen), pos_(0), bound_(0)
	{
		s_[0] = s_[1] = 1;
		*len_ = 0;
	}
	// in[0..inLen), then generation; the number of values of each choice goes to bound
	Src(u64 seed, const u64 *in, size_t inLen, u64 *tape, volatile u64 *len, u64 *bound)
		: replay_(true), more_(true), tape_(tape), len_(len), in_(in), inLen_(inLen), pos_(0), bound_(bound)
	{
		s_[0] = mix64(seed);
		s_[1] = mix64(seed ^ 0x5851f42d4c957f2dULL) | 1;
		*len_ = 0;
	}
	u64 word() { return next(0); }
	u64 below(u64 n) { return n <= 1 ? 0 : next(n); }
	bool flip() { return next(2) != 0; }
	// true with probability num/den; false is the simple choice
	bool chance(u64 num, u64 den) { return next(den) >= den - num; }
	size_t range(size_t lo, size_t hi) { return lo + (size_t)below(hi - lo + 1); } // inclusive
	// index chosen with the given weights
	size_t pick(const int *w, size_t n)
	{
		u64 sum = 0;
		for (size_t i = 0; i < n; i++) sum += (u64)w[i];
		u64 v = below(sum);
		for (size_t i = 0; i < n; i++) {
			if (v < (u64)w[i]) return i;
			v -= (u64)w[i];
		}
		return n - 1;
	}
	size_t drawn() const { return pos_; }
};

// one execution of a test
class Case {
public:
	bool verbose;
	bool nontrivial_;
	std::string text;
	int labels[32];
	int nLabels;
	Case(bool v) : verbose(v), nontrivial_(false), nLabels(0) {}
	void nontrivial(bool b = true) { if (b) nontrivial_ = true; }
	// classify the case
	void cls(const char *name);
	template<class F>
	void note(const char *name, F f)
	{
		if (!verbose) return;
		std::ostringstream os;
		os << name << " = " << f() << "\n";
		text += os.str();
	}
	void say(const std::string& s) { if (verbose) { text += s; text += "\n"; } }
};

// note a value that has operator<<
#define PT_NOTE(c, x) do { if ((c).verbose) { std::ostringstream pt_os; pt_os << #x << " = " << (x) << "\n"; (c).text += pt_os.str(); } } while (0)

typedef void (*TestFn)(Src&, Case&);

struct TestInfo {
	const char *name;
	TestFn fn;
	u64 quick; // number of cases in the quick tier
	u64 thorough;
	unsigned flags;
	u64 step;
};

enum {
	kSameInputs = 1, // case seeds do not depend on the configuration
	kFlaky = 2, // schedule dependent: a failure is reported even if it does not repeat
};

struct Reg {
	Reg(const char *name, TestFn fn, u64 quick, u64 thorough, unsigned flags = 0);
};

#define PT_TEST(name, quick, thorough) \
	static void name(pt::Src& s, pt::Case& c); \
	static pt::Reg name##_reg(#name, name, quick, thorough); \
	static void name(pt::Src& s, pt::Case& c)
#define PT_TEST_F(name, quick, thorough, flags) \
	static void name(pt::Src& s, pt::Case& c); \
	static pt::Reg name##_reg(#name, name, quick, thorough, flags); \
	static void name(pt::Src& s, pt::Case& c)

void fail(const std::string& msg) __attribute__((noreturn));

#define PT_CHECK(cond, msg) do { if (!(cond)) { std::ostringstream pt_os; pt_os << msg << "  [" #cond "]"; pt::fail(pt_os.str()); } } while (0)

struct Config {
	std::string prop;
	std::string variant; // default, snark, ...
	std::string curve; // bn254, snark1, snark2
	int mode;
	bool mulx;
	bool thorough;
	u64 seed;
	std::string key; // text of the configuration
	std::string digestFile; // for cross-configuration comparison
};
extern Config cfg;

// called once in the parent before any test; initialises the library
void initLibrary();
// accumulate into the digest of this configuration (C19)
void digest(const void *p, size_t n);

int runMain(int argc, char **argv);

} // pt
