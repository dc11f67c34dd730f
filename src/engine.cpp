#include "engine.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <set>
#include <map>
#include <unordered_set>
#include <algorithm>
#include <exception>

namespace pt {

Config cfg;

static std::vector<TestInfo>& tests()
{
	static std::vector<TestInfo> v;
	return v;
}

Reg::Reg(const char *name, TestFn fn, u64 quick, u64 thorough, unsigned flags)
{
	TestInfo t;
	t.name = name;
	t.fn = fn;
	t.quick = quick;
	t.thorough = thorough;
	t.flags = flags;
	t.step = 0;
	tests().push_back(t);
}

void fail(const std::string& msg)
{
	Failure f;
	f.msg = msg;
	throw f;
}

const int kMaxLabel = 96;

struct Shm {
	u64 tape[kMaxTape];
	volatile u64 tapeLen;
	volatile int status; // 0 running, 1 done, 2 failed
	volatile u64 caseNo; // next case to run
	volatile u64 evals;
	volatile u64 nontrivial;
	volatile u64 distinct;
	char msg[8192];
	char text[1 << 20];
	volatile u64 corpus, features; // guided search
	char labelName[kMaxLabel][48];
	volatile u64 labelCount[kMaxLabel];
	volatile int nLabel;
	volatile int sampleNum;
	u64 sampleCase[16];
};

static Shm *shm;
static volatile pid_t g_child = 0;

static int labelIndex(const char *name)
{
	int n = shm->nLabel;
	for (int i = 0; i < n; i++) {
		if (strncmp(shm->labelName[i], name, 47) == 0) return i;
	}
	if (n == kMaxLabel) return -1;
	strncpy(shm->labelName[n], name, 47);
	shm->labelName[n][47] = 0;
	shm->labelCount[n] = 0;
	shm->nLabel = n + 1;
	return n;
}

void Case::cls(const char *name)
{
	if (nLabels == 32) return;
	int id = labelIndex(name);
	if (id < 0) return;
	for (int i = 0; i < nLabels; i++) if (labels[i] == id) return;
	labels[nLabels++] = id;
}

static u64 g_dig[2] = { 0x1234567, 0x89abcdef };
void digest(const void *p, size_t n)
{
	const unsigned char *q = (const unsigned char*)p;
	while (n >= 8) {
		u64 v;
		memcpy(&v, q, 8);
		g_dig[0] = mix64(g_dig[0] ^ v);
		g_dig[1] = mix64(g_dig[1] + v * 0x9e3779b97f4a7c15ULL);
		q += 8;
		n -= 8;
	}
	u64 v = n;
	memcpy(&v, q, n);
	g_dig[0] = mix64(g_dig[0] ^ v);
	g_dig[1] = mix64(g_dig[1] + v);
}

static double now()
{
	timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return (double)ts.tv_sec + (double)ts.tv_nsec * 1e-9;
}

static u64 hashStr(const std::string& s)
{
	u64 h = 1469598103934665603ULL;
	for (size_t i = 0; i < s.size(); i++) h = (h ^ (unsigned char)s[i]) * 1099511628211ULL;
	return mix64(h);
}

static void putMsg(const std::string& m)
{
	strncpy(shm->msg, m.c_str(), sizeof(shm->msg) - 1);
	shm->msg[sizeof(shm->msg) - 1] = 0;
}

// true if the case passed
static bool runOne(const TestInfo& t, Src& s, Case& c)
{
	try {
		t.fn(s, c);
		return true;
	} catch (Failure& f) {
		putMsg(f.msg);
	} catch (std::exception& e) {
		putMsg(std::string("unexpected exception: ") + e.what());
	} catch (...) {
		putMsg("unexpected exception of unknown type");
	}
	return false;
}

static void limitChild(unsigned sec)
{
	alarm(sec);
	struct rlimit r;
	r.rlim_cur = r.rlim_max = 0;
	setrlimit(RLIMIT_CORE, &r);
}

static const unsigned kHangSec = 90;  // for up to 16 cases
static unsigned g_tapeSec = 90;       // for one case run on its own
static const unsigned kTapeSec = 25;  // for repeating one case that hung or while shrinking

static void quietStdio()
{
	// library diagnostics must not be mistaken for ours
	FILE *f = freopen("/dev/null", "w", stdout);
	(void)f;
	f = freopen("/dev/null", "w", stderr);
	(void)f;
}

static u64 caseSeed(const TestInfo& t, u64 i)
{
	u64 h = mix64(cfg.seed) ^ hashStr(t.name) ^ hashStr(cfg.prop);
	if (!(t.flags & kSameInputs)) h ^= hashStr(cfg.key);
	return mix64(h) ^ mix64(i * 2 + 1);
}

static bool g_keepStderr = false;

static std::string describeStatus(int st, unsigned limit = kHangSec)
{
	char buf[128];
	if (WIFSIGNALED(st)) {
		int sig = WTERMSIG(st);
		if (sig == SIGALRM) snprintf(buf, sizeof(buf), "no result within %u s (hang)", limit);
		else snprintf(buf, sizeof(buf), "process killed by signal %d (%s)", sig, strsignal(sig));
	} else {
		snprintf(buf, sizeof(buf), "process terminated itself with exit status %d", WEXITSTATUS(st));
	}
	return buf;
}

static bool g_lastHang = false; // the last runTape ended by its time limit

// run one tape in a child. 0: passed, 1: failed (msg/text set)
static int runTape(const TestInfo& t, const std::vector<u64>& tape, bool verbose, std::vector<u64> *used = 0)
{
	shm->status = 0;
	shm->msg[0] = 0;
	shm->text[0] = 0;
	shm->tapeLen = 0;
	g_lastHang = false;
	fflush(0);
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); exit(2); }
	if (pid == 0) {
		limitChild(g_tapeSec);
		if (!g_keepStderr) quietStdio();
		Src s(tape.empty() ? 0 : &tape[0], tape.size(), shm->tape, &shm->tapeLen);
		Case c(verbose);
		bool ok = runOne(t, s, c);
		strncpy(shm->text, c.text.c_str(), sizeof(shm->text) - 1);
		shm->status = ok ? 1 : 2;
		_exit(0);
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	if (used) used->assign(shm->tape, shm->tape + shm->tapeLen);
	if (shm->status == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
	if (shm->status == 2) return 1;
	putMsg(describeStatus(st, g_tapeSec));
	g_lastHang = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
	return 1;
}

// child-side loop
static void runBatch(const TestInfo& t, u64 from, u64 to, double deadline, bool count = true)
{
	std::unordered_set<u64> seen;
	std::vector<u64> perCase;
	unsigned cnt = 0;
	for (u64 i = from; i < to; i++) {
		if ((cnt++ & 15) == 0) alarm(kHangSec);
		shm->caseNo = i;
		Src s(caseSeed(t, i), shm->tape, &shm->tapeLen);
		Case c(false);
		g_dig[0] = 0x1234567;
		g_dig[1] = 0x89abcdef;
		bool ok = runOne(t, s, c);
		if (!cfg.digestFile.empty()) perCase.push_back(g_dig[0] ^ mix64(g_dig[1]));
		if (!ok) {
			shm->status = 2;
			_exit(0);
		}
		if (!count) continue;
		shm->evals++;
		for (int j = 0; j < c.nLabels; j++) shm->labelCount[c.labels[j]]++;
		if (c.nontrivial_) {
			shm->nontrivial++;
			u64 h = 0;
			for (u64 j = 0; j < shm->tapeLen; j++) h = mix64(h ^ shm->tape[j]);
			if (seen.insert(h).second) {
				shm->distinct++;
				if (shm->sampleNum < 2) {
					shm->sampleCase[shm->sampleNum] = i;
					shm->sampleNum++;
				}
			}
		}
		if (now() > deadline) {
			shm->caseNo = i + 1;
			break;
		}
	}
	if (count && !cfg.digestFile.empty()) {
		FILE *fp = fopen((cfg.digestFile + "." + t.name).c_str(), "wb");
		if (fp) {
			if (!perCase.empty()) fwrite(&perCase[0], 8, perCase.size(), fp);
			fclose(fp);
		}
	}
	shm->status = 1;
	_exit(0);
}

// Coverage-guided search: in builds of the library and the harness with
// -fsanitize-coverage=trace-pc-guard,trace-cmp the functions below see which
// edges and comparisons a case reaches; tapes that reach something new are kept
// and mutated, comparison operands becoming choices.
namespace cov {

const size_t kMaxEdge = 1 << 20;
const size_t kMaxVal = 1 << 17;
const size_t kMaxPair = 4096;
static unsigned char edge[kMaxEdge];
static uint32_t edgeNum = 1;
static uint32_t touched[kMaxEdge];
static size_t touchedNum;
static unsigned char val[kMaxVal / 8]; // features of comparisons in this case
struct Pair { u64 a, b; };
static uint32_t valTouched[8192];
static Pair valPair[8192]; // the comparison behind each
static size_t valTouchedNum;
static Pair pairTbl[kMaxPair]; // operands of any late comparison
static size_t pairNum;
static std::vector<u64> constants; // of the code
static std::unordered_set<u64> constantSeen;
static bool on;

static inline void cmp(const void *pc, u64 a, u64 b)
{
	if (!on || a == b) return;
	u64 d = a ^ b;
	uint32_t dist = (uint32_t)__builtin_popcountll(d);
	uint32_t lead = (uint32_t)__builtin_clzll(d);
	uint32_t h = (uint32_t)(mix64((u64)(uintptr_t)pc) & (kMaxVal / 64 - 1));
	uint32_t idx[2] = { h * 64 + (dist & 63), (uint32_t)((h ^ 0x155) & (kMaxVal / 64 - 1)) * 64 + lead };
	for (int i = 0; i < 2; i++) {
		unsigned char m = (unsigned char)(1 << (idx[i] & 7));
		if (val[idx[i] >> 3] & m) continue;
		val[idx[i] >> 3] |= m;
		Pair p = { a, b };
		if (valTouchedNum < sizeof(valTouched) / sizeof(valTouched[0])) {
			valPair[valTouchedNum] = p;
			valTouched[valTouchedNum++] = idx[i];
		}
		// the first comparisons at each distance become material
		if (a > 255 || b > 255) pairTbl[pairNum++ % kMaxPair] = p;
	}
}

static inline void cmpConst(const void *pc, u64 a, u64 b)
{
	if (!on) return;
	if (a > 255 && constants.size() < 512 && constantSeen.insert(a).second) constants.push_back(a);
	cmp(pc, a, b);
}

static void reset()
{
	for (size_t i = 0; i < touchedNum; i++) edge[touched[i]] = 0;
	for (size_t i = 0; i < valTouchedNum; i++) val[valTouched[i] >> 3] = 0;
	if (valTouchedNum == sizeof(valTouched) / sizeof(valTouched[0])) memset(val, 0, sizeof(val));
	touchedNum = valTouchedNum = 0;
}

static unsigned bucket(unsigned n)
{
	return n < 4 ? n - 1 : n < 8 ? 3 : n < 16 ? 4 : n < 32 ? 5 : n < 128 ? 6 : 7;
}

} // cov

extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop)
{
	if (start == stop || *start) return;
	for (uint32_t *p = start; p < stop; p++) *p = cov::edgeNum < cov::kMaxEdge - 1 ? cov::edgeNum++ : 0;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *guard)
{
	uint32_t g = *guard;
	if (!cov::on || g == 0) return;
	if (cov::edge[g] == 0) cov::touched[cov::touchedNum++] = g;
	if (cov::edge[g] != 255) cov::edge[g]++;
}
void __sanitizer_cov_trace_cmp1(uint8_t, uint8_t) {}
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { cov::cmp(__builtin_return_address(0), a, b); }
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { cov::cmp(__builtin_return_address(0), a, b); }
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { cov::cmp(__builtin_return_address(0), a, b); }
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { cov::cmpConst(__builtin_return_address(0), a, b); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { cov::cmpConst(__builtin_return_address(0), a, b); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { cov::cmpConst(__builtin_return_address(0), a, b); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { cov::cmpConst(__builtin_return_address(0), a, b); }
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *cases)
{
	for (u64 i = 0; i < cases[0]; i++) cov::cmpConst(__builtin_return_address(0), cases[2 + i], v);
}
}

struct Mutator {
	u64 s;
	const std::vector<cov::Pair> *own; // comparisons the tape at hand is known for
	u64 rnd() { return mix64(s += 0x9e3779b97f4a7c15ULL); }
	u64 below(u64 n) { return n <= 1 ? 0 : rnd() % n; }
	u64 material()
	{
		switch (below(8)) {
		case 0: return u64(1) << below(64);
		case 1: return u64(0) - (u64(1) << below(64));
		case 2: return below(2) ? 0 : ~u64(0);
		case 3: return rnd();
		case 4:
			if (!cov::constants.empty()) return cov::constants[below(cov::constants.size())];
			// fall through
		case 5:
			if (!own->empty()) {
				const cov::Pair& p = (*own)[below(own->size())];
				return below(2) ? p.a : p.b;
			}
			// fall through
		default: {
			size_t n = cov::pairNum < cov::kMaxPair ? cov::pairNum : cov::kMaxPair;
			if (n == 0) return rnd();
			const cov::Pair& p = cov::pairTbl[below(n)];
			u64 v = below(2) ? p.a : p.b;
			if (below(4) == 0) v += below(3) - 1;
			return v;
		}
		}
	}
	u64 choice(u64 old, u64 n)
	{
		if (n) {
			if (n <= 1) return 0;
			if (n > 64 && below(3) == 0) return (old + below(3) - 1) % n;
			return below(n);
		}
		switch (below(6)) {
		case 0: return old ^ (u64(1) << below(64));
		case 1: return old + below(17) - 8;
		case 2: return rnd();
		default: return material();
		}
	}
	// replace a choice that took part in a comparison by the other operand
	bool inputToState(std::vector<u64>& t, const std::vector<u64>& bound)
	{
		const bool mine = !own->empty() && below(4);
		size_t n = mine ? own->size() : cov::pairNum < cov::kMaxPair ? cov::pairNum : cov::kMaxPair;
		if (n == 0 || t.empty()) return false;
		for (int k = 0; k < 16; k++) {
			size_t j = below(n);
			const cov::Pair& q = mine ? (*own)[j] : cov::pairTbl[j];
			u64 a = q.a, b = q.b;
			if (below(2)) std::swap(a, b);
			size_t at = below(t.size());
			for (size_t i = 0; i < t.size(); i++, at = at + 1 == t.size() ? 0 : at + 1) {
				if (t[at] == a && at < bound.size() && bound[at] == 0) {
					t[at] = b;
					return true;
				}
			}
		}
		return false;
	}
	bool mutate(std::vector<u64>& t, const std::vector<u64>& bound, const std::vector<u64>& other)
	{
		bool more = false;
		int k = 1 + (int)below(below(4) ? 3 : 8);
		for (int i = 0; i < k && !t.empty(); i++) {
			size_t at = below(t.size());
			u64 n = at < bound.size() ? bound[at] : 0;
			switch (below(12)) {
			case 0: t.erase(t.begin() + at, t.begin() + at + 1 + below(std::min<size_t>(t.size() - at, 8))); break;
			case 1: t.insert(t.begin() + at, choice(0, n)); break;
			case 2: t[at] = t[below(t.size())]; break;
			case 3: {
				// a run copied elsewhere
				size_t from = below(t.size()), len = 1 + below(8);
				for (size_t j = 0; j < len && from + j < t.size() && at + j < t.size(); j++) t[at + j] = t[from + j];
				break;
			}
			case 4: t.resize(at); more = true; break;
			case 5:
				if (!other.empty()) {
					size_t from = std::min(at, other.size());
					t.resize(at);
					t.insert(t.end(), other.begin() + from, other.end());
				}
				break;
			case 6: case 7: if (inputToState(t, bound)) break; // fall through
			default: t[at] = choice(t[at], n);
			}
		}
		return more;
	}
};

static void runGuided(const TestInfo& t, double deadline)
{
	struct Entry { std::vector<u64> tape, bound; std::vector<cov::Pair> pair; };
	std::vector<Entry> corpus;
	std::unordered_set<u64> seen, feat;
	static u64 bound[kMaxTape];
	Mutator m;
	m.s = caseSeed(t, ~u64(0));
	for (u64 i = 0; now() < deadline; i++) {
		if ((i & 15) == 0) alarm(kHangSec);
		std::vector<u64> in;
		bool more = true;
		if (i >= 64 && !corpus.empty() && m.below(8)) {
			// recent entries more often
			size_t n = corpus.size();
			size_t j = m.below(2) ? n - 1 - m.below(std::min<size_t>(n, 16)) : m.below(n);
			in = corpus[j].tape;
			m.own = &corpus[j].pair;
			more = m.mutate(in, corpus[j].bound, corpus[m.below(n)].tape);
		}
		shm->caseNo = i;
		Case c(false);
		if (in.size() > kMaxTape) in.resize(kMaxTape);
		// without a continuation the rest is zeros: the simplest choices
		if (!more && m.below(2)) more = true;
		if (!more) in.resize(std::min<size_t>(kMaxTape, in.size() + 64), 0);
		Src s(caseSeed(t, i), in.empty() ? 0 : &in[0], in.size(), shm->tape, &shm->tapeLen, bound);
		cov::reset();
		cov::on = true;
		bool ok = runOne(t, s, c);
		cov::on = false;
		if (!ok) {
			shm->status = 2;
			_exit(0);
		}
		shm->evals++;
		for (int j = 0; j < c.nLabels; j++) shm->labelCount[c.labels[j]]++;
		if (c.nontrivial_) {
			shm->nontrivial++;
			u64 h = 0;
			for (u64 j = 0; j < shm->tapeLen; j++) h = mix64(h ^ shm->tape[j]);
			if (seen.insert(h).second) {
				shm->distinct++;
				if (i < 64 && shm->sampleNum < 2) shm->sampleCase[shm->sampleNum++] = i;
			}
		}
		bool fresh = false;
		std::vector<cov::Pair> pairs;
		for (size_t j = 0; j < cov::touchedNum; j++) {
			uint32_t e = cov::touched[j];
			if (feat.insert((u64)e * 8 + cov::bucket(cov::edge[e])).second) fresh = true;
		}
		for (size_t j = 0; j < cov::valTouchedNum; j++) {
			if (!feat.insert((u64(1) << 40) + cov::valTouched[j]).second) continue;
			fresh = true;
			if (pairs.size() < 64) pairs.push_back(cov::valPair[j]);
		}
		if (fresh && shm->tapeLen <= 4000) {
			Entry e;
			e.tape.assign(shm->tape, shm->tape + shm->tapeLen);
			e.bound.assign(bound, bound + shm->tapeLen);
			e.pair.swap(pairs);
			if (corpus.size() < 4096) corpus.push_back(e);
			else corpus[m.below(corpus.size())] = e;
		}
		shm->corpus = corpus.size();
		shm->features = feat.size();
	}
	shm->status = 1;
	_exit(0);
}

// run the generated cases from..to (both included) in a fresh child.
// true if exactly the last one failed
static bool runHistory(const TestInfo& t, u64 from, u64 to)
{
	shm->status = 0;
	shm->msg[0] = 0;
	shm->text[0] = 0;
	fflush(0);
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); exit(2); }
	if (pid == 0) {
		limitChild(kHangSec);
		if (!g_keepStderr) quietStdio();
		runBatch(t, from, to + 1, now() + 3600, false);
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	if (shm->status == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
	if (shm->status != 2) putMsg(describeStatus(st));
	return true;
}

// for shrinking: a candidate that hangs is another failure than the one at hand
static int tryTape(const TestInfo& t, const std::vector<u64>& tape, std::vector<u64> *used = 0)
{
	g_tapeSec = 5;
	int r = runTape(t, tape, false, used);
	g_tapeSec = kTapeSec;
	return r == 1 && !g_lastHang ? 1 : 0;
}

static std::vector<u64> shrink(const TestInfo& t, std::vector<u64> best, double deadline, int *execs)
{
	std::vector<u64> used;
	if (tryTape(t, best, &used) == 1 && used.size() <= best.size()) best = used;
	bool progress = true;
	while (progress && now() < deadline) {
		progress = false;
		// delete chunks
		for (size_t k = best.size(); k >= 1 && now() < deadline; k /= 2) {
			for (size_t i = 0; i + k <= best.size() && now() < deadline;) {
				std::vector<u64> cand(best.begin(), best.begin() + i);
				cand.insert(cand.end(), best.begin() + i + k, best.end());
				(*execs)++;
				if (tryTape(t, cand, &used) == 1) {
					if (used.size() < cand.size()) cand = used;
					best = cand;
					progress = true;
				} else {
					i += k;
				}
			}
		}
		// zero chunks
		for (size_t k = best.size(); k >= 1 && now() < deadline; k /= 2) {
			for (size_t i = 0; i + k <= best.size() && now() < deadline; i += k) {
				std::vector<u64> cand = best;
				bool any = false;
				for (size_t j = i; j < i + k; j++) { if (cand[j]) any = true; cand[j] = 0; }
				if (!any) continue;
				(*execs)++;
				if (tryTape(t, cand, &used) == 1) {
					best = cand;
					progress = true;
				}
			}
		}
		// lower single choices
		for (size_t i = 0; i < best.size() && now() < deadline; i++) {
			u64 lo = 0, hi = best[i]; // hi fails
			int iter = 0;
			while (lo < hi && iter++ < 70 && now() < deadline) {
				u64 mid = lo + (hi - lo) / 2;
				std::vector<u64> cand = best;
				cand[i] = mid;
				(*execs)++;
				if (tryTape(t, cand, &used) == 1) {
					hi = mid;
					best = cand;
					progress = true;
				} else {
					if (iter > 8 && best[i] > 0xffff) break;
					lo = mid + 1;
				}
			}
		}
	}
	while (!best.empty() && best.back() == 0) best.pop_back();
	return best;
}

static std::string jsonStr(const std::string& s)
{
	std::string o = "\"";
	char buf[8];
	for (size_t i = 0; i < s.size(); i++) {
		unsigned char ch = (unsigned char)s[i];
		if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
		else if (ch == '\n') o += "\\n";
		else if (ch < 32 || ch >= 127) { snprintf(buf, sizeof(buf), "\\u%04x", ch); o += buf; }
		else o += (char)ch;
	}
	return o + "\"";
}

static std::string cut(const std::string& s, size_t n)
{
	return s.size() <= n ? s : s.substr(0, n) + "...";
}

static void onTerm(int)
{
	if (g_child > 0) kill(g_child, SIGKILL);
	_exit(9);
}

int runMain(int argc, char **argv)
{
	std::map<std::string, std::string> opt;
	for (int i = 1; i + 1 < argc; i += 2) opt[argv[i]] = argv[i + 1];
	cfg.prop = opt["--prop"];
	cfg.variant = opt["--variant"];
	cfg.curve = opt["--curve"];
	cfg.mode = atoi(opt["--mode"].c_str());
	cfg.mulx = opt["--mulx"] != "0";
	cfg.thorough = opt["--tier"] == "thorough";
	cfg.seed = strtoull(opt["--seed"].c_str(), 0, 10);
	cfg.key = opt["--key"];
	double scale = opt.count("--scale") ? atof(opt["--scale"].c_str()) : 1.0;
	double budget = opt.count("--time") ? atof(opt["--time"].c_str()) : 60.0;
	const std::string only = opt["--only"];
	const std::string out = opt["--out"];
	const std::string replay = opt["--replay-tape"];
	cfg.digestFile = opt["--digest"];
	g_keepStderr = opt["--keep-output"] == "1";
	const bool guided = opt["--guided"] == "1";

	shm = (Shm*)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (shm == MAP_FAILED) { perror("mmap"); return 2; }
	memset(shm, 0, 4096);
	signal(SIGTERM, onTerm);
	setvbuf(stdout, 0, _IOLBF, 1 << 16);

	// The library is initialised in a child first: if that dies, it is a
	// failure of every property, not an error of this program.
	fflush(0);
	{
		pid_t pid = fork();
		if (pid == 0) {
			limitChild(kHangSec);
			try { initLibrary(); } catch (std::exception& e) { fprintf(stderr, "init: %s\n", e.what()); _exit(3); } catch (...) { _exit(3); }
			_exit(0);
		}
		int st = 0;
		while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
		if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
			FILE *fp = fopen(out.c_str(), "w");
			if (!fp) return 2;
			fprintf(fp, "{\"ok\":false,\"evals\":1,\"nontrivial\":0,\"distinct\":0,\"tests\":{},\"samples\":[],"
				"\"fail\":{\"test\":\"init\",\"tape\":[],\"msg\":%s,\"text\":\"\",\"repeat\":3,\"execs\":0,\"case\":0}}\n",
				jsonStr("library initialisation: " + describeStatus(st)).c_str());
			fclose(fp);
			return 0;
		}
	}
	initLibrary();

	std::vector<TestInfo>& ts = tests();
	if (opt.count("--digest-tape")) {
		// run one tape in this process and print its digest
		for (size_t k = 0; k < ts.size(); k++) {
			if (only != ts[k].name) continue;
			std::vector<u64> tape;
			std::istringstream is(opt["--digest-tape"] == "-" ? std::string() : opt["--digest-tape"]);
			std::string w;
			while (std::getline(is, w, ',')) if (!w.empty()) tape.push_back(strtoull(w.c_str(), 0, 10));
			alarm(kHangSec);
			Src s(tape.empty() ? shm->tape : &tape[0], tape.size(), shm->tape, &shm->tapeLen);
			Case c(true);
			bool ok = runOne(ts[k], s, c);
			if (opt["--keep-output"] == "1") printf("%s\n", c.text.c_str());
			printf("result: %s digest %016llx\n", ok ? "pass" : shm->msg, (unsigned long long)(g_dig[0] ^ mix64(g_dig[1])));
			return 0;
		}
		return 2;
	}
	if (opt.count("--show-case")) {
		// describe one generated case and its digest
		u64 i = strtoull(opt["--show-case"].c_str(), 0, 10);
		for (size_t k = 0; k < ts.size(); k++) {
			if (only != ts[k].name) continue;
			Src s(caseSeed(ts[k], i), shm->tape, &shm->tapeLen);
			Case c(true);
			bool ok = runOne(ts[k], s, c);
			printf("tape: ");
			for (size_t j = 0; j < shm->tapeLen; j++) printf("%s%llu", j ? "," : "", (unsigned long long)shm->tape[j]);
			printf("\n%s\nresult: %s digest %016llx\n", c.text.c_str(), ok ? "pass" : shm->msg, (unsigned long long)(g_dig[0] ^ mix64(g_dig[1])));
			return 0;
		}
		return 2;
	}
	if (!replay.empty()) {
		for (size_t i = 0; i < ts.size(); i++) {
			if (only != ts[i].name) continue;
			std::vector<u64> tape;
			std::istringstream is(replay == "-" ? std::string() : replay);
			std::string w;
			while (std::getline(is, w, ',')) if (!w.empty()) tape.push_back(strtoull(w.c_str(), 0, 10));
			int r = runTape(ts[i], tape, true);
			printf("%s\n", shm->text);
			printf("%s: %s %s\n", ts[i].name, r ? "FAIL" : "pass", r ? shm->msg : "");
			return r ? 1 : 0;
		}
		fprintf(stderr, "no such test %s\n", only.c_str());
		return 2;
	}

	if (opt.count("--replay-history")) {
		u64 from = 0, to = 0;
		sscanf(opt["--replay-history"].c_str(), "%llu-%llu", (unsigned long long*)&from, (unsigned long long*)&to);
		for (size_t i = 0; i < ts.size(); i++) {
			if (only != ts[i].name) continue;
			bool f = runHistory(ts[i], from, to);
			printf("%s: cases %llu..%llu: %s %s\n", ts[i].name, (unsigned long long)from, (unsigned long long)to, f ? "FAIL" : "pass", f ? shm->msg : "");
			return f ? 1 : 0;
		}
		fprintf(stderr, "no such test %s\n", only.c_str());
		return 2;
	}

	const double start = now();
	u64 evals = 0, nontriv = 0, distinct = 0;
	std::string testsJson, samplesJson;
	bool failed = false;
	std::string failJson;
	u64 totalWeight = 0;
	size_t nTests = 0;
	for (size_t i = 0; i < ts.size(); i++) {
		if (!only.empty() && only != ts[i].name) continue;
		totalWeight++;
		nTests++;
	}
	size_t done = 0;
	for (size_t ti = 0; ti < ts.size() && !failed; ti++) {
		const TestInfo& t = ts[ti];
		if (!only.empty() && only != t.name) continue;
		u64 n = cfg.thorough ? t.thorough : t.quick;
		n = (u64)((double)n * scale);
		if (n == 0) n = 1;
		memset((void*)shm->labelCount, 0, sizeof(shm->labelCount));
		shm->nLabel = 0;
		shm->evals = shm->nontrivial = shm->distinct = 0;
		shm->sampleNum = 0;
		shm->status = 0;
		shm->msg[0] = 0;
		shm->caseNo = 0;
		// remaining time shared among the remaining tests (at least an equal share)
		double left = budget - (now() - start);
		double share = left / (double)(nTests - done) * 2.0;
		if (share > left) share = left;
		if (guided) share = left / (double)(nTests - done);
		if (share < 1.0) share = 1.0;
		done++;
		shm->corpus = shm->features = 0;
		double deadline = now() + share;
		double t0 = now();
		fflush(0);
		pid_t pid = fork();
		if (pid < 0) { perror("fork"); return 2; }
		if (pid == 0) {
			limitChild(kHangSec);
			if (!g_keepStderr) quietStdio();
			if (guided) runGuided(t, deadline);
			runBatch(t, 0, n, deadline);
		}
		g_child = pid;
		int st = 0;
		while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
		g_child = 0;
		double t1 = now();
		evals += shm->evals;
		nontriv += shm->nontrivial;
		distinct += shm->distinct;
		{
			std::ostringstream os;
			os << (testsJson.empty() ? "" : ",") << jsonStr(t.name) << ":{\"evals\":" << shm->evals << ",\"planned\":" << (guided ? (u64)shm->evals : n)
				<< ",\"nontrivial\":" << shm->nontrivial << ",\"distinct\":" << shm->distinct << ",\"sec\":" << (t1 - t0);
			if (guided) os << ",\"corpus\":" << shm->corpus << ",\"features\":" << shm->features;
			os << ",\"classes\":{";
			for (int j = 0; j < shm->nLabel; j++) {
				os << (j ? "," : "") << jsonStr(shm->labelName[j]) << ":" << shm->labelCount[j];
			}
			os << "}}";
			testsJson += os.str();
		}
		if (shm->status == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
			// samples
			int ns = shm->sampleNum;
			std::vector<u64> sc(shm->sampleCase, shm->sampleCase + ns);
			for (int j = 0; j < ns && j < 1; j++) {
				// regenerate the tape of the case, then describe it
				u64 seed = caseSeed(t, sc[j]);
				shm->text[0] = 0;
				shm->status = 0;
				fflush(0);
				pid_t p2 = fork();
				if (p2 == 0) {
					limitChild(kHangSec);
					quietStdio();
					Src s(seed, shm->tape, &shm->tapeLen);
					Case c(true);
					runOne(t, s, c);
					strncpy(shm->text, c.text.c_str(), sizeof(shm->text) - 1);
					_exit(0);
				}
				int st2;
				while (waitpid(p2, &st2, 0) < 0 && errno == EINTR) {}
				std::string txt = cut(shm->text, 1200);
				samplesJson += (samplesJson.empty() ? "" : ",") + jsonStr(std::string(t.name) + " [" + cfg.key + "]: " + txt);
			}
			continue;
		}
		// failure
		failed = true;
		u64 caseNo = shm->caseNo;
		std::string msg0 = shm->status == 2 ? std::string(shm->msg) : describeStatus(st);
		std::vector<u64> tape(shm->tape, shm->tape + shm->tapeLen);
		int execs = 0;
		std::vector<u64> best = tape;
		std::vector<u64> full = tape;
		int rep = 0;
		bool hang = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
		g_tapeSec = kTapeSec;
		if (hang && runTape(t, tape, false) == 1 && g_lastHang) {
			// repeats itself: each further run costs the whole limit
			rep = 1;
			for (int k = 0; k < 2; k++) rep += runTape(t, best, false);
		} else if (runTape(t, tape, false) == 1) {
			if (!hang) best = shrink(t, tape, now() + 20, &execs);
			for (int k = 0; k < 3; k++) rep += runTape(t, best, false);
			if (rep < 3) {
				best = tape;
				rep = 0;
				for (int k = 0; k < 3; k++) rep += runTape(t, best, false);
			}
		} else {
			for (int k = 0; k < 3; k++) rep += runTape(t, best, false);
		}
		// a failure that needs the cases before it
		u64 histFrom = 0;
		int histRep = 0;
		if (rep == 0 && !hang && !guided) {
			for (int k = 0; k < 3; k++) histRep += runHistory(t, 0, caseNo);
			if (histRep == 3) {
				double d2 = now() + 20;
				u64 lo = 0, hi = caseNo; // fewest cases that still fail
				while (lo < hi && now() < d2) {
					u64 mid = lo + (hi - lo + 1) / 2;
					if (runHistory(t, mid, caseNo)) lo = mid;
					else hi = mid - 1;
				}
				histFrom = lo;
				if (!runHistory(t, histFrom, caseNo)) histFrom = 0;
			}
		}
		std::string msg, text;
		if (rep == 0 && histRep > 0) {
			msg = "after the cases before it: " + msg0;
			runTape(t, best, true);
			text = shm->text;
		} else if (hang && rep == 3) {
			msg = msg0;
			g_tapeSec = 5;
			runTape(t, best, true);
			text = shm->text;
		} else if (runTape(t, best, true) == 1) {
			msg = shm->msg;
			text = shm->text;
		} else {
			msg = msg0;
			text = shm->text;
		}
		std::ostringstream os;
		os << "{\"test\":" << jsonStr(t.name) << ",\"case\":" << caseNo << ",\"msg\":" << jsonStr(msg) << ",\"firstMsg\":" << jsonStr(cut(msg0, 2000))
			<< ",\"text\":" << jsonStr(cut(text, 20000)) << ",\"repeat\":" << rep << ",\"flaky\":" << ((t.flags & kFlaky) ? "true" : "false") << ",\"histRepeat\":" << histRep << ",\"histFrom\":" << histFrom << ",\"execs\":" << execs << ",\"tape\":[";
		for (size_t k = 0; k < best.size(); k++) os << (k ? "," : "") << best[k];
		os << "],\"full\":[";
		for (size_t k = 0; k < full.size() && k < 5000; k++) os << (k ? "," : "") << full[k];
		os << "]}";
		failJson = os.str();
	}
	FILE *fp = fopen(out.c_str(), "w");
	if (!fp) { perror(out.c_str()); return 2; }
	fprintf(fp, "{\"ok\":%s,\"evals\":%llu,\"nontrivial\":%llu,\"distinct\":%llu,\"sec\":%.2f,\"tests\":{%s},\"samples\":[%s]%s%s}\n",
		failed ? "false" : "true", (unsigned long long)evals, (unsigned long long)nontriv, (unsigned long long)distinct, now() - start,
		testsJson.c_str(), samplesJson.c_str(), failed ? ",\"fail\":" : "", failJson.c_str());
	fclose(fp);
	return 0;
}

} // pt

int main(int argc, char **argv)
{
	return pt::runMain(argc, argv);
}
