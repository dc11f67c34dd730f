// Operations on distinct objects are independent: programs over own objects give the same results alone, at the same
// time in several threads, and with other programs run from a signal handler at chosen instructions of theirs.
#include "script.h"
#include <pthread.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <ucontext.h>
#include <stdlib.h>
#include <string.h>
#include <new>

#if defined(__SANITIZE_THREAD__)
#define PT_TSAN 1
extern "C" const char *__tsan_default_options();
extern "C" const char *__tsan_default_options() { return "halt_on_error=1:exitcode=66"; }
#endif

#ifndef PT_TSAN
// an interruption inside the allocator is put off: the allocator is not ours to interrupt
static __thread volatile int gInAlloc;
void *operator new(size_t n) { gInAlloc = gInAlloc + 1; void *p = malloc(n ? n : 1); gInAlloc = gInAlloc - 1; if (!p) abort(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) throw() { gInAlloc = gInAlloc + 1; free(p); gInAlloc = gInAlloc - 1; }
void operator delete[](void *p) throw() { operator delete(p); }
void operator delete(void *p, size_t) throw() { operator delete(p); }
void operator delete[](void *p, size_t) throw() { operator delete(p); }
#endif

// other programs between two runs of one
PT_TEST(history, 400, 15000)
{
	const int cost = s.chance(1, 4) ? 2 : 1;
	Script t(s, c, 12, cost);
	Script::Out o, o2;
	t.run(o);
	for (size_t i = 0, n = s.range(1, 3); i < n; i++) {
		if (c.verbose) c.say("between:");
		Script u(s, c, 12, 1);
		Script::Out t1;
		u.run(t1);
	}
	c.nontrivial();
	t.run(o2);
	const std::string d = Script::difference(t, o, o2);
	PT_CHECK(d.empty(), "after other operations the same program gives something else " << d);
}

struct Worker {
	const Script *t;
	size_t times;
	Script::Out want, got;
	bool differs;
	volatile int *go;
	pthread_t id;
	static void *start(void *p)
	{
		Worker& w = *(Worker*)p;
		__sync_fetch_and_sub(w.go, 1);
		while (__sync_fetch_and_add(w.go, 0) > 0) {}
		for (size_t i = 0; i < w.times; i++) {
			Script::Out o;
			w.t->run(o);
			if (o.bytes != w.want.bytes) { w.differs = true; w.got = o; break; }
		}
		return 0;
	}
};

static void together(Src& s, Case& c, int cost, size_t maxLen, size_t times)
{
	const size_t n = s.range(2, 4);
	std::vector<Script*> t;
	std::vector<Worker> w(n);
	volatile int go = (int)n;
	for (size_t i = 0; i < n; i++) {
		if (c.verbose) { std::ostringstream os; os << "thread " << i; c.say(os.str()); }
		// the same kinds of steps in several threads now and then, over other values
		if (i && s.chance(1, 3)) {
			t.push_back(new Script(s, c, 1, 0));
			t[i]->step = t[i - 1]->step;
			c.say("the steps of the thread before");
		} else {
			t.push_back(new Script(s, c, maxLen, cost));
		}
	}
	for (size_t i = 0; i < n; i++) {
		w[i].t = t[i];
		w[i].times = times;
		w[i].differs = false;
		w[i].go = &go;
		t[i]->run(w[i].want);
	}
	c.nontrivial();
	for (size_t i = 0; i < n; i++) if (pthread_create(&w[i].id, 0, Worker::start, &w[i])) { perror("pthread_create"); _exit(3); }
	for (size_t i = 0; i < n; i++) pthread_join(w[i].id, 0);
	std::string d;
	for (size_t i = 0; i < n && d.empty(); i++) {
		if (!w[i].differs) continue;
		std::ostringstream os;
		os << "thread " << i << ": " << Script::difference(*t[i], w[i].want, w[i].got);
		d = os.str();
	}
	for (size_t i = 0; i < n; i++) delete t[i];
	PT_CHECK(d.empty(), "together with other threads a program gives something else than alone: " << d);
}
#ifdef PT_TSAN
PT_TEST_F(threads, 60, 1500, pt::kFlaky) { together(s, c, (int)s.below(3), 10, 1); }
#else
PT_TEST_F(threads, 200, 8000, pt::kFlaky) { together(s, c, 1, 8, 6); }
PT_TEST_F(threadsLarge, 40, 2000, pt::kFlaky) { together(s, c, 2, 8, 2); }
#endif

#ifndef PT_TSAN
// the program to run inside the handler
static struct Intruder {
	const Script *t;
	const Script::Out *want;
	Script::Out got;
	bool differs;
	u64 steps, gap, next, left, runs;
} gIn;

static void intrude()
{
	Intruder& g = gIn;
	Script::Out o;
	g.t->run(o);
	g.runs++;
	if (!g.differs && o.bytes != g.want->bytes) { g.differs = true; g.got = o; }
}
static void onTrap(int, siginfo_t*, void *context)
{
	Intruder& g = gIn;
	g.steps++;
	if (g.left == 0) ((ucontext_t*)context)->uc_mcontext.gregs[REG_EFL] &= ~0x100LL; // no more steps
	if (g.left == 0 || g.steps < g.next || gInAlloc) return;
	g.left--;
	g.next = g.steps + g.gap;
	intrude();
}
static void onTimer(int, siginfo_t*, void*)
{
	if (gIn.left == 0 || gInAlloc) return;
	gIn.left--;
	intrude();
}
static void setHandler(int sig, void (*f)(int, siginfo_t*, void*), struct sigaction *old)
{
	struct sigaction sa;
	memset(&sa, 0, sizeof(sa));
	sa.sa_sigaction = f;
	sa.sa_flags = SA_SIGINFO | SA_RESTART;
	sigemptyset(&sa.sa_mask);
	sigaction(sig, &sa, old);
}
static inline __attribute__((always_inline)) void stepping(bool on)
{
	if (on) asm volatile("lea -128(%%rsp),%%rsp\n\tpushfq\n\torq $0x100,(%%rsp)\n\tpopfq\n\tlea 128(%%rsp),%%rsp" : : : "memory", "cc");
	else asm volatile("lea -128(%%rsp),%%rsp\n\tpushfq\n\tandq $-0x101,(%%rsp)\n\tpopfq\n\tlea 128(%%rsp),%%rsp" : : : "memory", "cc");
}

static void interrupted(Case& c, const Script& t, const Script& u, u64 first, u64 gap, u64 times)
{
	Script::Out want, uwant, got;
	u.run(uwant);
	t.run(want);
	t.run(got);
	got = Script::Out();
	Intruder& g = gIn;
	g.t = &u;
	g.want = &uwant;
	g.got = Script::Out();
	g.differs = false;
	g.steps = 0;
	g.gap = gap;
	g.next = first;
	g.left = times;
	g.runs = 0;
	struct sigaction old;
	setHandler(SIGTRAP, onTrap, &old);
	stepping(true);
	t.run(got);
	stepping(false);
	sigaction(SIGTRAP, &old, 0);
	c.nontrivial(g.runs > 0);
	if (c.verbose) { std::ostringstream os; os << "interrupted " << g.runs << " times in " << g.steps << " instructions or more, first at " << first << ", every " << gap; c.say(os.str()); }
	PT_CHECK(!g.differs, "a program in a signal handler gives something else than alone: " << Script::difference(u, uwant, g.got));
	const std::string d = Script::difference(t, want, got);
	PT_CHECK(d.empty(), "an interrupted program gives something else than alone: " << d);
}

static void interruption(Src& s, Case& c, int cost, u64 window, u64 maxTimes)
{
	Script t(s, c, 1, cost);
	if (c.verbose) c.say("in the handler:");
	Script u(s, c, 1, 0);
	// often the same operation over other values
	if (s.flip()) { u.step = t.step; if (c.verbose) c.say("the same step"); }
	const u64 first = 1 + s.below(s.flip() ? window : window / 16);
	const u64 gap = 1 + (s.flip() ? 0 : s.below(200));
	interrupted(c, t, u, first, gap, s.range(1, (size_t)maxTimes));
}
PT_TEST(interruptedStep, 160, 15000) { interruption(s, c, 0, 8000, 150); }
PT_TEST(interruptedLarger, 60, 2500) { interruption(s, c, 1, 40000, 100); }

// one operation of a field or group, interrupted at every instruction by one of the same type
PT_TEST(everyInstruction, 160, 10000)
{
	static const Script::Kind kinds[] = { Script::kFp, Script::kFp2, Script::kFp6, Script::kFp12, Script::kDbl, Script::kWide2, Script::kVuint, Script::kVsint, Script::kFpInt, Script::kEc1, Script::kEc2, Script::kLine };
	Script t(s, c, 1, 0), u(s, c, 1, 0);
	Script::Step& x = t.step[0];
	x.kind = kinds[s.below(sizeof(kinds) / sizeof(kinds[0]))];
	x.v = vuintOf(genBits(s, 250));
	c.cls(Script::name(x.kind));
	u.step[0] = x;
	for (int i = 1; i < 5; i++) u.step[0].w[i] = s.below(1 << 16);
	if (s.flip()) u.step[0].w[0] = s.below(1 << 16); // another operation
	if (c.verbose) {
		std::ostringstream os;
		os << Script::name(x.kind) << ' ' << x.w[0] << " interrupted by " << u.step[0].w[0];
		c.say(os.str());
	}
	interrupted(c, t, u, 1 + s.below(1500), 1, 2500);
}

// pairings and others too long to step through
PT_TEST_F(timer, 80, 3000, pt::kFlaky)
{
	Script t(s, c, 4, 2);
	if (c.verbose) c.say("in the handler:");
	Script u(s, c, 3, 1);
	if (s.flip()) u.step = t.step;
	const long ns = (long)s.range(20, 400) * 1000;
	Script::Out want, uwant, got;
	t.run(want);
	u.run(uwant);
	Intruder& g = gIn;
	g.t = &u;
	g.want = &uwant;
	g.got = Script::Out();
	g.differs = false;
	g.left = 60;
	g.runs = 0;
	struct sigaction old;
	setHandler(SIGUSR1, onTimer, &old);
	struct sigevent ev;
	memset(&ev, 0, sizeof(ev));
	ev.sigev_notify = SIGEV_THREAD_ID;
	ev.sigev_signo = SIGUSR1;
	ev._sigev_un._tid = (pid_t)syscall(SYS_gettid);
	timer_t id;
	if (timer_create(CLOCK_MONOTONIC, &ev, &id)) { perror("timer_create"); _exit(3); }
	struct itimerspec it;
	memset(&it, 0, sizeof(it));
	it.it_value.tv_nsec = it.it_interval.tv_nsec = ns;
	std::string d;
	timer_settime(id, 0, &it, 0);
	for (int i = 0; i < 100 && d.empty() && g.runs < 10; i++) {
		got = Script::Out();
		t.run(got);
		d = Script::difference(t, want, got);
	}
	timer_delete(id);
	sigaction(SIGUSR1, &old, 0);
	c.nontrivial(g.runs > 0);
	PT_CHECK(!g.differs, "a program in a signal handler gives something else than alone: " << Script::difference(u, uwant, g.got));
	PT_CHECK(d.empty(), "an interrupted program gives something else than alone: " << d);
}
#endif
