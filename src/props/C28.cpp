// Memory footprint and calling convention: every entry point is called on a stack of its own, with operands next to
// inaccessible memory, read-only operands in read-only pages and junk everywhere else.
#include "dbl.h"
#include "pairing.h"
#include <sys/mman.h>

/////////////////////////////////////////////////////////////////////////////
// the checked call

struct Ctx {
	u64 fn; // 0
	u64 arg[6]; // 8
	u64 sp; // 56
	u64 saved[6]; // 64: rbx rbp r12 r13 r14 r15
	u64 scratch[3]; // 112: rax r10 r11
	u64 flags; // 136
	u64 xmm[32]; // 144
	u64 out[6]; // 400
	u64 outSp; // 448
	u64 outRax; // 456
	u64 outFlags; // 464
	uint32_t mxcsr; // 472
	uint32_t cw; // 476
	uint32_t env[8]; // 480: x87 environment
};
extern "C" void pt_call(Ctx *);
extern "C" {
	__attribute__((visibility("hidden"))) u64 pt_ctx, pt_fn, pt_save[8];
}
asm(
	".pushsection .text\n.globl pt_call\n.hidden pt_call\npt_call:\n"
	"push %rbx\npush %rbp\npush %r12\npush %r13\npush %r14\npush %r15\n"
	"mov %rsp, pt_save(%rip)\nmov %rdi, pt_ctx(%rip)\n"
	"mov (%rdi), %rax\nmov %rax, pt_fn(%rip)\n"
	"mov 56(%rdi), %rsp\n"
	"movdqu 144(%rdi), %xmm0\nmovdqu 160(%rdi), %xmm1\nmovdqu 176(%rdi), %xmm2\nmovdqu 192(%rdi), %xmm3\n"
	"movdqu 208(%rdi), %xmm4\nmovdqu 224(%rdi), %xmm5\nmovdqu 240(%rdi), %xmm6\nmovdqu 256(%rdi), %xmm7\n"
	"movdqu 272(%rdi), %xmm8\nmovdqu 288(%rdi), %xmm9\nmovdqu 304(%rdi), %xmm10\nmovdqu 320(%rdi), %xmm11\n"
	"movdqu 336(%rdi), %xmm12\nmovdqu 352(%rdi), %xmm13\nmovdqu 368(%rdi), %xmm14\nmovdqu 384(%rdi), %xmm15\n"
	"pushq 136(%rdi)\npopfq\n"
	"mov 64(%rdi), %rbx\nmov 72(%rdi), %rbp\nmov 80(%rdi), %r12\nmov 88(%rdi), %r13\nmov 96(%rdi), %r14\nmov 104(%rdi), %r15\n"
	"mov 112(%rdi), %rax\nmov 120(%rdi), %r10\nmov 128(%rdi), %r11\n"
	"mov 16(%rdi), %rsi\nmov 24(%rdi), %rdx\nmov 32(%rdi), %rcx\nmov 40(%rdi), %r8\nmov 48(%rdi), %r9\nmov 8(%rdi), %rdi\n"
	"call *pt_fn(%rip)\n"
	"mov %rsp, pt_save+8(%rip)\n"
	"mov pt_save(%rip), %rsp\n"
	"pushfq\ncld\n"
	"mov pt_ctx(%rip), %rdi\n"
	"mov %rbx, 400(%rdi)\nmov %rbp, 408(%rdi)\nmov %r12, 416(%rdi)\nmov %r13, 424(%rdi)\nmov %r14, 432(%rdi)\nmov %r15, 440(%rdi)\n"
	"mov %rax, 456(%rdi)\n"
	"pop %rax\nmov %rax, 464(%rdi)\n"
	"mov pt_save+8(%rip), %rax\nmov %rax, 448(%rdi)\n"
	"stmxcsr 472(%rdi)\nfnstcw 476(%rdi)\nfnstenv 480(%rdi)\nfldenv 480(%rdi)\nemms\n"
	"pop %r15\npop %r14\npop %r13\npop %r12\npop %rbp\npop %rbx\nret\n.popsection\n");

const size_t kPage = 4096;
const size_t kStack = 1 << 20, kAbove = 2048;
const size_t kArena = 2 * kPage;

static u64 gRnd = 88172645463325252ull;
static inline u64 junk() { gRnd ^= gRnd << 13; gRnd ^= gRnd >> 7; gRnd ^= gRnd << 17; return gRnd; }

static char *map(size_t n)
{
	char *p = (char*)mmap(0, n + 2 * kPage, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) pt::fail("no memory for the arena");
	if (mprotect(p + kPage, n, PROT_READ | PROT_WRITE)) pt::fail("no memory for the arena");
	return p + kPage;
}
struct Arena {
	char *p;
	bool ro;
	char *obj;
	size_t size;
	std::vector<u64> before;
	Arena() : p(0), ro(false), obj(0), size(0) {}
	void fill()
	{
		if (!p) p = map(kArena);
		if (ro) mprotect(p, kArena, PROT_READ | PROT_WRITE);
		ro = false;
		const u64 v = junk();
		u64 *w = (u64*)p;
		for (size_t i = 0; i < kArena / 8; i++) w[i] = (i + 1) * 0x9e3779b97f4a7c15ull ^ v;
	}
	// right after the inaccessible page, right before it, or in between
	char *place(Src& s, size_t n, size_t align)
	{
		size = n;
		switch (s.below(3)) {
		case 0: obj = p; break;
		case 1: obj = p + (kArena - n) / align * align; break;
		default: obj = p + align * (size_t)s.below((kArena - n) / align + 1); break;
		}
		return obj;
	}
	void remember() { before.assign((u64*)p, (u64*)(p + kArena)); }
	void seal() { mprotect(p, kArena, PROT_READ); ro = true; }
	// nothing but the object may change
	bool same(bool withObject, size_t *where)
	{
		const char *b = (const char*)&before[0];
		const size_t at = (size_t)(obj - p), end = at + size;
		if (withObject ? memcmp(p, b, kArena) == 0 : memcmp(p, b, at) == 0 && memcmp(p + end, b + end, kArena - end) == 0) return true;
		for (size_t i = 0; i < kArena; i++) {
			if (!withObject && i >= at && i < end) continue;
			if (p[i] != b[i]) { *where = i; return false; }
		}
		return true;
	}
};
static Arena gArena[6];
static char *gStack;

/////////////////////////////////////////////////////////////////////////////
// entry points

enum { kIn, kOut, kInOut, kImm };
struct Arg {
	int dir;
	size_t size, align;
	void (*gen)(Src&, void *);
	u64 imm;
	size_t immBits;
	bool (*free)(const void *); // contents that have no meaning
};
template<class T> struct G { static void g(Src& s, void *p) { new(p) T(gen<T>(s)); } };
template<> struct G<FpDbl> { static void g(Src& s, void *p) { const FpDbl x = genDbl(s); memcpy(p, (const void*)&x, sizeof(x)); } };
template<> struct G<Fp2Dbl> { static void g(Src& s, void *p) { const Fp2Dbl x = genFp2Dbl(s); memcpy(p, (const void*)&x, sizeof(x)); } };
template<> struct G<Fp6Dbl> { static void g(Src& s, void *p) { for (int i = 0; i < 6; i++) G<FpDbl>::g(s, (char*)p + i * sizeof(FpDbl)); } };
template<> struct G<Fp12Dbl> { static void g(Src& s, void *p) { for (int i = 0; i < 12; i++) G<FpDbl>::g(s, (char*)p + i * sizeof(FpDbl)); } };
struct FpNz { Fp x; };
template<> struct G<FpNz> { static void g(Src& s, void *p) { const Fp x = genFpNz(s); memcpy(p, (const void*)&x, sizeof(x)); } };
struct Fp2Nz { Fp2 x; };
template<> struct G<Fp2Nz> { static void g(Src& s, void *p) { const Fp2 x = genFp2Nz(s); memcpy(p, (const void*)&x, sizeof(x)); } };
struct Fp6Nz { Fp6 x; };
template<> struct G<Fp6Nz> { static void g(Src& s, void *p) { const Fp6 x = genFp6Nz(s); memcpy(p, (const void*)&x, sizeof(x)); } };
struct Fp12Nz { Fp12 x; };
template<> struct G<Fp12Nz> { static void g(Src& s, void *p) { const Fp12 x = genFp12Nz(s); memcpy(p, (const void*)&x, sizeof(x)); } };
struct Cyclo { Fp12 x; };
template<> struct G<Cyclo> { static void g(Src& s, void *p) { const Fp12 x = fp12Of(genCyclo(s)); memcpy(p, (const void*)&x, sizeof(x)); } };
// points in Jacobian coordinates, affine pairs
struct J1 { Fp p[3]; };
struct J2 { Fp2 p[3]; };
struct A1 { Fp p[2]; };
struct A2 { Fp2 p[2]; };
template<> struct G<J1> { static void g(Src& s, void *p) { J1 x; genJac<Fp>(s, x.p, s.chance(1, 8) ? ref::P1() : genP1(s)); memcpy(p, (void*)&x, sizeof(x)); } };
template<> struct G<J2> { static void g(Src& s, void *p) { J2 x; genJac<Fp2>(s, x.p, s.chance(1, 8) ? ref::P2() : genP2fast(s)); memcpy(p, (void*)&x, sizeof(x)); } };
template<> struct G<A1> { static void g(Src& s, void *p) { const ref::P1 q = genP1(s); A1 x; x.p[0] = fpOf(q.x); x.p[1] = fpOf(q.y); memcpy(p, (void*)&x, sizeof(x)); } };
template<> struct G<A2> { static void g(Src& s, void *p) { const ref::P2 q = genP2fast(s); A2 x; x.p[0] = fp2Of(q.x); x.p[1] = fp2Of(q.y); memcpy(p, (void*)&x, sizeof(x)); } };

// the first two coordinates of infinity are not specified
template<class T> struct Free { static bool f(const void *) { return false; } };
template<> struct Free<J1> { static bool f(const void *p) { return ((const J1*)p)->p[2].isZero(); } };
template<> struct Free<J2> { static bool f(const void *p) { return ((const J2*)p)->p[2].isZero(); } };
template<class T> Arg arg(int dir) { Arg a = { dir, sizeof(T), __alignof__(T), G<T>::g, 0, 0, Free<T>::f }; return a; }
template<class T> Arg in() { return arg<T>(kIn); }
template<class T> Arg out() { return arg<T>(kOut); }
template<class T> Arg io() { return arg<T>(kInOut); }
static Arg imm(u64 v, size_t bits) { Arg a = { kImm, 0, 0, 0, v, bits, 0 }; return a; }

struct Entry {
	const char *name;
	void *fn;
	std::vector<Arg> a;
	u64 retMask; // significant bits of the result
	bool slow;
};
static std::vector<Entry> gEntry;
template<class F> static Entry& def(const char *name, F fn, Arg a, Arg b)
{
	Entry e;
	e.name = name;
	e.fn = (void*)fn;
	e.a.push_back(a);
	e.a.push_back(b);
	e.retMask = 0;
	e.slow = false;
	gEntry.push_back(e);
	return gEntry.back();
}
template<class F> static Entry& def(const char *name, F fn, Arg a, Arg b, Arg c) { Entry& e = def(name, fn, a, b); e.a.push_back(c); return e; }
template<class F> static Entry& def(const char *name, F fn, Arg a) { Entry& e = def(name, fn, a, a); e.a.resize(1); return e; }

// members and overloads behind plain functions
#define W1(name, T, code) static void name(T *x) { code; }
#define W2(name, T, U, code) static void name(T *z, const U *x) { code; }
#define W3(name, T, U, V, code) static void name(T *z, const U *x, const V *y) { code; }
W2(wFpInv, Fp, Fp, Fp::inv(*z, *x))
W2(wFpDiv2, Fp, Fp, Fp::divBy2(*z, *x))
W2(wFpDiv4, Fp, Fp, Fp::divBy4(*z, *x))
W2(wFpSqrt, Fp, Fp, *z = *x; Fp::squareRoot(*z, *x))
W2(wFp2Neg, Fp2, Fp2, Fp2::neg(*z, *x))
W2(wFp2Div4, Fp2, Fp2, Fp2::divBy4(*z, *x))
W1(wFp2Inv, Fp2, x->inverse())
W1(wFp2MulX, Fp2, x->mul_x())
W2(wFp2Mul1, Fp2, Fp, Fp2::mul_Fp_1(*z, *x))
W2(wFp6Neg, Fp6, Fp6, Fp6::neg(*z, *x))
W2(wFp6Sqr, Fp6, Fp6, Fp6::square(*z, *x))
W1(wFp6Inv, Fp6, x->inverse())
W3(wFp12Add, Fp12, Fp12, Fp12, Fp12::add(*z, *x, *y))
W3(wFp12Sub, Fp12, Fp12, Fp12, Fp12::sub(*z, *x, *y))
W2(wFp12Neg, Fp12, Fp12, Fp12::neg(*z, *x))
W1(wFp12Inv, Fp12, x->inverse())
W1(wFp12Exp, Fp12, x->final_exp())
W2(wFrob, Fp12, Fp12, x->Frobenius(*z))
W2(wFrob2, Fp12, Fp12, x->Frobenius2(*z))
W2(wFrob3, Fp12, Fp12, x->Frobenius3(*z))
W1(wSqru, Fp12, x->sqru())
W2(wSqruTo, Fp12, Fp12, x->sqru(*z))
W3(wFp2DblAdd, Fp2Dbl, Fp2Dbl, Fp2Dbl, *z = *x + *y)
W3(wFp6DblAdd, Fp6Dbl, Fp6Dbl, Fp6Dbl, Fp6Dbl::add(*z, *x, *y))
W3(wFp6DblSub, Fp6Dbl, Fp6Dbl, Fp6Dbl, Fp6Dbl::sub(*z, *x, *y))
W2(wFp6DblMod, Fp6, Fp6Dbl, Fp6Dbl::mod(*z, *x))
W3(wMul024x2, Fp12, Fp6, Fp6, Fp12Dbl::mul_Fp2_024_Fp2_024(*z, *x, *y))
W3(wAdd1, J1, J1, J1, bn::ecop::ECAdd(z->p, x->p, y->p))
W3(wAdd2, J2, J2, J2, bn::ecop::ECAdd(z->p, x->p, y->p))
W2(wDbl1, J1, J1, bn::ecop::ECDouble(z->p, x->p))
W2(wDbl2, J2, J2, bn::ecop::ECDouble(z->p, x->p))
W2(wNorm1, J1, J1, bn::ecop::NormalizeJac(z->p, x->p))
W2(wNorm2, J2, J2, bn::ecop::NormalizeJac(z->p, x->p))
W2(wFrobT1, A2, A2, bn::ecop::FrobEndOnTwist_1(z->p, x->p))
W2(wFrobT2, A2, A2, bn::ecop::FrobEndOnTwist_2(z->p, x->p))
W2(wFrobT8, A2, A2, bn::ecop::FrobEndOnTwist_8(z->p, x->p))
W3(wPair, Fp12, A2, A1, bn::opt_atePairing<Fp>(*z, x->p, y->p))
W3(wPairJ, Fp12, J2, J1, bn::opt_atePairingJac<Fp>(*z, x->p, y->p))
static void wMulInt1(J1 *z, const J1 *x, int m) { bn::ecop::ScalarMult(z->p, x->p, m); }
static void wMulInt2(J2 *z, const J2 *x, int m) { bn::ecop::ScalarMult(z->p, x->p, m); }
static void wLineAdd(Fp6 *l, J2 *R, const A2 *Q, const A1 *P) { Fp6::pointAddLineEval(*l, R->p, Q->p, P->p); }
static void wLineAdd0(Fp6 *l, J2 *R, const A2 *Q) { Fp6::pointAddLineEvalWithoutP(*l, R->p, Q->p); }
static void wLineAt(Fp6 *l, const A1 *P) { Fp6::mulFp6_24_Fp_01(*l, P->p); }
static bool wOn1(const J1 *P) { return bn::ecop::isOnECJac3(P->p); }
static bool wOn2(const J2 *P) { return bn::ecop::isOnTwistECJac3(P->p); }
static bool wEq12(const Fp12 *x, const Fp12 *y) { return *x == *y; }
static bool wZero12(const Fp12 *x) { return x->isZero(); }
static int wCmp(const Fp *x, const Fp *y) { return Fp::compare(*x, *y); }

static size_t gGenerated;
static void entries()
{
	if (!gEntry.empty()) return;
	gEntry.reserve(200);
	// reached through pointers: generated code, or portable code where there is none
	def("Fp::add", Fp::add, out<Fp>(), in<Fp>(), in<Fp>());
	def("Fp::addNC", Fp::addNC, out<Fp>(), in<Fp>(), in<Fp>());
	def("Fp::sub", Fp::sub, out<Fp>(), in<Fp>(), in<Fp>());
	def("Fp::subNC", Fp::subNC, out<Fp>(), in<Fp>(), in<Fp>());
	def("Fp::neg", Fp::neg, out<Fp>(), in<Fp>());
	def("Fp::mul", Fp::mul, out<Fp>(), in<Fp>(), in<Fp>());
	def("Fp::shr1", Fp::shr1, out<Fp>(), in<Fp>());
	def("Fp::shr2", Fp::shr2, out<Fp>(), in<Fp>());
	def("Fp::preInv", Fp::preInv, out<Fp>(), in<FpNz>()).retMask = 0xffffffff;
	def("FpDbl::add", FpDbl::add, out<FpDbl>(), in<FpDbl>(), in<FpDbl>());
	def("FpDbl::addNC", FpDbl::addNC, out<FpDbl>(), in<FpDbl>(), in<FpDbl>());
	def("FpDbl::sub", FpDbl::sub, out<FpDbl>(), in<FpDbl>(), in<FpDbl>());
	def("FpDbl::subNC", FpDbl::subNC, out<FpDbl>(), in<FpDbl>(), in<FpDbl>());
	def("FpDbl::neg", FpDbl::neg, out<FpDbl>(), in<FpDbl>());
	def("FpDbl::mul", FpDbl::mul, out<FpDbl>(), in<Fp>(), in<Fp>());
	def("FpDbl::mod", FpDbl::mod, out<Fp>(), in<FpDbl>());
	def("Fp2::add", Fp2::add, out<Fp2>(), in<Fp2>(), in<Fp2>());
	def("Fp2::addNC", Fp2::addNC, out<Fp2>(), in<Fp2>(), in<Fp2>());
	def("Fp2::sub", Fp2::sub, out<Fp2>(), in<Fp2>(), in<Fp2>());
	def("Fp2::subNC", Fp2::subNC, out<Fp2>(), in<Fp2>(), in<Fp2>());
	def("Fp2::mul", Fp2::mul, out<Fp2>(), in<Fp2>(), in<Fp2>());
	def("Fp2::square", Fp2::square, out<Fp2>(), in<Fp2>());
	def("Fp2::mul_xi", Fp2::mul_xi, out<Fp2>(), in<Fp2>());
	def("Fp2::mul_Fp_0", Fp2::mul_Fp_0, out<Fp2>(), in<Fp2>(), in<Fp>());
	def("Fp2::divBy2", Fp2::divBy2, out<Fp2>(), in<Fp2>());
	def("Fp2Dbl::add", Fp2Dbl::add, out<Fp2Dbl>(), in<Fp2Dbl>(), in<Fp2Dbl>());
	def("Fp2Dbl::addNC", Fp2Dbl::addNC, out<Fp2Dbl>(), in<Fp2Dbl>(), in<Fp2Dbl>());
	def("Fp2Dbl::sub", Fp2Dbl::sub, out<Fp2Dbl>(), in<Fp2Dbl>(), in<Fp2Dbl>());
	def("Fp2Dbl::subNC", Fp2Dbl::subNC, out<Fp2Dbl>(), in<Fp2Dbl>(), in<Fp2Dbl>());
	def("Fp2Dbl::neg", Fp2Dbl::neg, out<Fp2Dbl>(), in<Fp2Dbl>());
	def("Fp2Dbl::mulOpt1", Fp2Dbl::mulOpt1, out<Fp2Dbl>(), in<Fp2>(), in<Fp2>());
	def("Fp2Dbl::mulOpt2", Fp2Dbl::mulOpt2, out<Fp2Dbl>(), in<Fp2>(), in<Fp2>());
	def("Fp2Dbl::square", Fp2Dbl::square, out<Fp2Dbl>(), in<Fp2>());
	def("Fp2Dbl::mod", Fp2Dbl::mod, out<Fp2>(), in<Fp2Dbl>());
	def("Fp2Dbl::mul_xi", Fp2Dbl::mul_xi, out<Fp2Dbl>(), in<Fp2Dbl>());
	def("Fp6::add", Fp6::add, out<Fp6>(), in<Fp6>(), in<Fp6>());
	def("Fp6::sub", Fp6::sub, out<Fp6>(), in<Fp6>(), in<Fp6>());
	def("Fp6::mul", Fp6::mul, out<Fp6>(), in<Fp6>(), in<Fp6>());
	def("Fp6::pointDblLineEval", Fp6::pointDblLineEval, out<Fp6>(), io<J2>(), in<A1>());
	def("Fp6::pointDblLineEvalWithoutP", Fp6::pointDblLineEvalWithoutP, out<Fp6>(), io<J2>());
	def("Fp6Dbl::mul", Fp6Dbl::mul, out<Fp6Dbl>(), in<Fp6>(), in<Fp6>());
	def("Fp12::mul", Fp12::mul, out<Fp12>(), in<Fp12>(), in<Fp12>());
	def("Fp12::square", Fp12::square, io<Fp12>());
	def("Fp12Dbl::mul_Fp2_024", Fp12Dbl::mul_Fp2_024, io<Fp12>(), in<Fp6>());
	gGenerated = gEntry.size();
	// built on them
	def("Fp::inv", wFpInv, out<Fp>(), in<FpNz>());
	def("Fp::divBy2", wFpDiv2, out<Fp>(), in<Fp>());
	def("Fp::divBy4", wFpDiv4, out<Fp>(), in<Fp>());
	def("Fp::squareRoot", wFpSqrt, out<Fp>(), in<Fp>()).slow = true;
	def("Fp::compare", wCmp, in<Fp>(), in<Fp>()).retMask = 0xffffffff;
	def("Fp2::neg", wFp2Neg, out<Fp2>(), in<Fp2>());
	def("Fp2::divBy4", wFp2Div4, out<Fp2>(), in<Fp2>());
	def("Fp2::inverse", wFp2Inv, io<Fp2Nz>());
	def("Fp2::mul_x", wFp2MulX, io<Fp2>());
	def("Fp2::mul_Fp_1", wFp2Mul1, io<Fp2>(), in<Fp>());
	def("Fp2Dbl +", wFp2DblAdd, out<Fp2Dbl>(), in<Fp2Dbl>(), in<Fp2Dbl>());
	def("Fp6::neg", wFp6Neg, out<Fp6>(), in<Fp6>());
	def("Fp6::square", wFp6Sqr, out<Fp6>(), in<Fp6>());
	def("Fp6::inverse", wFp6Inv, io<Fp6Nz>());
	def("Fp6Dbl::add", wFp6DblAdd, out<Fp6Dbl>(), in<Fp6Dbl>(), in<Fp6Dbl>());
	def("Fp6Dbl::sub", wFp6DblSub, out<Fp6Dbl>(), in<Fp6Dbl>(), in<Fp6Dbl>());
	def("Fp6Dbl::mod", wFp6DblMod, out<Fp6>(), in<Fp6Dbl>());
	def("Fp12::add", wFp12Add, out<Fp12>(), in<Fp12>(), in<Fp12>());
	def("Fp12::sub", wFp12Sub, out<Fp12>(), in<Fp12>(), in<Fp12>());
	def("Fp12::neg", wFp12Neg, out<Fp12>(), in<Fp12>());
	def("Fp12::inverse", wFp12Inv, io<Fp12Nz>());
	def("Fp12::final_exp", wFp12Exp, io<Fp12Nz>()).slow = true;
	def("Fp12::Frobenius", wFrob, out<Fp12>(), in<Fp12>());
	def("Fp12::Frobenius2", wFrob2, out<Fp12>(), in<Fp12>());
	def("Fp12::Frobenius3", wFrob3, out<Fp12>(), in<Fp12>());
	def("Fp12::sqru", wSqru, io<Cyclo>());
	def("Fp12::sqru to", wSqruTo, out<Fp12>(), in<Cyclo>());
	def("Fp12 ==", wEq12, in<Fp12>(), in<Fp12>()).retMask = 0xff;
	def("Fp12::isZero", wZero12, in<Fp12>()).retMask = 0xff;
	def("Fp12Dbl::mul_Fp2_024_Fp2_024", wMul024x2, out<Fp12>(), in<Fp6>(), in<Fp6>());
	def("ECAdd G1", wAdd1, out<J1>(), in<J1>(), in<J1>());
	def("ECAdd G2", wAdd2, out<J2>(), in<J2>(), in<J2>());
	def("ECDouble G1", wDbl1, out<J1>(), in<J1>());
	def("ECDouble G2", wDbl2, out<J2>(), in<J2>());
	def("NormalizeJac G1", wNorm1, out<J1>(), in<J1>());
	def("NormalizeJac G2", wNorm2, out<J2>(), in<J2>());
	def("isOnECJac3", wOn1, in<J1>()).retMask = 0xff;
	def("isOnTwistECJac3", wOn2, in<J2>()).retMask = 0xff;
	def("FrobEndOnTwist_1", wFrobT1, out<A2>(), in<A2>());
	def("FrobEndOnTwist_2", wFrobT2, out<A2>(), in<A2>());
	def("FrobEndOnTwist_8", wFrobT8, out<A2>(), in<A2>());
	{ Entry& e = def("pointAddLineEval", wLineAdd, out<Fp6>(), io<J2>(), in<A2>()); e.a.push_back(in<A1>()); }
	def("pointAddLineEvalWithoutP", wLineAdd0, out<Fp6>(), io<J2>(), in<A2>());
	def("mulFp6_24_Fp_01", wLineAt, io<Fp6>(), in<A1>());
	def("ScalarMult G1", wMulInt1, out<J1>(), in<J1>(), imm(0, 32)).slow = true;
	def("ScalarMult G2", wMulInt2, out<J2>(), in<J2>(), imm(0, 32)).slow = true;
	def("opt_atePairing", wPair, out<Fp12>(), in<A2>(), in<A1>()).slow = true;
	def("opt_atePairingJac", wPairJ, out<Fp12>(), in<J2>(), in<J1>()).slow = true;
}

// one call on the checked stack; false and a text if the convention is broken
static void guarded(Src& s, const char *name, void *fn, const u64 *a, size_t n, u64 *ret)
{
	if (!gStack) gStack = map(kStack);
	Ctx x;
	x.fn = (u64)fn;
	for (size_t i = 0; i < 6; i++) x.arg[i] = i < n ? a[i] : junk();
	x.sp = (u64)(gStack + kStack - kAbove);
	for (int i = 0; i < 6; i++) x.saved[i] = junk();
	for (int i = 0; i < 3; i++) x.scratch[i] = junk();
	for (int i = 0; i < 32; i++) x.xmm[i] = junk();
	x.flags = 0x202 | (junk() & 0x8d5); // any arithmetic flags, direction flag clear
	u64 *above = (u64*)x.sp;
	const u64 v = junk();
	for (size_t i = 0; i < kAbove / 8; i++) above[i] = v + i * 0x9e3779b97f4a7c15ull;
	for (size_t i = 1; i < 600; i++) above[-(int)i] = junk(); // old contents of the stack
	uint32_t mxcsr;
	uint16_t cw;
	asm volatile("stmxcsr %0\nfnstcw %1" : "=m"(mxcsr), "=m"(cw));
	x.cw = 0;
	pt_call(&x);
	static const char *const reg[] = { "rbx", "rbp", "r12", "r13", "r14", "r15" };
	for (int i = 0; i < 6; i++) PT_CHECK(x.out[i] == x.saved[i], name << ": register " << reg[i] << " not preserved");
	PT_CHECK(x.outSp == x.sp, name << ": stack pointer off by " << (int64_t)(x.outSp - x.sp));
	PT_CHECK(!(x.outFlags & 0x400), name << ": direction flag set");
	PT_CHECK((x.mxcsr & 0xffc0) == (mxcsr & 0xffc0), name << ": MXCSR control bits changed");
	PT_CHECK((uint16_t)x.cw == cw, name << ": x87 control word changed");
	PT_CHECK((uint16_t)x.env[2] == 0xffff, name << ": x87 registers left in use, tag word " << std::hex << (uint16_t)x.env[2]);
	for (size_t i = 0; i < kAbove / 8; i++) PT_CHECK(above[i] == v + i * 0x9e3779b97f4a7c15ull, name << ": the caller's stack changed at +" << i * 8);
	*ret = x.outRax;
}

static void oneEntry(Src& s, Case& c, const Entry& e)
{
	entries();
	c.cls(e.name);
	c.say(e.name);
	c.nontrivial();
	gRnd = s.word() | 1;
	const size_t n = e.a.size();
	// values of the inputs
	std::vector<std::vector<char> > val(n);
	u64 a[6], b[6];
	std::vector<char> store[6];
	for (size_t i = 0; i < n; i++) {
		const Arg& g = e.a[i];
		if (g.dir == kImm) {
			int m = (int)s.below(60) - 20;
			a[i] = (uint32_t)m;
			b[i] = (uint32_t)m | (junk() << 32);
			continue;
		}
		val[i].resize(g.size + 32);
		char *p = (char*)(((size_t)&val[i][0] + 15) & ~(size_t)15);
		if (g.dir != kOut) g.gen(s, p);
		else memset(p, 0x5a, g.size);
		std::vector<char> t(p, p + g.size);
		val[i] = t;
	}
	// plain call in ordinary memory
	for (size_t i = 0; i < n; i++) {
		const Arg& g = e.a[i];
		if (g.dir == kImm) continue;
		store[i].assign(g.size + 32, 0);
		char *p = (char*)(((size_t)&store[i][0] + 15) & ~(size_t)15);
		memcpy(p, &val[i][0], g.size);
		a[i] = (u64)p;
	}
	const u64 r = ((u64 (*)(u64, u64, u64, u64))e.fn)(a[0], n > 1 ? a[1] : 0, n > 2 ? a[2] : 0, n > 3 ? a[3] : 0);
	// the checked call
	for (size_t i = 0; i < n; i++) {
		const Arg& g = e.a[i];
		if (g.dir == kImm) continue;
		Arena& m = gArena[i];
		m.fill();
		char *p = m.place(s, g.size, g.align);
		if (g.dir != kOut) memcpy(p, &val[i][0], g.size);
		m.remember();
		if (g.dir == kIn) m.seal();
		b[i] = (u64)p;
		if (c.verbose) { std::ostringstream os; os << "argument " << i << ": " << g.size << " bytes at offset " << (p - m.p) << " of " << kArena; c.say(os.str()); }
	}
	u64 r2;
	guarded(s, e.name, e.fn, b, n, &r2);
	PT_CHECK(((r ^ r2) & e.retMask) == 0, e.name << ": result " << r2 << " instead of " << r);
	for (size_t i = 0; i < n; i++) {
		const Arg& g = e.a[i];
		if (g.dir == kImm) continue;
		Arena& m = gArena[i];
		size_t where = 0;
		PT_CHECK(m.same(g.dir == kIn, &where), e.name << ": argument " << i << ": memory changed at offset " << (int64_t)where - (int64_t)(m.obj - m.p) << " of an object of " << g.size << " bytes");
		if (g.dir != kIn && g.free(m.obj) && g.free((void*)a[i])) continue;
		PT_CHECK(memcmp(m.obj, (void*)a[i], g.size) == 0, e.name << ": argument " << i << " depends on where it is or on memory and registers that it must not depend on");
	}
}
PT_TEST(generatedCode, 20000, 1000000)
{
	entries();
	oneEntry(s, c, gEntry[s.below(gGenerated)]);
}
PT_TEST(operations, 8000, 300000)
{
	entries();
	const Entry *e = &gEntry[gGenerated + s.below(gEntry.size() - gGenerated)];
	if (e->slow && !s.chance(1, 6)) e = &gEntry[gGenerated];
	oneEntry(s, c, *e);
}

// the operand of the compressed squaring holds references to a field element
PT_TEST(compressed, 1500, 60000)
{
	typedef bn::Compress C;
	c.nontrivial();
	gRnd = s.word() | 1;
	const Fp12 x = fp12Of(genCyclo(s));
	const int n = (int)s.below(s.chance(1, 4) ? 60 : 6) - 1;
	NOTE_F(c, x);
	PT_NOTE(c, n);
	Fp12 z = fpOne(), w;
	C k(z, x);
	C::square_n(k, n);
	Arena& mo = gArena[0];
	Arena& mz = gArena[1];
	Arena& mx = gArena[2];
	mo.fill();
	mz.fill();
	mx.fill();
	Fp12 *px = new(mx.place(s, sizeof(Fp12), __alignof__(Fp12))) Fp12(x);
	Fp12 *pz = new(mz.place(s, sizeof(Fp12), __alignof__(Fp12))) Fp12(fpOne());
	C *pk = new(mo.place(s, sizeof(C), __alignof__(C))) C(*pz, *px);
	mx.remember();
	mz.remember();
	mo.remember();
	mx.seal();
	u64 a[2] = { (u64)pk, (uint32_t)n | (junk() << 32) }, r;
	guarded(s, "Compress::square_n", (void*)C::square_n, a, 2, &r);
	size_t where = 0;
	PT_CHECK(mx.same(true, &where), "square_n changed memory of the first operand at " << where);
	PT_CHECK(mz.same(false, &where), "square_n changed memory beside the element at " << where);
	PT_CHECK(mo.same(false, &where), "square_n changed memory beside the object at " << where);
	k.decompress();
	pk->decompress();
	PT_CHECK(*pz == z, "square_n depends on the place of its operand");
	(void)w;
}

// kernels on vectors of words
PT_TEST(wordKernels, 20000, 1000000)
{
	typedef mie::local::PrimitiveFunction F;
	gRnd = s.word() | 1;
	const size_t n = 1 + (size_t)s.below(s.chance(1, 8) ? 40 : 9);
	const size_t op = s.below(7);
	static const char *const name[] = { "addN", "subN", "add1", "sub1", "mul1", "div1", "mod1" };
	void *const fn[] = { (void*)F::addN, (void*)F::subN, (void*)F::add1, (void*)F::sub1, (void*)F::mul1, (void*)F::div1, (void*)F::mod1 };
	c.cls(name[op]);
	PT_NOTE(c, n);
	c.nontrivial();
	u64 x[44], y[44], o[44], w = genWord(s);
	if (op >= 5 && w == 0) w = 1;
	for (size_t i = 0; i < n; i++) { x[i] = s.flip() ? 0 - s.below(2) : genWord(s); y[i] = s.flip() ? ~x[i] + s.below(2) : genWord(s); }
	const size_t on = n + (op == 4);
	u64 want = 0;
	switch (op) {
	case 0: want = F::addN(o, x, y, n); break;
	case 1: want = F::subN(o, x, y, n); break;
	case 2: want = F::add1(o, x, n, w); break;
	case 3: want = F::sub1(o, x, n, w); break;
	case 4: F::mul1(o, x, n, w); break;
	case 5: want = F::div1(o, x, n, w); break;
	case 6: want = F::mod1(x, n, w); break;
	}
	Arena& mo = gArena[0];
	Arena& mx = gArena[1];
	Arena& my = gArena[2];
	mo.fill();
	mx.fill();
	my.fill();
	char *po = mo.place(s, on * 8, 8), *px = mx.place(s, n * 8, 8), *py = my.place(s, n * 8, 8);
	memcpy(px, x, n * 8);
	memcpy(py, y, n * 8);
	mo.remember();
	mx.remember();
	my.remember();
	mx.seal();
	my.seal();
	u64 a[4], r;
	size_t na = 4;
	if (op < 2) { a[0] = (u64)po; a[1] = (u64)px; a[2] = (u64)py; a[3] = n; }
	else if (op < 6) { a[0] = (u64)po; a[1] = (u64)px; a[2] = n; a[3] = w; }
	else { a[0] = (u64)px; a[1] = n; a[2] = w; na = 3; }
	guarded(s, name[op], fn[op], a, na, &r);
	size_t where = 0;
	PT_CHECK(mo.same(false, &where), name[op] << ": memory beside the result changed at " << (int64_t)where - (po - mo.p));
	PT_CHECK(mx.same(true, &where) && my.same(true, &where), name[op] << ": an operand changed");
	if (op < 6) PT_CHECK(memcmp(po, o, on * 8) == 0, name[op] << ": the result depends on the place of the operands");
	if (op < 4) PT_CHECK((r & 0xff) == want, name[op] << ": carry " << (r & 0xff) << " instead of " << want);
	else if (op > 4) PT_CHECK(r == want, name[op] << ": remainder differs");
}
