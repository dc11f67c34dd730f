// The output may be one of the inputs
#include "dbl.h"
#include "pairing.h"

// what must agree exactly; coordinates of points may differ in their scale
template<class T> struct Same {
	static bool eq(const T& x, const T& y) { return memcmp((const void*)&x, (const void*)&y, sizeof(T)) == 0; }
	static T other() { T z; memset((void*)&z, 0xa5, sizeof(z)); return z; }
};
template<> struct Same<Vuint> {
	static bool eq(const Vuint& x, const Vuint& y) { return toZ(x) == toZ(y) && x.size() == y.size(); }
	static Vuint other() { return Vuint("0x123456789abcdef0123456789abcdef0123456789abcdef"); }
};
template<> struct Same<Vsint> {
	static bool eq(const Vsint& x, const Vsint& y) { return toZ(x) == toZ(y) && x.size() == y.size() && x.isNegative() == y.isNegative(); }
	static Vsint other() { return Vsint("-0x123456789abcdef0123456789abcdef0123456789abcdef"); }
};
typedef mie::ZmZ<> Res;
template<> struct Same<Res> {
	static bool eq(const Res& x, const Res& y) { return Same<Vuint>::eq(x.get(), y.get()); }
	static Res other() { return Res(); }
};
template<class FF> struct SamePt {
	typedef bn::EcT<FF> Ec;
	static bool eq(const Ec& x, const Ec& y)
	{
		// the first coordinates of infinity mean nothing
		if (x.p[2].isZero() || y.p[2].isZero()) return x.p[2].isZero() && y.p[2].isZero();
		return fromJac<FF>(x.p) == fromJac<FF>(y.p) && canonPt(x.p) == canonPt(y.p);
	}
	static Ec other() { Ec z; z.p[0] = z.p[1] = z.p[2] = Model<FF>::make(typename Model<FF>::R(3)); return z; }
};
template<> struct Same<Ec1> : SamePt<Fp> {};
template<> struct Same<Ec2> : SamePt<Fp2> {};

#define AGREE(cond, what) PT_CHECK(cond, name << ": " << what)

template<class T, class F>
void unary(const char *name, const T& x, F f)
{
	typedef Same<T> S;
	T z = S::other(), t = x;
	const T x0 = x;
	f(z, x);
	AGREE(S::eq(x, x0), "the operand changed");
	f(t, t);
	AGREE(S::eq(t, z), "output over the operand");
}
template<class T, class F>
void binary(const char *name, const T& x, const T& y, F f, bool noAlias = false)
{
	typedef Same<T> S;
	T z = S::other(), t;
	const T x0 = x, y0 = y;
	f(z, x, y);
	AGREE(S::eq(x, x0) && S::eq(y, y0), "an operand changed");
	if (!noAlias) {
		t = x;
		f(t, t, y);
		AGREE(S::eq(t, z), "output over the first operand");
		AGREE(S::eq(y, y0), "the second operand changed");
	}
	t = y;
	f(t, x, t);
	AGREE(S::eq(t, z), "output over the second operand");
	AGREE(S::eq(x, x0), "the first operand changed");
}
// both operands the same object
template<class T, class F>
void square(const char *name, const T& x, F f, bool noAlias = false)
{
	typedef Same<T> S;
	T z = S::other(), w = S::other(), t = x;
	const T x0 = x, copy = x;
	f(z, x, copy);
	f(w, x, x);
	AGREE(S::eq(w, z), "one object as both operands");
	AGREE(S::eq(x, x0), "the operand changed");
	if (noAlias) return;
	f(t, t, t);
	AGREE(S::eq(t, z), "one object as output and both operands");
	t = x;
	f(t, t, copy);
	AGREE(S::eq(t, z), "output over the first of equal operands");
	t = x;
	f(t, copy, t);
	AGREE(S::eq(t, z), "output over the second of equal operands");
}
template<class T, class F>
void both(const char *name, const T& x, const T& y, F f, bool noAlias = false)
{
	binary(name, x, y, f, noAlias);
	square(name, x, f, noAlias);
}
#define UN(T, code) struct L { void operator()(T& z, const T& x) const { code; } }
#define BIN(T, code) struct L { void operator()(T& z, const T& x, const T& y) const { code; } }
#define U(T, name, x, code) do { UN(T, code); unary<T>(name, x, L()); } while (0)
#define B1(T, name, x, y, code) do { BIN(T, code); binary<T>(name, x, y, L()); } while (0)
#define S1(T, name, x, code) do { BIN(T, code); square<T>(name, x, L()); } while (0)
#define B(T, name, x, y, code) do { BIN(T, code); both<T>(name, x, y, L()); } while (0)

// the operations of a field level
template<class T> struct RunOp {
	const Op<T>& o;
	RunOp(const Op<T>& o) : o(o) {}
	void operator()(T& z, const T& x) const { o.run(z, x, x); }
	void operator()(T& z, const T& x, const T& y) const { o.run(z, x, y); }
};
template<class T> void level(Src& s, Case& c)
{
	T x, y;
	genPair(s, x, y);
	NOTE_F(c, x);
	NOTE_F(c, y);
	c.nontrivial(!x.isZero() && !y.isZero());
	const std::vector<Op<T> >& ops = opsOf<T>();
	for (size_t i = 0; i < ops.size(); i++) {
		const Op<T>& o = ops[i];
		if ((o.flags & opNz) && x.isZero()) continue;
		const bool na = (o.flags & opNoAlias) != 0;
		if (o.arity == 1) {
			if (!na) unary<T>(o.name, x, RunOp<T>(o));
		} else {
			both<T>(o.name, x, y, RunOp<T>(o), na);
		}
	}
	// a compound assignment with the object itself
	T t = x;
	t += t;
	PT_CHECK(t == x + x, "+= itself");
	t = x;
	t -= t;
	PT_CHECK(t == x - x, "-= itself");
	t = x;
	t *= t;
	PT_CHECK(t == x * x, "*= itself");
	t = x;
	t = t;
	PT_CHECK(t == x, "assigned to itself");
}
PT_TEST(fp, 8000, 300000)
{
	level<Fp>(s, c);
	const Fp x = genFp(s), y = genFpNear(s, x);
	NOTE_F(c, x);
	NOTE_F(c, y);
	B(Fp, "addNC", x, y, Fp::addNC(z, x, y));
	{
		const Fp u = raw(x) < raw(y) ? y : x, v = raw(x) < raw(y) ? x : y;
		B(Fp, "subNC", u, v, Fp::subNC(z, x, y));
	}
	U(Fp, "shr1", x, Fp::shr1(z, x));
	U(Fp, "shr2", x, Fp::shr2(z, x));
	U(Fp, "toMont", x, Fp::toMont(z, x));
	U(Fp, "fromMont", x, Fp::fromMont(z, x));
	if (!y.isZero()) { B(Fp, "/", x, y, z = x / y); if (!x.isZero()) { B(Fp, "/=", x, y, if (&z == &y && &z != &x) { z = x / y; return; } if (&z != &x) z = x; z /= y); } }
	U(Fp, "power int", x, z = mie::power(x, 5));
	U(Fp, "squareRoot", x, if (!Fp::squareRoot(z, x)) z = fromRaw(7));
}
PT_TEST(fp2, 4000, 150000)
{
	level<Fp2>(s, c);
	const Fp2 x = genFp2(s), y = genFp2Near(s, x);
	B(Fp2, "addNC", x, y, Fp2::addNC(z, x, y));
	{
		Fp2 u = x, v = y;
		if (raw(u.a_) < raw(v.a_)) std::swap(u.a_, v.a_);
		if (raw(u.b_) < raw(v.b_)) std::swap(u.b_, v.b_);
		B(Fp2, "subNC", u, v, Fp2::subNC(z, x, y));
#ifdef PT_INTERNAL
		B(Fp2, "subNC_C", u, v, Fp2::subNC_C(z, x, y));
#endif
	}
#ifdef PT_INTERNAL
	B(Fp2, "addNC_C", x, y, Fp2::addNC_C(z, x, y));
#endif
	if (!y.isZero()) B(Fp2, "power", x, y, z = mie::power(x, 3) * y);
}
PT_TEST(fp6, 1500, 60000) { level<Fp6>(s, c); }
PT_TEST(fp12, 500, 20000)
{
	level<Fp12>(s, c);
	const ref::F12 g = genCyclo(s);
	const Fp12 x = fp12Of(g);
	NOTE_F(c, x);
	UN(Fp12, Fp12 t = x; t.sqru(z));
	Fp12 z = fp12Of(ref::F12(3)), t = x;
	L()(z, x);
	t.sqru();
	PT_CHECK(z == t, "sqru in place");
	t = x;
	t.sqru(t);
	PT_CHECK(z == t, "sqru over the operand");
	t = x;
	t.Frobenius(t);
	x.Frobenius(z);
	PT_CHECK(z == t, "Frobenius over the operand");
	U(Fp12, "power", x, z = mie::power(x, 6));
#ifdef BN_SUPPORT_SNARK
	U(Fp12, "pow_neg_t", x, Fp12::pow_neg_t(z, x));
#endif
}

// double width
template<class D> struct Wide;
template<> struct Wide<FpDbl> {
	static FpDbl gen(Src& s) { return genDbl(s); }
	static FpDbl near(Src& s, const FpDbl& x) { return dblOf(genWideNear(s, raw(x), pN())); }
	static void order(FpDbl& x, FpDbl& y) { if (raw(x) < raw(y)) std::swap(x, y); }
};
template<> struct Wide<Fp2Dbl> {
	typedef Wide<FpDbl> W;
	static Fp2Dbl gen(Src& s) { return genFp2Dbl(s); }
	static Fp2Dbl near(Src& s, const Fp2Dbl& x) { FpDbl a = W::near(s, x.a_); return Fp2Dbl(a, W::near(s, x.b_)); }
	static void order(Fp2Dbl& x, Fp2Dbl& y) { W::order(x.a_, y.a_); W::order(x.b_, y.b_); }
};
template<> struct Wide<Fp6Dbl> {
	typedef Wide<Fp2Dbl> W;
	static Fp6Dbl gen(Src& s) { Fp6Dbl r; r.a_ = W::gen(s); r.b_ = W::gen(s); r.c_ = W::gen(s); return r; }
	static Fp6Dbl near(Src& s, const Fp6Dbl& x) { Fp6Dbl r; r.a_ = W::near(s, x.a_); r.b_ = W::near(s, x.b_); r.c_ = W::near(s, x.c_); return r; }
	static void order(Fp6Dbl& x, Fp6Dbl& y) { W::order(x.a_, y.a_); W::order(x.b_, y.b_); W::order(x.c_, y.c_); }
};
template<> struct Wide<Fp12Dbl> {
	typedef Wide<Fp6Dbl> W;
	static Fp12Dbl gen(Src& s) { Fp12Dbl r; r.a_ = W::gen(s); r.b_ = W::gen(s); return r; }
	static Fp12Dbl near(Src& s, const Fp12Dbl& x) { Fp12Dbl r; r.a_ = W::near(s, x.a_); r.b_ = W::near(s, x.b_); return r; }
	static void order(Fp12Dbl& x, Fp12Dbl& y) { W::order(x.a_, y.a_); W::order(x.b_, y.b_); }
};
template<class D> void wide(Src& s, Case& c)
{
	const D x = Wide<D>::gen(s), y = s.chance(2, 3) ? Wide<D>::near(s, x) : Wide<D>::gen(s);
	c.nontrivial();
	B(D, "wide add", x, y, D::add(z, x, y));
	B(D, "wide sub", x, y, D::sub(z, x, y));
	U(D, "wide neg", x, D::neg(z, x));
	B(D, "wide +=", x, y, if (&z == &y && &z != &x) { z += x; return; } if (&z != &x) z = x; z += y);
	B(D, "wide -=", x, y, if (&z == &y && &z != &x) { z = x - y; return; } if (&z != &x) z = x; z -= y);
	B(D, "wide addNC", x, y, D::addNC(z, x, y)); // below 2 p 2^256 < 2^512
	D u = x, v = y;
	Wide<D>::order(u, v);
	B(D, "wide subNC", u, v, D::subNC(z, x, y));
}
PT_TEST(wideElements, 3000, 120000)
{
	switch (s.below(4)) {
	case 0: wide<FpDbl>(s, c); break;
	case 1: wide<Fp2Dbl>(s, c); break;
	case 2: wide<Fp6Dbl>(s, c); break;
	default: wide<Fp12Dbl>(s, c); break;
	}
	Fp2Dbl a, b, d;
#ifdef PT_INTERNAL
	const Fp2Dbl x = genFp2Dbl(s), y = genFp2Dbl(s);
	B(Fp2Dbl, "addC", x, y, Fp2Dbl::addC(z, x, y));
	B(Fp2Dbl, "subC", x, y, Fp2Dbl::subC(z, x, y));
	B(Fp2Dbl, "addNC_C", x, y, Fp2Dbl::addNC_C(z, x, y));
	U(Fp2Dbl, "negC", x, Fp2Dbl::negC(z, x));
#endif
	// one object as both factors
	const Fp2 f = genFp2(s), g = f;
	Fp2Dbl::mulOpt1(a, f, g);
	Fp2Dbl::mulOpt1(b, f, f);
	PT_CHECK(memcmp(&a, &b, sizeof(a)) == 0, "mulOpt1 of one object");
	Fp2Dbl::mulOpt2(a, g, g);
	Fp2Dbl::mulOpt2(b, g, Fp2(g));
	PT_CHECK(memcmp(&a, &b, sizeof(a)) == 0, "mulOpt2 of one object");
	const Fp6 h = genFp6(s), k = h;
	Fp6Dbl m, n;
	Fp6Dbl::mul(m, h, k);
	Fp6Dbl::mul(n, h, h);
	PT_CHECK(memcmp(&m, &n, sizeof(m)) == 0, "Fp6Dbl::mul of one object");
	const Fp p = genFp(s), q = p;
	FpDbl e, r;
	FpDbl::mul(e, p, q);
	FpDbl::mul(r, p, p);
	PT_CHECK(e == r, "FpDbl::mul of one object");
}

// integers
const size_t kB = MIE_ZM_VUINT_BIT_LEN;
static bool fitsB(const Z& x) { return mpz_sizeinbase(x.get_mpz_t(), 2) <= kB; }
static size_t gShift;
static Unit gWord;
PT_TEST(unsignedIntegers, 15000, 600000)
{
	Z X = genUint(s, kB), Y = s.chance(1, 4) ? Z(abs(X + zi((int64_t)s.below(3) - 1))) : genUint(s, kB);
	if (!fitsB(Y)) Y = X;
	NOTE_Z(c, X);
	NOTE_Z(c, Y);
	c.nontrivial(X > 1 && Y > 1);
	const Vuint x = vuintOf(X), y = vuintOf(Y), g = X < Y ? y : x, l = X < Y ? x : y;
	gWord = genWord(s);
	if (fitsB(Z(X + Y))) B1(Vuint, "add", x, y, Vuint::add(z, x, y));
	const Vuint hx = vuintOf(X >> (kB / 2)), hy = vuintOf(Y >> (kB / 2));
	B(Vuint, "add", hx, hy, Vuint::add(z, x, y));
	B(Vuint, "+=", hx, hy, if (&z == &y && &z != &x) { z += x; return; } if (&z != &x) z = x; z += y);
	B(Vuint, "sub", g, l, Vuint::sub(z, x, y));
	B(Vuint, "-=", g, l, if (&z == &y && &z != &x) { z = x - y; return; } if (&z != &x) z = x; z -= y);
	B(Vuint, "mul", hx, hy, Vuint::mul(z, x, y));
	B(Vuint, "*=", hx, hy, if (&z == &y && &z != &x) { z *= x; return; } if (&z != &x) z = x; z *= y);
	U(Vuint, "add word", hx, Vuint::add(z, x, gWord));
	U(Vuint, "mul word", hx, Vuint::mul(z, x, gWord));
	gShift = (size_t)s.below(kB / 2);
	U(Vuint, "shl", hx, Vuint::shl(z, x, gShift));
	U(Vuint, "<<=", hx, if (&z != &x) z = x; z <<= gShift);
	gShift = (size_t)s.below(kB + 70);
	U(Vuint, "shr", x, Vuint::shr(z, x, gShift));
	U(Vuint, ">>=", x, if (&z != &x) z = x; z >>= gShift);
	// division: all placements of quotient and remainder
	const Z D = s.flip() ? genDivisor(s, kB) : Y == 0 ? Z(1) : Y;
	const Z N = s.flip() ? X : genDividend(s, D, kB);
	NOTE_Z(c, N);
	NOTE_Z(c, D);
	const Vuint n = vuintOf(N), d = vuintOf(D), Q = vuintOf(N / D), R = vuintOf(N % D);
	const size_t where = s.below(3) * 4 + s.below(4); // quotient: apart, x, y; remainder: apart, x, y, no quotient
	Vuint a = n, b = d, q = vuintOf(genUint(s, kB)), r = vuintOf(genUint(s, kB));
	Vuint *pq[] = { &q, &a, &b }, *pr[] = { &r, &a, &b, &r };
	Vuint *qq = where % 4 == 3 ? 0 : pq[where / 4], *rr = pr[where % 4];
	if (where % 4 == 3) rr = pr[where / 4];
	if (qq == rr) qq = &q;
	PT_NOTE(c, where);
	PT_CHECK(Vuint::div(qq, *rr, a, b), "division refused");
	if (qq) PT_CHECK(Same<Vuint>::eq(*qq, Q), "quotient " << hex(toZ(*qq)) << ", expected " << hex(N / D));
	PT_CHECK(Same<Vuint>::eq(*rr, R), "remainder " << hex(toZ(*rr)) << ", expected " << hex(N % D));
	if (qq != &a && rr != &a) PT_CHECK(toZ(a) == N, "the dividend changed");
	if (qq != &b && rr != &b) PT_CHECK(toZ(b) == D, "the divisor changed");
	a = n;
	a /= d;
	PT_CHECK(Same<Vuint>::eq(a, Q), "/=");
	a = n;
	a %= d;
	PT_CHECK(Same<Vuint>::eq(a, R), "%=");
	b = d;
	b = n / b;
	PT_CHECK(Same<Vuint>::eq(b, Q), "/ over the divisor");
	if (D != 0) {
		// one object as dividend and divisor
		a = d;
		Vuint::div(&q, r, a, a);
		PT_CHECK(toZ(q) == 1 && r.isZero() && q.size() == 1 && r.size() == 1, "divided by itself");
		Vuint::div(&a, r, a, a);
		PT_CHECK(toZ(a) == 1 && r.isZero(), "divided by itself, quotient over it");
		a = d;
		Vuint::div(&q, a, a, a);
		PT_CHECK(toZ(q) == 1 && a.isZero(), "divided by itself, remainder over it");
		a = d;
		a /= a;
		PT_CHECK(toZ(a) == 1, "/= itself");
		a = d;
		a %= a;
		PT_CHECK(a.isZero(), "%= itself");
	}
}
PT_TEST(signedIntegers, 15000, 600000)
{
	Z X = genUint(s, kB / 2), Y = s.chance(1, 4) ? Z(X + zi((int64_t)s.below(3) - 1)) : genUint(s, kB / 2);
	if (s.flip()) X = -X;
	if (s.flip()) Y = -Y;
	NOTE_Z(c, X);
	NOTE_Z(c, Y);
	c.nontrivial(X != 0 && Y != 0);
	if (!fitsB(Z(X * Y))) Y = 1;
	Vsint x(vuintOf(abs(X))), y(vuintOf(abs(Y)));
	if (X < 0) x = -x;
	if (Y < 0) y = -y;
	B(Vsint, "add", x, y, Vsint::add(z, x, y));
	B(Vsint, "sub", x, y, Vsint::sub(z, x, y));
	B(Vsint, "+=", x, y, if (&z == &y && &z != &x) { z += x; return; } if (&z != &x) z = x; z += y);
	B(Vsint, "-=", x, y, if (&z == &y && &z != &x) { z = x - y; return; } if (&z != &x) z = x; z -= y);
	U(Vsint, "neg", x, Vsint::neg(z, x));
	if (abs(X) < ref::pow2(kB / 2 - 1)) {
		B(Vsint, "mul", x, y, Vsint::mul(z, x, y));
		B(Vsint, "*=", x, y, if (&z == &y && &z != &x) { z *= x; return; } if (&z != &x) z = x; z *= y);
	}
	gShift = (size_t)s.below(kB / 2 - 1);
	U(Vsint, "shl", x, Vsint::shl(z, x, gShift));
	if (X >= 0) U(Vsint, "shr", x, Vsint::shr(z, x, gShift));
	if (Y != 0) {
		Z Q, R;
		mpz_fdiv_qr(Q.get_mpz_t(), R.get_mpz_t(), X.get_mpz_t(), Y.get_mpz_t());
		const size_t wq = s.below(4), wr = s.below(3);
		Vsint a = x, b = y, q(5), r(-5);
		Vsint *pq[] = { &q, &a, &b, 0 }, *pr[] = { &r, &a, &b };
		if (pq[wq] == pr[wr]) return;
		PT_NOTE(c, wq);
		PT_NOTE(c, wr);
		Vsint::div(pq[wq], *pr[wr], a, b);
		if (pq[wq]) PT_CHECK(toZ(*pq[wq]) == Q, "quotient " << hex(toZ(*pq[wq])) << ", expected " << hex(Q));
		PT_CHECK(toZ(*pr[wr]) == R, "remainder " << hex(toZ(*pr[wr])) << ", expected " << hex(R));
		a = y;
		Vsint::div(&q, r, a, a);
		PT_CHECK(toZ(q) == 1 && r.isZero(), "divided by itself");
		a /= a;
		PT_CHECK(toZ(a) == 1, "/= itself");
	}
}
PT_TEST(residues, 10000, 400000)
{
	Z M = s.flip() ? ref::C.p : genUint(s, kB / 2);
	if (M < 2) M = 97;
	Res::setModulo(vuintOf(M));
	const Z X = genBelow(s, M), Y = s.chance(1, 3) ? Z(M - 1 - X) : genBelow(s, M);
	NOTE_Z(c, M);
	NOTE_Z(c, X);
	NOTE_Z(c, Y);
	c.nontrivial(X > 1 && Y > 1);
	Res x, y;
	x.set(vuintOf(X));
	y.set(vuintOf(Y));
	B(Res, "add", x, y, Res::add(z, x, y));
	B(Res, "sub", x, y, Res::sub(z, x, y));
	B(Res, "mul", x, y, Res::mul(z, x, y));
	U(Res, "neg", x, Res::neg(z, x));
	B(Res, "+=", x, y, if (&z == &y && &z != &x) { z += x; return; } if (&z != &x) z = x; z += y);
	B(Res, "-=", x, y, if (&z == &y && &z != &x) { z = x - y; return; } if (&z != &x) z = x; z -= y);
	B(Res, "*=", x, y, if (&z == &y && &z != &x) { z *= x; return; } if (&z != &x) z = x; z *= y);
	Z g;
	mpz_gcd(g.get_mpz_t(), Y.get_mpz_t(), M.get_mpz_t());
	if (g == 1) {
		U(Res, "inv", y, Res::inv(z, x));
		B1(Res, "/", x, y, z = x / y);
		S1(Res, "/", y, z = x / y);
		S1(Res, "/=", y, if (&z == &y && &z != &x) { z = x / y; return; } if (&z != &x) z = x; z /= y);
	}
}

// points
template<class FF> struct Form {
	typedef typename Grp<FF>::Ec Ec;
	static int i;
	static Vuint v;
	static Z m;
	static size_t u;
};
template<class FF> int Form<FF>::i;
template<class FF> Vuint Form<FF>::v;
template<class FF> Z Form<FF>::m;
template<class FF> size_t Form<FF>::u;

template<class FF> void points(Src& s, Case& c)
{
	typedef typename Grp<FF>::Ec Ec;
	typedef typename Grp<FF>::P P;
	typedef Form<FF> M;
	const P p = Gen<FF>::point(s, c), q = Gen<FF>::near(s, c, p);
	const Ec x = Gen<FF>::rep(s, p), y = Gen<FF>::repLike(s, q, x);
	sayPt<FF>(c, "x", x);
	sayPt<FF>(c, "y", y);
	c.nontrivial(!p.inf && !q.inf);
	B(Ec, "add", x, y, Ec::add(z, x, y));
	B(Ec, "sub", x, y, Ec::sub(z, x, y));
	U(Ec, "dbl", x, Ec::dbl(z, x));
	U(Ec, "neg", x, Ec::neg(z, x));
	B(Ec, "+=", x, y, if (&z == &y && &z != &x) { z += x; return; } if (&z != &x) z = x; z += y);
	B(Ec, "-=", x, y, if (&z == &y && &z != &x) { z = x - y; return; } if (&z != &x) z = x; z -= y);
	B(Ec, "ECAdd", x, y, bn::ecop::ECAdd(z.p, x.p, y.p));
	U(Ec, "ECDouble", x, bn::ecop::ECDouble(z.p, x.p));
	U(Ec, "NormalizeJac", x, bn::ecop::NormalizeJac(z.p, x.p));
	U(Ec, "copy", x, bn::ecop::copy(z.p, x.p));
	switch (s.below(4)) {
	case 0: M::i = (int)s.below(40) - 20; U(Ec, "mul int", x, Ec::mul(z, x, M::i)); U(Ec, "ScalarMult int", x, bn::ecop::ScalarMult(z.p, x.p, M::i)); break;
	case 1: M::v = vuintOf(genUint(s, 130)); U(Ec, "mul Vuint", x, Ec::mul(z, x, M::v)); U(Ec, "ScalarMult Vuint", x, bn::ecop::ScalarMult(z.p, x.p, M::v)); break;
	case 2: M::m = genUint(s, 130); if (s.flip()) M::m = -M::m; U(Ec, "mul mpz", x, Ec::mul(z, x, M::m)); U(Ec, "*= mpz", x, if (&z != &x) z = x; z *= M::m); break;
	default: M::u = genWord(s); U(Ec, "mul size_t", x, Ec::mul(z, x, M::u)); break;
	}
	// homogeneous
	if (!p.inf) {
		FF h[3], o[3];
		const FF zz = genScale<FF>(s);
		typename Model<FF>::R Zr = Model<FF>::get(zz);
		h[0] = Model<FF>::make(p.x * Zr);
		h[1] = Model<FF>::make(p.y * Zr);
		h[2] = zz;
		bn::ecop::NormalizeHom(o, h);
		bn::ecop::NormalizeHom(h, h);
		PT_CHECK(memcmp(o, h, sizeof(h)) == 0, "NormalizeHom over the operand");
	}
}
PT_TEST(pointsG1, 1500, 60000) { points<Fp>(s, c); }
PT_TEST(pointsG2, 700, 30000) { points<Fp2>(s, c); }

PT_TEST(twistMaps, 2000, 80000)
{
	const ref::P2 q = genP2any(s);
	struct Pair { Fp2 p[2]; } x;
	x.p[0] = fp2Of(q.x);
	x.p[1] = fp2Of(q.y);
	c.nontrivial();
	U(Pair, "FrobEndOnTwist_1", x, bn::ecop::FrobEndOnTwist_1(z.p, x.p));
	U(Pair, "FrobEndOnTwist_2", x, bn::ecop::FrobEndOnTwist_2(z.p, x.p));
	U(Pair, "FrobEndOnTwist_8", x, bn::ecop::FrobEndOnTwist_8(z.p, x.p));
}
