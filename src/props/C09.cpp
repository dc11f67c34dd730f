// Final exponentiation
#include "ops.h"

static Fp12 fe(Fp12 x) { x.final_exp(); return x; }
static Fp12 one() { return fp12Of(ref::F12(1)); }

static ref::F12 subfield(Src& s, Case& c)
{
	ref::F12 r;
	size_t k = s.below(5);
	static const char *const name[] = { "in Fp", "in Fp2", "in Fp4", "in Fp6", "in the other copy of Fp" };
	c.cls(name[k]);
	switch (k) {
	case 0: r.c[0] = ref::F2(f1(genFp(s))); break;
	case 1: r.c[0] = f2(genFp2(s)); break;
	case 2: r.c[0] = f2(genFp2(s)); r.c[3] = f2(genFp2(s)); break;
	case 3: r = f6(genFp6(s)); break;
	default: r.c[0] = ref::F2(Z(0), val(genFp(s))); break;
	}
	if (r.isZero()) r = ref::F12(1);
	return r;
}

PT_TEST(definition, 100, 6000)
{
	ref::F12 X = s.chance(1, 12) ? subfield(s, c) : f12(genFp12Nz(s));
	if (c.verbose) c.say("x = " + X.str());
	ref::F12 want = ref::finalExp(X);
	c.nontrivial(want != ref::F12(1));
	Fp12 z = fp12Of(X);
	z.final_exp();
	expectEq(z, want, "final_exp");
	Fp12 w = mie::power(z, Param::r);
	PT_CHECK(w == one(), "the result does not have order dividing r");
	// then of a related element
	if (s.chance(1, 3)) {
		w = genNear(s, fp12Of(X));
		if (w.isZero()) return;
		const ref::F12 W = f12(w);
		if (c.verbose) c.say("then y = " + rawStr(w));
		w.final_exp();
		expectEq(w, ref::finalExp(W), "final_exp of a related element");
	}
}

PT_TEST(easyPart_, 4000, 200000)
{
	ref::F12 X = s.chance(1, 12) ? subfield(s, c) : f12(genFp12Nz(s));
	if (c.verbose) c.say("x = " + X.str());
	ref::F12 want = easyPart(X);
	c.nontrivial(want != ref::F12(1));
	Fp12 x = fp12Of(X), z = genFp12(s);
	x.mapToCyclo(z);
	expectEq(z, want, "mapToCyclo");
	const ref::F12 Z1 = f12(z), p2 = ref::frob(ref::frob(Z1)), p4 = ref::frob(ref::frob(p2));
	PT_CHECK(p4 * Z1 == p2, "not in the cyclotomic subgroup");
	PT_CHECK(Z1 * Z1.conj() == ref::F12(1), "conjugation does not invert");
	// again, for a related element and in the same storage
	Fp12 y = genNear(s, fp12Of(X));
	if (y.isZero()) y = one();
	const ref::F12 Y = f12(y);
	if (c.verbose) c.say("then y = " + rawStr(y));
	y.mapToCyclo(z);
	expectEq(z, easyPart(Y), "mapToCyclo of a related element");
}

// consequences of being one fixed power, on the library alone
PT_TEST(multiplicative, 500, 25000)
{
	Fp12 x = genFp12Nz(s), y = s.flip() ? genNear(s, x) : genFp12Nz(s);
	if (y.isZero()) y = x;
	if (c.verbose) { c.say("x = " + rawStr(x)); c.say("y = " + rawStr(y)); }
	const Fp12 a = fe(x), b = fe(y);
	c.nontrivial(a != one() && b != one());
	PT_CHECK(canon(a) && canon(b), "not fully reduced");
	PT_CHECK(fe(x * y) == a * b, "fe(x y) != fe(x) fe(y)");
	Fp12 ix = x;
	ix.inverse();
	PT_CHECK(fe(ix) * a == one(), "fe(1/x) fe(x) != 1");
	Fp12 k = fp12Of(subfield(s, c));
	if (c.verbose) c.say("k = " + rawStr(k));
	PT_CHECK(fe(k) == one(), "subfield element not mapped to one");
	PT_CHECK(fe(x * k) == a, "a subfield factor changes the result");
	Fp12 fx, fa;
	x.Frobenius(fx);
	a.Frobenius(fa);
	PT_CHECK(fe(fx) == fa, "fe(x^p) != fe(x)^p");
}

// many elements in any order: the exponent stays the same
PT_TEST(history_, 60, 3000)
{
	Fp12 x[3], a[3];
	for (size_t i = 0; i < 3; i++) {
		x[i] = i && s.chance(3, 4) ? genNear(s, x[i - 1]) : genFp12Nz(s);
		if (x[i].isZero()) x[i] = one();
		a[i] = fe(x[i]);
		if (c.verbose) c.say("x = " + rawStr(x[i]));
	}
	// relations between all of them first
	PT_CHECK(fe(x[0] * x[1]) == a[0] * a[1] && fe(x[1] * x[2]) == a[1] * a[2] && fe(x[0] * x[2]) == a[0] * a[2], "fe(x y) != fe(x) fe(y)");
	const size_t len = s.range(2, 10);
	c.nontrivial(a[0] != one());
	for (size_t k = 0; k < len; k++) {
		const size_t i = s.below(3), j = s.below(3), o = s.below(4);
		if (c.verbose) { std::ostringstream os; os << "op" << o << " x" << i << " x" << j; c.say(os.str()); }
		Fp12 t = x[i], u;
		switch (o) {
		case 0: t.final_exp(); u = a[i]; break;
		case 1: t *= x[j]; t.final_exp(); u = a[i] * a[j]; break;
		case 2: t.Frobenius2(t); t.final_exp(); a[i].Frobenius2(u); break;
		default: t.inverse(); t.final_exp(); u = a[i]; Fp6::neg(u.b_, u.b_); break;
		}
		PT_CHECK(t == u, "another value than before");
	}
}

// injective on the group of order r: the exponent is prime to r
PT_TEST(onTheGroup, 100, 5000)
{
	Fp12 g = fe(genFp12Nz(s));
	if (c.verbose) c.say("g = " + rawStr(g));
	c.nontrivial(g != one());
	Fp12 h = fe(g);
	PT_CHECK((h == one()) == (g == one()), "fe is not injective on the group");
	const Z e = ref::modn(ref::finalExponent(), ref::C.r);
	Fp12 w = mie::power(g, vuintOf(e));
	PT_CHECK(w == h, "fe(g) is not the fixed power of g");
}
