// Square roots exist exactly for the squares.
#include "curve.h"

static Fp genInput(Src& s, Case& c)
{
	switch (s.below(6)) {
	case 0: { c.cls("a square"); const Fp x = genFp(s); return x * x; }
	case 1: { c.cls("minus a square"); const Fp x = genFp(s); return -(x * x); }
	case 2: c.cls("small"); return fpOf(Z((unsigned long)s.below(40)) - 20);
	case 3: { c.cls("next to a square"); const Fp x = genFp(s); return x * x + Fp((int)s.below(3) - 1); }
	default: return genFp(s);
	}
}

// the bytes around the output matter too: it is the middle one of three
static void check(Src& s, Case& c, const Fp& x)
{
	const Z v = val(x);
	const bool square = v == 0 || ref::isSquare(v);
	c.cls(square ? "residue" : "non-residue");
	c.nontrivial(v > 1);
	NOTE_F(c, x);
	const Fp x0 = x;
	Fp out[3] = { genFp(s), genFp(s), genFp(s) };
	const Fp old[3] = { out[0], out[1], out[2] };
	const bool ok = Fp::squareRoot(out[1], x);
	PT_CHECK(ok == square, "squareRoot returned " << ok << " for " << hex(v));
	PT_CHECK(memcmp(&x, &x0, sizeof(x)) == 0, "squareRoot changed its input");
	PT_CHECK(memcmp(&out[0], &old[0], sizeof(Fp)) == 0 && memcmp(&out[2], &old[2], sizeof(Fp)) == 0, "squareRoot wrote beside its output");
	if (ok) {
		PT_CHECK(canon(out[1]), "root not reduced");
		PT_CHECK(ref::mod(val(out[1]) * val(out[1])) == v, "the square of the root of " << hex(v) << " is not it");
	} else {
		PT_CHECK(memcmp(&out[1], &old[1], sizeof(Fp)) == 0, "the output changed although there is no root");
	}
	// output in place of the input
	Fp a = x;
	const bool ok2 = Fp::squareRoot(a, a);
	PT_CHECK(ok2 == ok, "in place: returned " << ok2);
	PT_CHECK(a == (ok ? out[1] : x), "in place: another result");
	// again over its own result: roots of equal values are equal
	Fp b = ok ? out[1] : a;
	PT_CHECK(Fp::squareRoot(b, x) == ok, "second call differs");
	PT_CHECK(b == (ok ? out[1] : x), "second call gives another root");
}

PT_TEST(roots, 4000, 200000)
{
	check(s, c, genInput(s, c));
}

// every element of a run of consecutive integers
PT_TEST(runs, 60, 3000)
{
	Fp x = genFp(s);
	const size_t n = s.range(1, 40);
	for (size_t i = 0; i < n; i++) {
		check(s, c, x);
		x += 1;
	}
}

// residuosity is multiplicative: the library alone
PT_TEST(character, 2000, 100000)
{
	const Fp x = genInput(s, c), y = genInput(s, c);
	NOTE_F(c, x);
	NOTE_F(c, y);
	if (x.isZero() || y.isZero()) return;
	c.nontrivial();
	Fp r, t, u, v;
	const bool a = Fp::squareRoot(r, x), b = Fp::squareRoot(t, y);
	PT_CHECK(Fp::squareRoot(u, x * y) == (a == b), "product of " << (a ? "a square" : "a non-square") << " and " << (b ? "a square" : "a non-square"));
	PT_CHECK(Fp::squareRoot(v, -x) == !a, "exactly one of x and -x is a square");
	if (a && b) PT_CHECK(u == r * t || u == -(r * t), "root of a product");
	Fp z = x;
	z.inverse();
	PT_CHECK(Fp::squareRoot(v, z) == a, "inverse");
	if (a) PT_CHECK(v * r == Fp(1) || v * r == Fp(-1), "root of the inverse");
}

// a point with a given abscissa
PT_TEST(abscissa, 1500, 80000)
{
	Fp x = genInput(s, c);
	if (s.chance(1, 3)) x = fpOf(genP1(s).x); // there is one
	NOTE_F(c, x);
	c.nontrivial();
	const Fp rhs = x * x * x + Fp(Param::b);
	const ref::F1 X = f1(x);
	const ref::F1 R = X * X * X + ref::b1();
	const bool exists = R.isZero() || ref::isSquare(R.v);
	c.cls(exists ? "point exists" : "no point");
	Fp y;
	const bool ok = Fp::squareRoot(y, rhs);
	PT_CHECK(ok == exists, "found " << ok << " for x = " << hex(val(x)));
	if (!ok) return;
	const Fp one(1);
	PT_CHECK(Ec1(x, y, one, false).isValid() && Ec1(x, -y, one, false).isValid(), "not on the curve");
	Ec1 p(x, y, one, false), q(x, -y, one, false), r;
	Ec1::add(r, p, q);
	PT_CHECK(r.isZero(), "points of equal abscissa are opposite");
	const Fp yy = fpOf(f1(y));
	PT_CHECK(yy == y, "representation of the root");
}
