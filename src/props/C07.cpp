// Frobenius maps
#include "ops.h"

static void apply(Fp12& z, const Fp12& x, int k)
{
	switch (k) {
	case 1: x.Frobenius(z); break;
	case 2: x.Frobenius2(z); break;
	default: x.Frobenius3(z); break;
	}
}
static ref::F12 frobK(ref::F12 x, int k) { while (k--) x = ref::frob(x); return x; }

PT_TEST(definition, 30000, 1500000)
{
	Fp12 x = gen<Fp12>(s), y = s.flip() ? genNear(s, x) : gen<Fp12>(s);
	if (c.verbose) { c.say("x = " + rawStr(x)); c.say("y = " + rawStr(y)); }
	c.nontrivial(!x.isZero() && !y.isZero());
	int k = 1 + (int)s.below(3);
	const ref::F12 X = f12(x);
	Fp12 z, w = gen<Fp12>(s);
	apply(z, x, k);
	expectEq(z, frobK(X, k), "Frobenius map");
	PT_CHECK(f12(x) == X, "the operand changed");
	w = x;
	apply(w, w, k); // over the operand
	expectEq(w, frobK(X, k), "Frobenius map in place");
	// ring homomorphism, on the library's own operations
	Fp12 fy, fs, fp;
	apply(fy, y, k);
	apply(fs, x + y, k);
	apply(fp, x * y, k);
	PT_CHECK(fs == z + fy, "sum");
	PT_CHECK(fp == z * fy, "product");
}

// the reference map itself is the p-th power (generic powering of the model and of the library)
PT_TEST(power, 24, 1200)
{
	Fp12 x = gen<Fp12>(s);
	if (c.verbose) c.say("x = " + rawStr(x));
	c.nontrivial(!x.isZero());
	int k = 1 + (int)s.below(3);
	ref::F12 want = ref::pow(f12(x), ref::pk(ref::C.p, k));
	Fp12 z;
	apply(z, x, k);
	expectEq(z, want, "Frobenius map against powering");
	if (k == 1) {
		Fp12 w = mie::power(x, mie::Vuint(Fp::getModulo()));
		PT_CHECK(w == z, "generic power differs");
	}
}

PT_TEST(compositions, 6000, 300000)
{
	Fp12 x = gen<Fp12>(s), z = x;
	if (c.verbose) c.say("x = " + rawStr(x));
	c.nontrivial(!x.isZero());
	int total = 0;
	std::ostringstream os;
	// random composition of length p^12 in total
	while (total < 12) {
		int k = 1 + (int)s.below(std::min(3, 12 - total));
		if (s.flip()) apply(z, z, k);
		else { Fp12 t; apply(t, z, k); z = t; }
		total += k;
		os << k << " ";
		if (total <= 12) expectEq(z, frobK(f12(x), total % 12), "composition");
		if (total == 6) {
			Fp12 w = x;
			Fp6::neg(w.b_, w.b_);
			PT_CHECK(w == z, "p^6 power is conjugation");
		}
	}
	c.say(os.str());
	PT_CHECK(z == x, "p^12 power is the identity");
}
