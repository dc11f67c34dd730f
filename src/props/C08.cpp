// Cyclotomic subgroup: specialised and compressed squaring, powering to the curve parameter.
#include "ops.h"
#include "cyclospec.h"

static ref::F12 genMember(Src& s, Case& c)
{
	if (s.chance(1, 6)) {
		if (s.chance(1, 3)) {
			const ref::F12& r = cyclospec::getVanishing(s.below(s.chance(1, 16) ? 480 : 48));
			if (r != ref::F12(1)) {
				c.cls("vanishing coefficient and form of another");
				return s.chance(1, 4) ? r.conj() : r;
			}
		}
		ref::F2 tau = f2(genFp2(s));
		int kind = (int)s.below(2);
		for (int i = 0; i < 24; i++) {
			ref::F12 r;
			if (cyclospec::special(r, tau, kind)) {
				c.cls(kind == 0 ? "coefficient of w vanishes" : "coefficient of w^5 vanishes");
				return s.chance(1, 4) ? r.conj() : r;
			}
			tau = tau + ref::F2(1);
		}
		c.cls("no special element found");
	}
	if (s.chance(1, 10)) {
		const ref::F12& r = cyclospec::get(s.below(s.chance(1, 16) ? 600 : 60));
		if (r != ref::F12(1)) {
			c.cls("prescribed coordinate");
			switch (s.below(4)) {
			case 0: return r.conj();
			case 1: return ref::frob(r);
			default: return r;
			}
		}
	}
	ref::F12 r = genCyclo(s);
	c.cls(r == ref::F12(1) ? "one" : "generic");
	return r;
}

PT_TEST(squaring, 4000, 200000)
{
	ref::F12 X = genMember(s, c);
	if (c.verbose) c.say("x = " + X.str());
	c.nontrivial(X != ref::F12(1));
	const Fp12 x = fp12Of(X);
	Fp12 z = x;
	z.sqru();
	expectEq(z, X * X, "sqru");
	Fp12 y = gen<Fp12>(s);
	x.sqru(y);
	expectEq(y, X * X, "sqru to another object");
	PT_CHECK(f12(x) == X, "the operand changed");
	size_t n = s.below(6);
	for (size_t i = 0; i < n; i++) {
		X = X * X;
		y.sqru();
	}
	expectEq(y, X * X, "repeated sqru");
}

PT_TEST(compressed, 1500, 80000)
{
	ref::F12 X = genMember(s, c);
	if (c.verbose) c.say("x = " + X.str());
	c.nontrivial(X != ref::F12(1));
	const Fp12 x = fp12Of(X);
	Fp12 out = s.flip() ? x : gen<Fp12>(s);
	{
		bn::Compress z(out, x);
		Fp12 t = x;
		// groups of squarings
		size_t groups = s.below(4), total = 0;
		for (size_t i = 0; i < groups; i++) {
			int n = (int)s.below(s.chance(1, 8) ? 71 : 6);
			PT_NOTE(c, n);
#ifdef PT_INTERNAL
			if (s.chance(1, 3)) bn::Compress::square_nC(z, n);
			else
#endif
			bn::Compress::square_n(z, n);
			total += (size_t)n;
			for (int k = 0; k < n; k++) X = X * X;
		}
		if (s.flip()) {
			Fp12 d = gen<Fp12>(s);
			bn::Compress w(d, z); // continue on a copy
			bn::Compress::square_n(w, 1);
			w.decompress();
			expectEq(d, X * X, "copy squared once more");
		}
		z.decompress();
		PT_NOTE(c, total);
	}
	expectEq(out, X, "compressed squarings");
}

// element that has the vanishing coordinate only after k squarings
static ref::F12 rootOf(const ref::F12& x, unsigned k)
{
	const Z p2 = ref::C.p * ref::C.p, n = p2 * p2 - p2 + 1;
	Z e = ref::pow2(k), iv;
	mpz_invert(iv.get_mpz_t(), e.get_mpz_t(), n.get_mpz_t());
	return ref::pow(x, iv);
}

PT_TEST(curveParameter, 300, 16000)
{
	ref::F12 X = genMember(s, c);
	if (s.chance(1, 4)) {
		const unsigned k = s.chance(1, 2) ? 55 : s.chance(1, 2) ? 62 : (unsigned)s.below(64);
		X = rootOf(X, k);
		PT_NOTE(c, k);
		c.cls("root of a member");
	}
	if (c.verbose) c.say("x = " + X.str());
	c.nontrivial(X != ref::F12(1));
	const Fp12 x = fp12Of(X);
	Fp12 z = gen<Fp12>(s);
	const Z n = abs(ref::C.z);
	ref::F12 want = ref::pow(X, n);
#ifdef BN_SUPPORT_SNARK
	Fp12::pow_neg_t(z, x);
	expectEq(z, want.conj(), "power to minus the curve parameter");
#else
	bn::Compress::fixed_power(z, x);
	expectEq(z, want, "power to the magnitude of the curve parameter");
#endif
	PT_CHECK(f12(x) == X, "the operand changed");
	Fp12 w = mie::power(x, vuintOf(n));
	expectEq(w, want, "generic power");
#ifdef BN_SUPPORT_SNARK
	w = x;
	Fp12::pow_neg_t(w, w);
	expectEq(w, want.conj(), "power to minus the curve parameter, in place");
#endif
}

// members that share coefficients with x: conjugates (w -> -w) and powers of p^2
static ref::F12 akin(Src& s, ref::F12 x)
{
	for (size_t k = s.below(3); k > 0; k--) x = ref::frob(ref::frob(x));
	return s.flip() ? x.conj() : x;
}
// the operations in any order on related members: none remembers another call
PT_TEST(history_, 250, 14000)
{
	const size_t n = 3;
	ref::F12 X[n];
	Fp12 x[n];
	for (size_t i = 0; i < n; i++) {
		X[i] = i && s.chance(5, 6) ? akin(s, X[i - 1]) : genMember(s, c);
		x[i] = fp12Of(X[i]);
		if (c.verbose) c.say("x = " + X[i].str());
	}
	const size_t len = s.range(2, 10);
	for (size_t k = 0; k < len; k++) {
		const size_t d = s.below(n), a = s.below(n), o = s.below(8);
		if (c.verbose) { std::ostringstream os; os << "x" << d << " <- op" << o << " x" << a; c.say(os.str()); }
		const ref::F12 A = X[a];
		switch (o) {
		case 0: { Fp12 t = x[a]; t.sqru(); x[d] = t; X[d] = A * A; break; }
		case 1: if (d == a) x[d].sqru(); else x[a].sqru(x[d]); X[d] = A * A; break;
		case 2: case 3: {
			const int m = (int)s.below(5);
			bn::Compress z(x[d], x[a]);
			bn::Compress::square_n(z, m);
			z.decompress();
			X[d] = A;
			for (int i = 0; i < m; i++) X[d] = X[d] * X[d];
			break;
		}
		case 4: {
			const Z z = abs(ref::C.z);
			const ref::F12 want = ref::pow(A, z);
			Fp12 t = x[d];
#ifdef BN_SUPPORT_SNARK
			Fp12::pow_neg_t(t, x[a]);
			X[d] = want.conj();
#else
			bn::Compress::fixed_power(t, x[a]);
			X[d] = want;
#endif
			x[d] = t;
			break;
		}
		case 5: x[d] = x[a]; Fp6::neg(x[d].b_, x[d].b_); X[d] = A.conj(); break;
		case 6: { Fp12 t; x[a].Frobenius2(t); x[d] = t; X[d] = ref::frob(ref::frob(A)); break; }
		default: Fp12::mul(x[d], x[a], x[d]); X[d] = A * X[d]; break;
		}
		expectEq(x[d], X[d], "operation in a history");
	}
	for (size_t i = 0; i < n; i++) expectEq(x[i], X[i], "member after the history");
	c.nontrivial(len >= 3 && X[0] != ref::F12(1));
}
