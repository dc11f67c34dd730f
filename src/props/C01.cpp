// Prime-field arithmetic is exact modulo p.
#include "lib.h"
#include <limits.h>

static bool trivial(const Fp& x)
{
	Z v = val(x);
	return v == 0 || v == 1;
}

PT_TEST(binary, 60000, 3000000)
{
	Fp x, y, z;
	genPair(s, x, y);
	NOTE_F(c, x);
	NOTE_F(c, y);
	c.nontrivial(!trivial(x) && !trivial(y));
	const ref::F1 X = f1(x), Y = f1(y);
	Fp::add(z, x, y);
	expectEq(z, X + Y, "add");
	Fp::sub(z, x, y);
	expectEq(z, X - Y, "sub");
	Fp::mul(z, x, y);
	expectEq(z, X * Y, "mul");
	switch (s.below(4)) {
	case 0: z = x + y; expectEq(z, X + Y, "operator+"); z = x; z += y; expectEq(z, X + Y, "operator+="); break;
	case 1: z = x - y; expectEq(z, X - Y, "operator-"); z = x; z -= y; expectEq(z, X - Y, "operator-="); break;
	default: z = x * y; expectEq(z, X * Y, "operator*"); z = x; z *= y; expectEq(z, X * Y, "operator*="); break;
	}
	PT_CHECK(raw(x) == raw(Model<Fp>::make(X)) && raw(y) == raw(Model<Fp>::make(Y)), "an operand changed");
	c.cls(raw(x) + raw(y) >= ref::C.p ? "sum wraps" : "sum does not wrap");
	c.cls(raw(x) < raw(y) ? "difference wraps" : "difference does not wrap");
}

PT_TEST(unary, 60000, 3000000)
{
	Fp x = genFp(s), z;
	NOTE_F(c, x);
	c.nontrivial(!trivial(x));
	const ref::F1 X = f1(x);
	static const Z i2 = ref::invmod(2), i4 = ref::invmod(4);
	Fp::neg(z, x);
	expectEq(z, -X, "neg");
	z = -x;
	expectEq(z, -X, "unary -");
	Fp::square(z, x);
	expectEq(z, X * X, "square");
	Fp::divBy2(z, x);
	expectEq(z, X * ref::F1(i2), "divBy2");
	Fp::divBy4(z, x);
	expectEq(z, X * ref::F1(i4), "divBy4");
	c.cls((raw(x) & 3) == 0 ? "image = 0 mod 4" : (raw(x) & 3) == 1 ? "image = 1 mod 4" : (raw(x) & 3) == 2 ? "image = 2 mod 4" : "image = 3 mod 4");
}

// value whose inverse, or whose number of halvings in the inversion loop, is unusual
static Fp genInv(Src& s)
{
	const Z& p = ref::C.p;
	Z r;
	switch (s.below(5)) {
	case 0: return genFpNz(s);
	case 1: r = ref::pow2((unsigned)s.below(254)); break;
	case 2: r = p / zu(1 + s.below(1 << 20)) + zi((int64_t)s.below(3) - 1); break;
	case 3: r = p - ref::pow2((unsigned)s.below(253)); break;
	default: { // continued fraction with chosen quotients
		Z a = 1, b = 0;
		while (mpz_sizeinbase(a.get_mpz_t(), 2) < 250) {
			Z q = s.chance(1, 4) ? genBits(s, 1 + s.below(200)) : zu(1 + s.below(3));
			Z t = q * a + b;
			if (t >= p) break;
			b = a;
			a = t;
			if (s.chance(1, 60)) break;
		}
		r = a;
	}
	}
	r = ref::mod(s.flip() ? r : Z(-r));
	if (r == 0) r = 1;
	return s.flip() ? fromRaw(r) : fpOf(r);
}

PT_TEST(inverse, 25000, 1500000)
{
	Fp x = genInv(s), z;
	NOTE_F(c, x);
	c.nontrivial(!trivial(x));
	const ref::F1 X = f1(x), IX = X.inv();
	Fp::inv(z, x);
	expectEq(z, IX, "inv");
	Fp one = z * x;
	expectEq(one, ref::F1(1), "inv(x) * x");
	z = x;
	z.inverse();
	expectEq(z, IX, "inverse");
	Fp y = genFp(s);
	const ref::F1 Y = f1(y);
	z = y / x;
	expectEq(z, Y * IX, "operator/");
	z = y;
	z /= x;
	expectEq(z, Y * IX, "operator/=");
	(void)one;
}

PT_TEST(fromInt, 20000, 300000)
{
	int64_t w = (int64_t)genWord(s);
	int v;
	switch (s.below(6)) {
	case 0: v = INT_MIN + (int)s.below(3); break;
	case 1: v = INT_MAX - (int)s.below(3); break;
	case 2: v = (int)s.below(8) - 4; break;
	default: v = (int)w; break;
	}
	PT_NOTE(c, v);
	c.nontrivial(v != 0 && v != 1);
	const ref::F1 V(zi(v));
	Fp a(v);
	expectEq(a, V, "Fp(int)");
	Fp b;
	b.set(v);
	expectEq(b, V, "set(int)");
	Fp d = genFp(s);
	d = v;
	expectEq(d, V, "operator=(int)");
}

PT_TEST(fromBig, 15000, 500000)
{
	const Z v = genBelow(s, ref::C.p);
	NOTE_Z(c, v);
	c.nontrivial(v > 1);
	const ref::F1 V(v);
	const Vuint w = vuintOf(v);
	Fp a(w), b;
	expectEq(a, V, "Fp(Vuint)");
	b.set(w);
	expectEq(b, V, "set(Vuint)");
	const std::string dec = v.get_str(10), hx = "0x" + v.get_str(16);
	const std::string& str = s.flip() ? dec : hx;
	Fp d(str), e;
	expectEq(d, V, "Fp(string)");
	e.set(str);
	expectEq(e, V, "set(string)");
	PT_CHECK(toZ(a.get()) == v, "get() = " << hex(toZ(a.get())));
	PT_CHECK(a.toString() == dec, "toString() = " << a.toString());
	PT_CHECK(a.toString(16) == hx, "toString(16) = " << a.toString(16));
}

// a long computation: value kept through many operations on the same few objects
PT_TEST(program, 400, 20000)
{
	const int n = 4;
	Fp x[n];
	ref::F1 X[n];
	for (int i = 0; i < n; i++) {
		x[i] = genFp(s);
		X[i] = f1(x[i]);
	}
	static const ref::F1 i2(ref::invmod(2)), i4(ref::invmod(4));
	const size_t len = s.range(1, 80);
	for (size_t k = 0; k < len; k++) {
		size_t d = s.below(n), a = s.below(n), b = s.below(n);
		size_t op = s.below(10);
		if (c.verbose) {
			std::ostringstream os;
			os << "op" << op << " x" << d << " <- x" << a << ", x" << b;
			c.say(os.str());
		}
		switch (op) {
		case 0: Fp::add(x[d], x[a], x[b]); X[d] = X[a] + X[b]; break;
		case 1: Fp::sub(x[d], x[a], x[b]); X[d] = X[a] - X[b]; break;
		case 2: Fp::mul(x[d], x[a], x[b]); X[d] = X[a] * X[b]; break;
		case 3: Fp::neg(x[d], x[a]); X[d] = -X[a]; break;
		case 4: Fp::square(x[d], x[a]); X[d] = X[a] * X[a]; break;
		case 5: Fp::divBy2(x[d], x[a]); X[d] = X[a] * i2; break;
		case 6: Fp::divBy4(x[d], x[a]); X[d] = X[a] * i4; break;
		case 7: if (!X[a].isZero()) { X[d] = X[a].inv(); Fp::inv(x[d], x[a]); } break;
		case 8: x[d] = x[a] * x[b] - x[d]; X[d] = X[a] * X[b] - X[d]; break;
		default: x[d] += x[a]; X[d] = X[d] + X[a]; break;
		}
		expectEq(x[d], X[d], "program step");
	}
	c.nontrivial(len >= 4);
}
