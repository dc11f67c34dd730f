// Lazily reduced and double-width arithmetic.
#include "dbl.h"

static Z genRaw256(Src& s, const Z& n) { return s.chance(1, 3) ? ref::modn(genBits(s, 256), n) : genBelow(s, n); }

PT_TEST(noCarry, 60000, 3000000)
{
	const Z x = genRaw256(s, ref::C.R);
	Z y = ref::C.R - x == 0 ? Z(0) : genRaw256(s, ref::C.R - x);
	if (s.chance(1, 4)) y = ref::C.R - 1 - x;
	NOTE_Z(c, x);
	NOTE_Z(c, y);
	c.nontrivial(x > 1 && y > 1);
	Fp X = fromRaw(x), Y = fromRaw(y), W;
	Fp::addNC(W, X, Y);
	PT_CHECK(raw(W) == x + y, "addNC = " << hex(raw(W)));
	Fp V;
	Fp::subNC(V, W, Y);
	PT_CHECK(raw(V) == x, "subNC = " << hex(raw(V)));
	Fp::shr1(V, W);
	PT_CHECK(raw(V) == Z(x + y) >> 1, "shr1 = " << hex(raw(V)));
	Fp::shr2(V, W);
	PT_CHECK(raw(V) == Z(x + y) >> 2, "shr2 = " << hex(raw(V)));
	PT_CHECK(raw(X) == x && raw(Y) == y && raw(W) == x + y, "an operand changed");
}

// small multiples reduced in one step
PT_TEST(smallMultiples, 60000, 3000000)
{
	const Z& p = ref::C.p;
	Z top = 6 * p + 1;
	if (top > ref::C.R) top = 5 * p + 1; // the largest use is 5 (p - 1)
	Z z = genBelow(s, top);
	if (s.chance(1, 3)) z = ref::modn(Z(p * zu(s.below(7)) + zi((int64_t)s.below(9) - 4)), top);
	if (s.chance(1, 4)) z = ref::modn(Z((zu(s.below(8)) << 253) + zi((int64_t)s.below(9) - 4)), top);
	NOTE_Z(c, z);
	c.nontrivial(z >= p);
	Fp t = fromRaw(z);
	Fp::fast_modp(t);
	PT_CHECK(raw(t) == ref::mod(z), "fast_modp = " << hex(raw(t)));
	Fp x, y;
	genPair(s, x, y);
	if (s.chance(1, 3)) { x = genCorner(s); y = genCorner(s); }
	NOTE_F(c, x);
	NOTE_F(c, y);
	const Z X = raw(x), Y = raw(y);
	t = x;
	Fp::_3z_add_2xC(t, y);
	// despite its name: (z + x), doubled, + x
	PT_CHECK(raw(t) == ref::mod(2 * X + 3 * Y), "_3z_add_2xC = " << hex(raw(t)));
	t = x;
	Fp::_2z_add_3x(t, y);
	PT_CHECK(raw(t) == ref::mod(2 * X + 3 * Y), "2z + 3x = " << hex(raw(t)));
	int n = (int)s.below(7);
	PT_CHECK(raw(Fp::getDirectP(n)) == ref::modn(Z(p * n), ref::C.R), "getDirectP(" << n << ")");
}

PT_TEST(dblArithmetic, 60000, 3000000)
{
	const Z n = pN();
	const Z x = genWide(s, n), y = s.chance(2, 3) ? genWideNear(s, x, n) : genWide(s, n);
	NOTE_Z(c, x);
	NOTE_Z(c, y);
	c.nontrivial(x > 1 && y > 1);
	const FpDbl X = dblOf(x), Y = dblOf(y);
	FpDbl W;
	FpDbl::add(W, X, Y);
	PT_CHECK(raw(W) == modpN(x + y), "add = " << rawStr(W));
	FpDbl::sub(W, X, Y);
	PT_CHECK(raw(W) == modpN(x - y), "sub = " << rawStr(W));
	FpDbl::neg(W, X);
	PT_CHECK(raw(W) == modpN(-x), "neg = " << rawStr(W));
	PT_CHECK(raw(X + Y) == modpN(x + y) && raw(X - Y) == modpN(x - y) && raw(-X) == modpN(-x), "operators");
	W = X;
	W += Y;
	PT_CHECK(raw(W) == modpN(x + y), "+= gives " << rawStr(W));
	W -= Y;
	PT_CHECK(raw(W) == x, "-= gives " << rawStr(W));
	PT_CHECK((X == Y) == (x == y) && (X != Y) == (x != y) && (X < Y) == (x < y) && (X > Y) == (x > y) && (X <= Y) == (x <= y), "comparison");
	Fp r;
	FpDbl::mod(r, X);
	PT_CHECK(raw(r) == redc(x), "mod = " << hex(raw(r)));
	// without reduction
	Z u = genWide(s, ref::pow2(512)), v = u == 0 ? Z(0) : genWide(s, ref::pow2(512) - u);
	if (s.chance(1, 4)) v = ref::pow2(512) - 1 - u;
	NOTE_Z(c, u);
	NOTE_Z(c, v);
	FpDbl U = dblOf(u), V = dblOf(v);
	FpDbl::addNC(W, U, V);
	PT_CHECK(raw(W) == u + v, "addNC = " << rawStr(W));
	FpDbl::subNC(W, W, V);
	PT_CHECK(raw(W) == u, "subNC = " << rawStr(W));
	PT_CHECK(raw(X) == x && raw(Y) == y && raw(U) == u && raw(V) == v, "an operand changed");
}

PT_TEST(dblProduct, 60000, 3000000)
{
	// any 256-bit operands: sums of several elements are multiplied
	const Z x = genRaw256(s, ref::C.R);
	Z y = genRaw256(s, ref::C.R);
	switch (s.below(6)) {
	case 0: y = x; break;
	case 1: y = ref::C.R - 1 - x; break;
	case 2: y = ref::C.R - 1; break;
	}
	NOTE_Z(c, x);
	NOTE_Z(c, y);
	c.nontrivial(x > 1 && y > 1);
	FpDbl W;
	const Fp X = fromRaw(x), Y = fromRaw(y);
	FpDbl::mul(W, X, Y);
	PT_CHECK(raw(W) == x * y, "mul = " << rawStr(W));
	if (x * y < pN()) {
		Fp r;
		FpDbl::mod(r, W);
		PT_CHECK(raw(r) == redc(x * y), "mod(mul) = " << hex(raw(r)));
	}
	PT_CHECK(raw(X) == x && raw(Y) == y, "an operand changed");
}

// reduction of chosen residues: results next to 0 and p, every carry pattern of the last subtraction
PT_TEST(reduction, 60000, 3000000)
{
	const Z& p = ref::C.p;
	const Z want = genBelow(s, p);
	const Z k = genBelow(s, ref::C.R);
	// all x = want * R + k p (mod pN)
	const Z x = modpN(want * ref::C.R + k * p);
	NOTE_Z(c, want);
	NOTE_Z(c, x);
	c.nontrivial(k > 1);
	Fp r;
	FpDbl::mod(r, dblOf(x));
	PT_CHECK(raw(r) == want, "mod = " << hex(raw(r)));
}

static void modOf(Fp2& z, const Fp2Dbl& x) { Fp2Dbl::mod(z, x); }
static Fp2 genCorner2(Src& s) { Fp a = genCorner(s); return Fp2(a, genCorner(s)); }

PT_TEST(fp2Product, 60000, 3000000)
{
	Fp2 x, y;
	genPair(s, x, y);
	if (s.chance(1, 3)) { x = genCorner2(s); y = genCorner2(s); }
	if (c.verbose) { c.say("x = " + rawStr(x)); c.say("y = " + rawStr(y)); }
	const ref::F2 X = f2(x), Y = f2(y);
	c.nontrivial(!X.isZero() && !Y.isZero());
	Fp2Dbl d;
	Fp2 r;
	Fp2Dbl::mulOpt2(d, x, y);
	PT_CHECK(canon(d), "mulOpt2 too large: " << rawStr(d));
	modOf(r, d);
	expectEq(r, X * Y, "mod(mulOpt2)");
	Fp2Dbl::mulOpt1(d, x, y);
	PT_CHECK(canon(d), "mulOpt1 too large: " << rawStr(d));
	modOf(r, d);
	expectEq(r, X * Y, "mod(mulOpt1)");
	Fp2Dbl::square(d, x);
	PT_CHECK(canon(d), "square too large: " << rawStr(d));
	modOf(r, d);
	expectEq(r, X * X, "mod(square)");
	// coefficients below 2p, as sums without reduction make them
	Fp2 u, v;
	genPair(s, u, v);
	if (s.chance(1, 2)) { u = genCorner2(s); v = genCorner2(s); }
	Fp2 xu, yv;
	Fp2::addNC(xu, x, u);
	Fp2::addNC(yv, y, v);
	PT_CHECK(raw(xu.a_) == raw(x.a_) + raw(u.a_) && raw(xu.b_) == raw(x.b_) + raw(u.b_), "addNC");
	Fp2Dbl::mulOpt2(d, xu, yv);
	const ref::F2 want = (X + f2(u)) * (Y + f2(v));
	PT_CHECK(canon(d.a_), "mulOpt2 of sums: first part too large: " << rawStr(d));
	PT_CHECK(f2d(d) == want, "mulOpt2 of sums gives " << f2d(d).str());
	Fp2::subNC(xu, xu, u);
	PT_CHECK(raw(xu.a_) == raw(x.a_) && raw(xu.b_) == raw(x.b_), "subNC");
	// subOpt1 : difference of products
	FpDbl p1, p2, q;
	FpDbl::mul(p1, x.a_, u.a_);
	FpDbl::mul(p2, x.b_, u.b_);
	FpDbl::subOpt1(q, p1, p2);
	PT_CHECK(canon(q), "subOpt1 too large: " << rawStr(q));
	PT_CHECK(ref::mod(raw(q)) == ref::mod(raw(p1) - raw(p2)), "subOpt1 = " << rawStr(q));
}

PT_TEST(fp2Dbl, 40000, 2000000)
{
	const Fp2Dbl x = genFp2Dbl(s);
	const Fp2Dbl y = s.flip() ? genFp2Dbl(s) : Fp2Dbl(dblOf(genWideNear(s, raw(x.a_), pN())), dblOf(genWideNear(s, raw(x.b_), pN())));
	if (c.verbose) { c.say("x = " + rawStr(x)); c.say("y = " + rawStr(y)); }
	const Z xa = raw(x.a_), xb = raw(x.b_), ya = raw(y.a_), yb = raw(y.b_);
	c.nontrivial(xa > 1 && xb > 1);
	Fp2Dbl d;
	Fp2Dbl::add(d, x, y);
	PT_CHECK(raw(d.a_) == modpN(xa + ya) && raw(d.b_) == modpN(xb + yb), "add = " << rawStr(d));
	Fp2Dbl::sub(d, x, y);
	PT_CHECK(raw(d.a_) == modpN(xa - ya) && raw(d.b_) == modpN(xb - yb), "sub = " << rawStr(d));
	Fp2Dbl::neg(d, x);
	PT_CHECK(raw(d.a_) == modpN(-xa) && raw(d.b_) == modpN(-xb), "neg = " << rawStr(d));
	Fp2Dbl::mul_xi(d, x);
	PT_CHECK(canon(d), "mul_xi too large: " << rawStr(d));
	PT_CHECK(f2d(d) == f2d(x) * ref::xi(), "mul_xi = " << rawStr(d));
	Fp2 r;
	Fp2Dbl::mod(r, x);
	expectEq(r, f2d(x), "mod");
	Fp2Dbl::addNC(d, x, y);
	PT_CHECK(raw(d.a_) == xa + ya && raw(d.b_) == xb + yb, "addNC = " << rawStr(d));
	Fp2Dbl::subNC(d, d, y);
	PT_CHECK(raw(d.a_) == xa && raw(d.b_) == xb, "subNC = " << rawStr(d));
	PT_CHECK(d == x && (x == y) == (xa == ya && xb == yb) && (x != y) == !(x == y), "comparison");
	PT_CHECK(raw(x.a_) == xa && raw(x.b_) == xb && raw(y.a_) == ya && raw(y.b_) == yb, "an operand changed");
}

// deferred reduction: any history of wide operations, reduced at the end
PT_TEST(deferred, 3000, 200000)
{
	const size_t n = 3;
	Fp2Dbl x[n];
	ref::F2 X[n];
	for (size_t i = 0; i < n; i++) {
		Fp2 a, b;
		genPair(s, a, b);
		Fp2Dbl::mulOpt2(x[i], a, b);
		X[i] = f2(a) * f2(b);
		if (c.verbose) c.say("x = " + rawStr(a) + " * " + rawStr(b));
	}
	size_t len = s.range(1, 30);
	for (size_t k = 0; k < len; k++) {
		size_t d = s.below(n), a = s.below(n), b = s.below(n), o = s.below(8);
		if (c.verbose) { std::ostringstream os; os << "x" << d << " <- op" << o << " x" << a << " x" << b; c.say(os.str()); }
		switch (o) {
		case 0: Fp2Dbl::add(x[d], x[a], x[b]); X[d] = X[a] + X[b]; break;
		case 1: Fp2Dbl::sub(x[d], x[a], x[b]); X[d] = X[a] - X[b]; break;
		case 2: Fp2Dbl::neg(x[d], x[a]); X[d] = -X[a]; break;
		case 3: if (d != a) { Fp2Dbl::mul_xi(x[d], x[a]); X[d] = X[a] * ref::xi(); } break;
		case 4: { Fp2 t; Fp2Dbl::mod(t, x[a]); Fp2Dbl::square(x[d], t); X[d] = X[a] * X[a]; break; }
		case 5: { Fp2 t, u; Fp2Dbl::mod(t, x[a]); Fp2Dbl::mod(u, x[b]); Fp2Dbl::mulOpt2(x[d], t, u); X[d] = X[a] * X[b]; break; }
		case 6: if (d != a) { x[d] += x[a]; X[d] = X[d] + X[a]; } break;
		default: if (d != a) { x[d] -= x[a]; X[d] = X[d] - X[a]; } break;
		}
		PT_CHECK(canon(x[d]), "operation " << o << ": too large: " << rawStr(x[d]));
	}
	for (size_t i = 0; i < n; i++) {
		Fp2 r;
		Fp2Dbl::mod(r, x[i]);
		expectEq(r, X[i], "reduced at the end");
	}
	c.nontrivial(len >= 3);
}

PT_TEST(fp6Dbl, 6000, 400000)
{
	Fp6 x, y, u, v;
	genPair(s, x, y);
	genPair(s, u, v);
	if (c.verbose) { c.say("x = " + rawStr(x)); c.say("y = " + rawStr(y)); c.say("u = " + rawStr(u)); c.say("v = " + rawStr(v)); }
	const ref::F12 A = f6(x) * f6(y), B = f6(u) * f6(v);
	c.nontrivial(!A.isZero() && !B.isZero());
	Fp6Dbl d, e, f;
	Fp6 r;
	Fp6Dbl::mul(d, x, y);
	for (int i = 0; i < 6; i++) PT_CHECK(canon(((FpDbl*)&d)[i]), "product too large: coefficient " << i);
	Fp6Dbl::mod(r, d);
	expectEq(r, A, "mod(mul)");
	Fp6Dbl::mul(e, u, v);
	Fp6Dbl::add(f, d, e);
	Fp6Dbl::mod(r, f);
	expectEq(r, A + B, "mod(add)");
	Fp6Dbl::sub(f, d, e);
	Fp6Dbl::mod(r, f);
	expectEq(r, A - B, "mod(sub)");
	Fp6Dbl::neg(f, d);
	Fp6Dbl::mod(r, f);
	expectEq(r, -A, "mod(neg)");
	Fp6Dbl::addNC(f, d, e);
	Fp6Dbl::subNC(f, f, e);
	PT_CHECK(f == d, "addNC, subNC");
	Fp12Dbl D(d, e), E(e, d), F;
	Fp12 R;
	Fp12Dbl::add(F, D, E);
	Fp12Dbl::mod(R, F);
	PT_CHECK(f6(R.a_) == A + B && f6(R.b_) == A + B && canon(R), "Fp12Dbl::add");
	Fp12Dbl::sub(F, D, E);
	Fp12Dbl::mod(R, F);
	PT_CHECK(f6(R.a_) == A - B && f6(R.b_) == B - A && canon(R), "Fp12Dbl::sub");
	Fp12Dbl::neg(F, D);
	Fp12Dbl::mod(R, F);
	PT_CHECK(f6(R.a_) == -A && f6(R.b_) == -B && canon(R), "Fp12Dbl::neg");
}

#ifdef PT_INTERNAL
PT_TEST(portable, 20000, 1000000)
{
	Fp2 x, y;
	genPair(s, x, y);
	if (s.chance(1, 2)) { x = genCorner2(s); y = genCorner2(s); }
	if (c.verbose) { c.say("x = " + rawStr(x)); c.say("y = " + rawStr(y)); }
	const ref::F2 X = f2(x), Y = f2(y);
	c.nontrivial(!X.isZero() && !Y.isZero());
	Fp2Dbl d;
	Fp2 r;
	Fp2Dbl::mulOpt1C(d, x, y);
	modOf(r, d);
	expectEq(r, X * Y, "mulOpt1C");
	Fp2Dbl::mulOpt2C(d, x, y);
	Fp2Dbl::modC(r, d);
	expectEq(r, X * Y, "mulOpt2C");
	Fp2Dbl::squareC(d, x);
	modOf(r, d);
	expectEq(r, X * X, "squareC");
	Fp2Dbl a = genFp2Dbl(s), b = genFp2Dbl(s);
	Fp2Dbl::addC(d, a, b);
	PT_CHECK(raw(d.a_) == modpN(raw(a.a_) + raw(b.a_)) && raw(d.b_) == modpN(raw(a.b_) + raw(b.b_)), "addC");
	Fp2Dbl::subC(d, a, b);
	PT_CHECK(raw(d.a_) == modpN(raw(a.a_) - raw(b.a_)) && raw(d.b_) == modpN(raw(a.b_) - raw(b.b_)), "subC");
	Fp2Dbl::negC(d, a);
	PT_CHECK(raw(d.a_) == modpN(-raw(a.a_)) && raw(d.b_) == modpN(-raw(a.b_)), "negC");
	Fp2Dbl::mul_xiC(d, a);
	PT_CHECK(canon(d) && f2d(d) == f2d(a) * ref::xi(), "mul_xiC");
	Fp6 p6, q6;
	genPair(s, p6, q6);
	Fp6Dbl D;
	Fp6 r6;
	Fp6Dbl::mulC(D, p6, q6);
	Fp6Dbl::mod(r6, D);
	expectEq(r6, f6(p6) * f6(q6), "Fp6Dbl::mulC");
}
#endif
