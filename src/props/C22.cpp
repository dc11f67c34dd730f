// Signed big integers
#include "wordinit.h"

static Vsint vsint(Src& s, const Z& x)
{
	// zero of either sign, magnitudes over used storage
	Vsint r(vuintOf(abs(x)));
	if (x < 0 || (x == 0 && s.flip())) r = -r;
	return r;
}
static Z genS(Src& s, size_t bits)
{
	const Z x = s.chance(1, 6) ? zu(s.below(4)) : genUint(s, bits);
	return s.flip() ? Z(-x) : x;
}
static Z fdiv(const Z& x, const Z& y) { Z r; mpz_fdiv_q(r.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t()); return r; }
static Z fmod_(const Z& x, const Z& y) { Z r; mpz_fdiv_r(r.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t()); return r; }

static void expectS(const Vsint& got, const Z& want, const char *what)
{
	if (toZ(got) != want) pt::fail(std::string(what) + ": got " + hex(toZ(got)) + ", expected " + hex(want));
	expectU(got.get(), abs(want), what);
	PT_CHECK(got.isZero() == (want == 0) && got.isNegative() == (want < 0), what << ": isZero, isNegative");
	PT_CHECK((got == Vsint(0)) == (want == 0) && (got < Vsint(0)) == (want < 0) && (got > Vsint(0)) == (want > 0), what << ": compared with zero");
}

PT_TEST(arithmetic, 150000, 5000000)
{
	const Z X = genS(s, kBits - 1);
	Z Y = genS(s, kBits - 1);
	switch (s.below(6)) {
	case 0: Y = X; break;
	case 1: Y = -X; break;
	case 2: Y = -X + zi((int64_t)s.below(5) - 2); break;
	case 3: Y = X + zi((int64_t)s.below(5) - 2); break;
	default: break;
	}
	NOTE_Z(c, X);
	NOTE_Z(c, Y);
	c.nontrivial(X != 0 && Y != 0);
	const Vsint x = vsint(s, X), y = vsint(s, Y);
	Vsint z = vsint(s, genS(s, 300));
	if (fits(Z(X + Y))) {
		Vsint::add(z, x, y);
		expectS(z, X + Y, "add");
		expectS(x + y, X + Y, "+");
		z = x;
		z += y;
		expectS(z, X + Y, "+=");
	}
	if (fits(Z(X - Y))) {
		Vsint::sub(z, x, y);
		expectS(z, X - Y, "sub");
		expectS(x - y, X - Y, "-");
		z = x;
		z -= y;
		expectS(z, X - Y, "-=");
	}
	if (fits(Z(X * Y))) {
		Vsint::mul(z, x, y);
		expectS(z, X * Y, "mul");
		expectS(x * y, X * Y, "*");
		z = x;
		z *= y;
		expectS(z, X * Y, "*=");
	}
	// in place: over either operand, or with both operands the same object
	{
		Vsint a = x, b = y;
		Vsint &d = s.flip() ? a : b;
		const size_t op = s.below(3);
		PT_NOTE(c, op);
		Z W = op == 0 ? Z(X + Y) : op == 1 ? Z(X - Y) : Z(X * Y);
		if (fits(W)) {
			(op == 0 ? Vsint::add : op == 1 ? Vsint::sub : Vsint::mul)(d, a, b);
			expectS(d, W, "in place");
			expectS(&d == &a ? b : a, &d == &a ? Y : X, "the other operand");
		}
		W = op == 0 ? Z(X + X) : op == 1 ? Z(0) : Z(X * X);
		if (fits(W)) {
			Vsint e = x, f = x;
			(op == 0 ? Vsint::add : op == 1 ? Vsint::sub : Vsint::mul)(e, e, e);
			expectS(e, W, "all three the same");
			(op == 0 ? Vsint::add : op == 1 ? Vsint::sub : Vsint::mul)(z, f, f);
			expectS(z, W, "both operands the same");
			if (op == 0) f += f; else if (op == 1) f -= f; else f *= f;
			expectS(f, W, "assigning form with itself");
		}
		Vsint::neg(a = x, a);
		expectS(a, -X, "neg in place");
	}
	Vsint::neg(z, x);
	expectS(z, -X, "neg");
	expectS(-x, -X, "unary -");
	expectU(x.abs(), abs(X), "abs");
	Vuint u = vuintOf(5);
	Vsint::absolute(u, x);
	expectU(u, abs(X), "absolute");
	expectU(x.get(), abs(X), "get");
	expectS(x, X, "operand");
	expectS(y, Y, "operand");
}

PT_TEST(products, 60000, 2000000)
{
	const size_t bits = 1 + (size_t)s.below(kBits - 1);
	const Z X = genS(s, bits), Y = genS(s, kBits - bits);
	NOTE_Z(c, X);
	NOTE_Z(c, Y);
	c.nontrivial(X != 0 && Y != 0);
	if (fits(Z(X * Y))) expectS(vsint(s, X) * vsint(s, Y), X * Y, "*");
	const int i = (int)(uint32_t)genWord(s);
	if (fits(Z(X * i))) {
		expectS(i * vsint(s, X), X * i, "int *");
		expectS(vsint(s, X) * i, X * i, "* int");
	}
	if (fits(Z(X + i)) && fits(Z(X - i)) && fits(Z(i - X))) {
		expectS(vsint(s, X) + i, X + i, "+ int");
		expectS(vsint(s, X) - i, X - i, "- int");
		expectS(i - vsint(s, X), i - X, "int -");
		Vsint t = vsint(s, X);
		t += i;
		expectS(t, X + i, "+= int");
	}
}

PT_TEST(compare, 60000, 2000000)
{
	const Z X = genS(s, kBits);
	Z Y = genS(s, kBits);
	switch (s.below(5)) {
	case 0: Y = X; break;
	case 1: Y = -X; break;
	case 2: Y = X + zi((int64_t)s.below(3) - 1); if (!fits(Y)) Y = X; break;
	default: break;
	}
	NOTE_Z(c, X);
	NOTE_Z(c, Y);
	c.nontrivial(X != 0 && Y != 0);
	const Vsint x = vsint(s, X), y = vsint(s, Y);
	PT_CHECK((x == y) == (X == Y) && (x != y) == (X != Y), "equality");
	PT_CHECK((x < y) == (X < Y) && (x > y) == (X > Y) && (x <= y) == (X <= Y) && (x >= y) == (X >= Y), "order");
	const int r = Vsint::compare(x, y);
	PT_CHECK((r > 0) == (X > Y) && (r < 0) == (X < Y), "compare");
}

PT_TEST(divide, 150000, 5000000)
{
	Z Y = genDivisor(s, kBits - 1), X = genDividend(s, Y, kBits - 1);
	if (s.chance(1, 6)) X = zu(s.below(30)), Y = zu(1 + s.below(12));
	if (s.flip()) X = -X;
	if (s.flip()) Y = -Y;
	NOTE_Z(c, X);
	NOTE_Z(c, Y);
	c.nontrivial(X != 0 && abs(Y) > 1);
	c.cls(X < 0 ? Y < 0 ? "- / -" : "- / +" : Y < 0 ? "+ / -" : "+ / +");
	const Vsint x = vsint(s, X), y = vsint(s, Y);
	const Z Q = fdiv(X, Y), R = fmod_(X, Y);
	Vsint q = vsint(s, genS(s, 300)), r = vsint(s, genS(s, 300));
	PT_CHECK(Vsint::div(&q, r, x, y), "div failed");
	expectS(q, Q, "quotient");
	expectS(r, R, "remainder");
	r = vsint(s, genS(s, 300));
	PT_CHECK(Vsint::div(0, r, x, y), "div failed");
	expectS(r, R, "remainder alone");
	expectS(x / y, Q, "/");
	expectS(x % y, R, "%");
	Vsint z = x;
	z /= y;
	expectS(z, Q, "/=");
	z = x;
	z %= y;
	expectS(z, R, "%=");
	if (fits(Z(Q * Y))) expectS(q * y + r, X, "q y + r");
	// the quotient and the remainder over the operands, in every arrangement
	{
		Vsint a = x, b = y, t = vsint(s, genS(s, 300));
		const size_t how = s.below(6);
		PT_NOTE(c, how);
		switch (how) {
		case 0: Vsint::div(&a, t, a, b); expectS(a, Q, "quotient over the dividend"); expectS(t, R, "its remainder"); expectS(b, Y, "operand"); break;
		case 1: Vsint::div(&b, t, a, b); expectS(b, Q, "quotient over the divisor"); expectS(t, R, "its remainder"); expectS(a, X, "operand"); break;
		case 2: Vsint::div(&t, a, a, b); expectS(a, R, "remainder over the dividend"); expectS(t, Q, "its quotient"); expectS(b, Y, "operand"); break;
		case 3: Vsint::div(&t, b, a, b); expectS(b, R, "remainder over the divisor"); expectS(t, Q, "its quotient"); expectS(a, X, "operand"); break;
		case 4: Vsint::div(&a, b, a, b); expectS(a, Q, "quotient over the dividend"); expectS(b, R, "remainder over the divisor"); break;
		case 5: Vsint::div(&b, a, a, b); expectS(b, Q, "quotient over the divisor"); expectS(a, R, "remainder over the dividend"); break;
		}
	}
	{
		// a number divided by itself
		Vsint a = y, t = vsint(s, genS(s, 300));
		if (s.flip()) { Vsint::div(&t, a, a, a); expectS(t, 1, "y / y"); expectS(a, 0, "y % y over y"); }
		else { Vsint::div(&a, t, a, a); expectS(a, 1, "y / y over y"); expectS(t, 0, "y % y"); }
	}
	expectS(x, X, "operand");
	expectS(y, Y, "operand");
	PT_CHECK(!Vsint::div(&q, r, x, Vsint(0)), "division by zero accepted");
}

PT_TEST(shifts, 60000, 2000000)
{
	const Z X = genS(s, 1 + s.below(kBits - 1));
	const size_t len = X == 0 ? 64 : mpz_sizeinbase(X.get_mpz_t(), 2), n = (size_t)s.below(kBits - len + 1), m = (size_t)s.below(kBits + 70);
	NOTE_Z(c, X);
	PT_NOTE(c, n);
	PT_NOTE(c, m);
	c.nontrivial(X != 0 && n);
	Vsint x = vsint(s, X), z = vsint(s, genS(s, 300));
	Vsint::shl(z, x, n);
	expectS(z, X << n, "shl");
	expectS(x << n, X << n, "<<");
	z = x;
	z <<= n;
	expectS(z, X << n, "<<=");
	if (X >= 0) {
		z = vsint(s, genS(s, 300));
		Vsint::shr(z, x, m);
		expectS(z, X >> m, "shr");
		expectS(x >> m, X >> m, ">>");
		z = x;
		z >>= m;
		expectS(z, X >> m, ">>=");
	}
}

static const char *const kAssign[] = { "set(uint64)", "set(int64)", "= int", "set(Vuint)", "= Vuint", "set(words)", "set(string)", "clear", "= Vsint" };
// any assignment replaces magnitude and sign, whatever was there before
static Z assign(Src& s, Case& c, Vsint& v)
{
	const size_t k = s.below(9);
	c.cls(kAssign[k]);
	if (c.verbose) c.say(kAssign[k]);
	u64 w = genWord(s);
	switch (k) {
	case 0: v.set((u64)w); return zu(w);
	case 1: v.set((int64_t)w); return zi((int64_t)w);
	case 2: { int i = (int)(uint32_t)w; if (s.chance(1, 4)) i = s.flip() ? (-2147483647 - 1) : 2147483647; v = i; return Z(i); }
	case 3: { Z x = genUint(s, kBits); v.set(vuintOf(x)); return x; }
	case 4: { Z x = genUint(s, kBits); v = vuintOf(x); return x; }
	case 5: { u64 t[3] = { w, genWord(s), 1 }; v.set(t, 3); return zFromWords(t, 3); }
	case 6: { Z x = genS(s, kBits); v.set(s.flip() ? x.get_str(10) : (x < 0 ? "-0x" : "0x") + Z(abs(x)).get_str(16)); return x; }
	case 7: v.clear(); return 0;
	default: { Z x = genS(s, kBits); v = vsint(s, x); return x; }
	}
}

PT_TEST(history_, 40000, 1500000)
{
	const size_t n = 3;
	Vsint x[n];
	Z X[n];
	for (size_t i = 0; i < n; i++) {
		X[i] = genS(s, 200);
		x[i] = vsint(s, X[i]);
		NOTE_Z(c, X[i]);
	}
	const size_t len = s.range(1, 24);
	for (size_t k = 0; k < len; k++) {
		const size_t d = s.below(n), a = s.below(n), b = s.below(n), o = s.below(10);
		if (c.verbose) { std::ostringstream os; os << "x" << d << " <- op" << o << " x" << a << " x" << b; c.say(os.str()); }
		Z v;
		switch (o) {
		case 0: v = X[a] + X[b]; if (!fits(v)) continue; Vsint::add(x[d], x[a], x[b]); break;
		case 1: v = X[a] - X[b]; if (!fits(v)) continue; Vsint::sub(x[d], x[a], x[b]); break;
		case 2: v = X[a] * X[b]; if (!fits(v)) continue; Vsint::mul(x[d], x[a], x[b]); break;
		case 3: if (X[b] == 0) continue; v = fdiv(X[a], X[b]); {
			// the remainder in a variable of its own, or in another of the history's
			const size_t e = s.below(n + 1);
			Vsint t = vsint(s, genS(s, 200)), &r = e == n || e == d ? t : x[e];
			const Z R = fmod_(X[a], X[b]);
			Vsint::div(&x[d], r, x[a], x[b]);
			expectS(r, R, "remainder in a history");
			if (&r != &t) X[e] = R;
			break;
		}
		case 4: if (X[b] == 0) continue; v = fmod_(X[a], X[b]); {
			Vsint q = vsint(s, genS(s, 200));
			const bool both = s.flip();
			const Z Q = fdiv(X[a], X[b]);
			Vsint::div(both ? &q : 0, x[d], x[a], x[b]);
			if (both) expectS(q, Q, "quotient in a history");
			break;
		}
		case 5: v = -X[a]; Vsint::neg(x[d], x[a]); break;
		case 6: if (X[a] < 0) continue; v = X[a] >> 9; Vsint::shr(x[d], x[a], 9); break;
		case 7: v = X[a] << 9; if (!fits(v)) continue; Vsint::shl(x[d], x[a], 9); break;
		case 8: v = assign(s, c, x[d]); break;
		default: v = X[a]; x[d] = x[a]; break;
		}
		X[d] = v;
		expectS(x[d], v, "operation in a history");
		PT_CHECK(x[d].toString() == v.get_str(10), "printed as " << x[d].toString());
	}
	for (size_t i = 0; i < n; i++) {
		expectS(x[i], X[i], "value after the history");
		for (size_t j = 0; j < n; j++) PT_CHECK((x[i] == x[j]) == (X[i] == X[j]) && (x[i] < x[j]) == (X[i] < X[j]), "comparison");
	}
	c.nontrivial(len >= 3);
}
