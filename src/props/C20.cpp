// Unsigned big integers
#include "wordinit.h"
#include <unistd.h>
#include <sys/wait.h>

static void words(Src& s, Unit *x, size_t n, const Unit *near)
{
	for (size_t i = 0; i < n; i++) {
		switch (s.below(near ? 6 : 4)) {
		case 0: x[i] = 0; break;
		case 1: x[i] = ~(Unit)0; break;
		case 2: x[i] = genWord(s); break;
		case 3: x[i] = s.word(); break;
		case 4: x[i] = near[i]; break;
		default: x[i] = ~near[i] + s.below(2); break;
		}
	}
}

// the word-vector kernels, in place or not
PT_TEST(kernels, 100000, 4000000)
{
	typedef mie::local::PrimitiveFunction F;
	const size_t n = s.chance(1, 8) ? 1 + (size_t)s.below(40) : 1 + (size_t)s.below(10);
	Unit x[44], y[44], o[44];
	const Unit canary = 0x5aa55aa5deadbeefull;
	for (size_t i = 0; i < 44; i++) x[i] = y[i] = o[i] = canary;
	words(s, x, n, 0);
	words(s, y, n, x);
	const Z X = zFromWords(x, n), Y = zFromWords(y, n), B = ref::pow2((unsigned)(n * 64));
	const Unit w = genWord(s);
	NOTE_Z(c, X);
	NOTE_Z(c, Y);
	PT_NOTE(c, n);
	PT_NOTE(c, w);
	c.nontrivial(X > 1);
	const size_t op = s.below(7);
	static const char *const name[] = { "addN", "subN", "add1", "sub1", "mul1", "div1", "mod1" };
	c.cls(name[op]);
	size_t al = s.below(op < 2 ? 4 : 2);
	Unit *out = al == 0 ? o : al == 2 ? y : al == 3 && s.flip() ? o : x;
	PT_NOTE(c, al);
	bool carry = false, want = false;
	size_t on = n;
	Z r;
	switch (op) {
	case 0: if (al == 3) { r = X + X; carry = F::addN(out, x, x, n); want = r >= B; r %= B; break; }
		carry = F::addN(out, x, y, n); r = X + Y; want = r >= B; r %= B; break;
	case 1: if (al == 3) { r = 0; carry = F::subN(out, x, x, n); break; }
		carry = F::subN(out, x, y, n); r = X - Y; want = r < 0; if (want) r += B; break;
	case 2: carry = F::add1(out, x, n, w); r = X + zu(w); want = r >= B; r %= B; break;
	case 3: carry = F::sub1(out, x, n, w); r = X - zu(w); want = r < 0; if (want) r += B; break;
	case 4: F::mul1(out, x, n, w); r = X * zu(w); on = n + 1; break;
	case 5: case 6: {
		if (w == 0) return;
		const Unit rem = op == 5 ? F::div1(out, x, n, w) : F::mod1(x, n, w);
		PT_CHECK(zu(rem) == X % zu(w), name[op] << ": remainder " << rem);
		r = X / zu(w);
		if (op == 6) { PT_CHECK(zFromWords(x, n) == X, "operand changed"); return; }
		break;
	}
	}
	PT_CHECK(carry == want, name[op] << ": carry " << carry);
	PT_CHECK(zFromWords(out, on) == r, name[op] << ": got " << hex(zFromWords(out, on)) << ", expected " << hex(r));
	PT_CHECK(out[on] == canary && out[on + 1] == canary, name[op] << ": wrote beyond the result");
	if (out != x) PT_CHECK(zFromWords(x, n) == X, name[op] << ": first operand changed");
	if (out != y) PT_CHECK(zFromWords(y, n) == Y, name[op] << ": second operand changed");
}

PT_TEST(addSub, 100000, 4000000)
{
	Z X = genUint(s, kBits), Y = genUint(s, kBits);
	switch (s.below(5)) {
	case 0: Y = X; break;
	case 1: Y = abs(X + zi((int64_t)s.below(5) - 2)); break;
	case 2: Y = (ref::pow2((unsigned)(64 * s.range(1, kBits / 64))) - X) + zi((int64_t)s.below(3) - 1); break; // carry into the next word
	default: break;
	}
	Y = abs(Y);
	if (!fits(Y)) Y = 1;
	NOTE_Z(c, X);
	NOTE_Z(c, Y);
	c.nontrivial(X > 1 && Y > 1);
	const Vuint x = vuintOf(X), y = vuintOf(Y);
	const Unit w = genWord(s);
	PT_NOTE(c, w);
	Vuint z = vuintOf(genUint(s, kBits)); // used before
	if (fits(Z(X + Y))) {
		Vuint::add(z, x, y);
		expectU(z, X + Y, "add");
		expectU(x + y, X + Y, "+");
		z = x;
		z += y;
		expectU(z, X + Y, "+=");
	}
	if (fits(Z(X + zu(w)))) {
		Vuint::add(z, x, w);
		expectU(z, X + zu(w), "add word");
		z = x;
		z += w;
		expectU(z, X + zu(w), "+= word");
		z = x;
		z += (int)(w & 0x7fffffff);
		expectU(z, X + zu(w & 0x7fffffff), "+= int");
	}
	if (X >= Y) {
		Vuint::sub(z, x, y);
		expectU(z, X - Y, "sub");
		expectU(x - y, X - Y, "-");
		z = x;
		z -= y;
		expectU(z, X - Y, "-=");
	}
	if (X >= zu(w)) {
		z = x;
		z -= w;
		expectU(z, X - zu(w), "-= word");
	}
	// over either operand; with itself
	if (fits(Z(X + Y))) {
		Vuint a = x, b = y, &d = s.flip() ? a : b;
		Vuint::add(d, a, b);
		expectU(d, X + Y, "add in place");
		expectU(&d == &a ? b : a, &d == &a ? Y : X, "the other operand");
	}
	if (X >= Y) {
		Vuint a = x, b = y, &d = s.flip() ? a : b;
		Vuint::sub(d, a, b);
		expectU(d, X - Y, "sub in place");
		expectU(&d == &a ? b : a, &d == &a ? Y : X, "the other operand");
	}
	z = x;
	if (s.flip()) z -= z; else Vuint::sub(z, z, z);
	expectU(z, 0, "x - x");
	if (fits(Z(X + X))) {
		z = x;
		if (s.flip()) z += z; else Vuint::add(z, z, z);
		expectU(z, X + X, "x + x");
	}
	expectU(x, X, "operand");
	expectU(y, Y, "operand");
}

PT_TEST(compare, 60000, 2000000)
{
	Z X = genUint(s, kBits), Y = genUint(s, kBits);
	switch (s.below(5)) {
	case 0: Y = X; break;
	case 1: Y = abs(X + zi((int64_t)s.below(3) - 1)); break;
	case 2: Y = X; mpz_combit(Y.get_mpz_t(), s.below(kBits)); break;
	default: break;
	}
	if (!fits(Y)) Y = X;
	NOTE_Z(c, X);
	NOTE_Z(c, Y);
	c.nontrivial(X > 1 && Y > 1);
	const Vuint x = vuintOf(X), y = vuintOf(Y);
	PT_CHECK((x == y) == (X == Y) && (x != y) == (X != Y), "equality");
	PT_CHECK((x < y) == (X < Y) && (x > y) == (X > Y) && (x <= y) == (X <= Y) && (x >= y) == (X >= Y), "order");
	const int r = Vuint::compare(x, y);
	PT_CHECK((r > 0) == (X > Y) && (r < 0) == (X < Y), "compare");
	PT_CHECK(x.isZero() == (X == 0), "isZero");
	const u64 w = genWord(s);
	PT_CHECK((x == Vuint(w)) == (X == zu(w)) && (x < Vuint(w)) == (X < zu(w)), "comparison with a word");
}

PT_TEST(mul, 100000, 4000000)
{
	const size_t bits = 1 + (size_t)s.below(kBits - 1);
	const Z X = genBits(s, bits), Y = s.chance(1, 8) ? X : genBits(s, kBits - bits);
	NOTE_Z(c, X);
	NOTE_Z(c, Y);
	const Unit w = genWord(s);
	PT_NOTE(c, w);
	c.nontrivial(X > 1 && Y > 1);
	const Vuint x = vuintOf(X), y = vuintOf(Y);
	Vuint z = vuintOf(genUint(s, kBits));
	if (fits(Z(X * Y))) {
		Vuint::mul(z, x, y);
		expectU(z, X * Y, "mul");
		expectU(x * y, X * Y, "*");
		expectU(y * x, X * Y, "* exchanged");
		z = x;
		z *= y;
		expectU(z, X * Y, "*=");
		Vuint a = x, b = y, &d = s.flip() ? a : b;
		Vuint::mul(d, a, b);
		expectU(d, X * Y, "mul in place");
		expectU(&d == &a ? b : a, &d == &a ? Y : X, "the other operand");
	}
	if (fits(Z(X * X))) {
		z = x;
		z *= z;
		expectU(z, X * X, "square in place");
	}
	if (fits(Z(X * zu(w)))) {
		Vuint::mul1(z, x, w);
		expectU(z, X * zu(w), "mul1");
		z = x;
		z *= w;
		expectU(z, X * zu(w), "*= word");
	}
	expectU(x, X, "operand");
	expectU(y, Y, "operand");
}

PT_TEST(divide, 200000, 8000000)
{
	const Z Y = genDivisor(s, kBits), X = genDividend(s, Y, kBits);
	NOTE_Z(c, X);
	NOTE_Z(c, Y);
	c.nontrivial(X >= Y && Y > 1);
	if (mpz_size(Y.get_mpz_t()) > 1) c.cls("divisor of several words");
	const Vuint x = vuintOf(X), y = vuintOf(Y);
	Vuint q = vuintOf(genUint(s, kBits)), r = vuintOf(genUint(s, kBits));
	const Z Q = X / Y, R = X % Y;
	PT_CHECK(Vuint::div(&q, r, x, y), "div failed");
	expectU(q, Q, "quotient");
	expectU(r, R, "remainder");
	Vuint r2 = vuintOf(genUint(s, kBits));
	PT_CHECK(Vuint::div(0, r2, x, y), "div failed");
	expectU(r2, R, "remainder alone");
	expectU(x / y, Q, "/");
	expectU(x % y, R, "%");
	Vuint z = x;
	z /= y;
	expectU(z, Q, "/=");
	z = x;
	z %= y;
	expectU(z, R, "%=");
	expectU(x, X, "operand");
	expectU(y, Y, "operand");
	// the quotient and the remainder over the operands, in every arrangement
	{
		Vuint a = x, b = y, t = vuintOf(genUint(s, kBits));
		const size_t how = s.below(6);
		PT_NOTE(c, how);
		switch (how) {
		case 0: Vuint::div(&a, t, a, b); expectU(a, Q, "quotient over the dividend"); expectU(t, R, "its remainder"); expectU(b, Y, "operand"); break;
		case 1: Vuint::div(&b, t, a, b); expectU(b, Q, "quotient over the divisor"); expectU(t, R, "its remainder"); expectU(a, X, "operand"); break;
		case 2: Vuint::div(&t, a, a, b); expectU(a, R, "remainder over the dividend"); expectU(t, Q, "its quotient"); expectU(b, Y, "operand"); break;
		case 3: Vuint::div(&t, b, a, b); expectU(b, R, "remainder over the divisor"); expectU(t, Q, "its quotient"); expectU(a, X, "operand"); break;
		case 4: Vuint::div(&a, b, a, b); expectU(a, Q, "quotient over the dividend"); expectU(b, R, "remainder over the divisor"); break;
		case 5: Vuint::div(&b, a, a, b); expectU(b, Q, "quotient over the divisor"); expectU(a, R, "remainder over the dividend"); break;
		}
		a = y;
		if (s.flip()) { Vuint::div(&t, a, a, a); expectU(t, 1, "y / y"); expectU(a, 0, "y % y over y"); }
		else { Vuint::div(&a, t, a, a); expectU(a, 1, "y / y over y"); expectU(t, 0, "y % y"); }
	}
	// words
	const Unit w = zToLow(Y);
	if (w) {
		PT_CHECK(zu(Vuint::div1(&z, x, w)) == X % zu(w), "div1 remainder");
		expectU(z, X / zu(w), "div1");
		PT_CHECK(zu(Vuint::div1(0, x, w)) == X % zu(w), "div1 remainder alone");
		z = x;
		z /= w;
		expectU(z, X / zu(w), "/= word");
	}
	z = x;
	PT_CHECK(!Vuint::div(&q, z, x, Vuint(0)), "division by zero accepted");
}

// construction from words
PT_TEST(construct, 40000, 1000000)
{
	const size_t n = (size_t)s.below(kBits / 64 + 1);
	u64 w[kBits / 64 + 1];
	words(s, w, n, 0);
	if (s.flip()) for (size_t i = n; i-- > 0 && s.flip();) w[i] = 0; // leading zeros
	const Z X = n ? zFromWords(w, n) : Z(0);
	NOTE_Z(c, X);
	PT_NOTE(c, n);
	c.nontrivial(X > 1);
	expectU(Vuint(w, n), X, "from 64-bit words");
	Vuint z = vuintOf(genUint(s, kBits));
	z.set(w, n);
	expectU(z, X, "set 64-bit words");
	const size_t m = (size_t)s.below(2 * n + 1);
	uint32_t v[2 * (kBits / 64) + 2];
	memcpy(v, w, n * 8);
	const Z V = m ? Z(X & (ref::pow2((unsigned)(32 * m)) - 1)) : Z(0);
	expectU(Vuint(v, m), V, "from 32-bit words");
	z = vuintOf(genUint(s, kBits));
	z.set(v, m);
	expectU(z, V, "set 32-bit words");
	const u64 one = genWord(s);
	z.set(one);
	expectU(z, zu(one), "set word");
	expectU(Vuint(one), zu(one), "from word");
	z.clear();
	expectU(z, 0, "clear");
	const Vuint x(w, n);
	for (size_t i = 0; i < kBits / 64 + 3; i++) PT_CHECK(x.getAtWithCheck(i) == (i < n ? w[i] : 0), "word " << i);
	Vuint copy(x);
	z = copy;
	expectU(z, X, "copy");
	PT_CHECK(copy == x, "copies differ");
}

// long computations: the ring and division laws over a pool
PT_TEST(history_, 20000, 600000)
{
	const size_t n = 4;
	Vuint x[n];
	Z X[n];
	for (size_t i = 0; i < n; i++) {
		X[i] = genUint(s, kBits);
		x[i] = vuintOf(X[i]);
		NOTE_Z(c, X[i]);
	}
	const size_t len = s.range(1, 30);
	for (size_t k = 0; k < len; k++) {
		const size_t d = s.below(n), a = s.below(n), b = s.below(n), o = s.below(8);
		if (c.verbose) { std::ostringstream os; os << "x" << d << " <- op" << o << " x" << a << " x" << b; c.say(os.str()); }
		Z v;
		switch (o) {
		case 0: v = X[a] + X[b]; if (!fits(v)) continue; Vuint::add(x[d], x[a], x[b]); break;
		case 1: v = X[a] - X[b]; if (v < 0) continue; Vuint::sub(x[d], x[a], x[b]); break;
		case 2: v = X[a] * X[b]; if (!fits(v)) continue; Vuint::mul(x[d], x[a], x[b]); break;
		case 3: if (X[b] == 0) continue; v = X[a] / X[b]; {
			// the remainder in a variable of its own, or in another of the history's
			const size_t e = s.below(n + 1);
			Vuint t = vuintOf(genUint(s, kBits)), &r = e == n || e == d ? t : x[e];
			const Z R = X[a] % X[b];
			Vuint::div(&x[d], r, x[a], x[b]);
			expectU(r, R, "remainder in a history");
			if (&r != &t) X[e] = R;
			break;
		}
		case 4: if (X[b] == 0) continue; v = X[a] % X[b]; {
			Vuint q = vuintOf(genUint(s, kBits));
			const bool both = s.flip();
			const Z Q = X[a] / X[b];
			Vuint::div(both ? &q : 0, x[d], x[a], x[b]);
			if (both) expectU(q, Q, "quotient in a history");
			break;
		}
		case 5: v = X[a] >> 64; x[d] = x[a] / (Vuint(1) << 64); break;
		case 6: v = X[d] + zu(7); if (!fits(v)) continue; x[d] += 7; break;
		default: if (X[b] == 0) continue; v = X[d] % X[b]; x[d] %= x[b]; break;
		}
		X[d] = v;
		expectU(x[d], v, "operation in a history");
	}
	for (size_t i = 0; i < n; i++) {
		expectU(x[i], X[i], "value after the history");
		for (size_t j = 0; j < n; j++) PT_CHECK((x[i] == x[j]) == (X[i] == X[j]), "comparison");
	}
	c.nontrivial(len >= 3);
}

// a negative difference is refused, never returned
PT_TEST(refused, 40, 1000)
{
	Z Y = genUint(s, kBits) + 1, X = genBelow(s, Y);
	if (!fits(Y)) return;
	NOTE_Z(c, X);
	NOTE_Z(c, Y);
	c.nontrivial();
	const pid_t pid = fork();
	if (pid == 0) {
		bool ok = false;
		try {
			Vuint z, x = vuintOf(X), y = vuintOf(Y);
			Vuint::sub(z, x, y);
		} catch (std::exception&) {
			ok = true;
		}
		_exit(ok ? 7 : 0);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	PT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) != 0, "x - y with x < y returned");
}

// results at and beyond the capacity: exact if they fit, an exception if not, and the operands stay as they were
PT_TEST(capacity, 60000, 2000000)
{
	static const char *const name[] = { "add", "+=", "mul", "*=", "add word", "mul word", "shl", "<<=", "square" };
	const size_t op = s.below(sizeof(name) / sizeof(name[0]));
	c.cls(name[op]);
	const size_t xb = s.range(1, kBits);
	Z X, Y;
	Unit w = 0;
	size_t n = 0;
	switch (op) {
	case 0: case 1: // sums next to the limit
		X = s.flip() ? Z(ref::pow2((unsigned)kBits) - 1 - genUint(s, 70)) : genUint(s, kBits);
		Y = s.flip() ? Z(ref::pow2((unsigned)kBits) - X) : genUint(s, s.flip() ? 70 : kBits);
		if (Y != 0 && s.flip()) Y -= 1;
		if (!fits(Y)) Y -= 1;
		break;
	case 2: case 3: {
		X = genUint(s, xb) + 1;
		if (!fits(X)) X -= 1;
		Y = s.flip() ? Z(ref::pow2((unsigned)kBits) / X + zi((int64_t)s.below(3) - 1)) : genUint(s, kBits);
		if (Y < 0 || !fits(Y)) Y = 1;
		break;
	}
	case 4: X = ref::pow2((unsigned)kBits) - 1 - zu(s.flip() ? s.below(3) : s.word()); w = s.flip() ? (Unit)s.below(4) : s.word(); break;
	case 5: X = genUint(s, s.flip() ? kBits : kBits - 64); w = genWord(s); break;
	case 6: case 7: X = genUint(s, xb); n = s.flip() ? kBits - mpz_sizeinbase(X.get_mpz_t(), 2) + s.below(3) : (size_t)s.below(2 * kBits); break;
	default: X = genUint(s, xb); break;
	}
	if (s.flip()) std::swap(X, Y);
	if ((op == 4 || op == 5 || op >= 6) && X < Y) std::swap(X, Y);
	NOTE_Z(c, X);
	NOTE_Z(c, Y);
	PT_NOTE(c, w);
	PT_NOTE(c, n);
	const Vuint x = vuintOf(X), y = vuintOf(Y);
	Vuint z = vuintOf(genUint(s, 64));
	Z want;
	bool threw = false;
	try {
		switch (op) {
		case 0: want = X + Y; if (n) z = x + y; else Vuint::add(z, x, y); break;
		case 1: want = X + Y; z = x; z += y; break;
		case 2: want = X * Y; Vuint::mul(z, x, y); break;
		case 3: want = X * Y; z = x; z *= y; break;
		case 4: want = X + zu(w); Vuint::add(z, x, w); break;
		case 5: want = X * zu(w); Vuint::mul(z, x, Vuint(w)); break;
		case 6: want = X << n; Vuint::shl(z, x, n); break;
		case 7: want = X << n; z = x; z <<= n; break;
		default: want = X * X; Vuint::mul(z, x, x); break;
		}
	} catch (std::exception& e) {
		threw = true;
	}
	const bool in = fits(want);
	c.cls(in ? "fits" : "does not fit");
	c.nontrivial(want > 1);
	if (threw) PT_CHECK(!in || (n >= kBits - 64 && X == 0), name[op] << " refused although the result fits: " << hex(want));
	else {
		PT_CHECK(in, name[op] << " returned " << hex(toZ(z)) << " for a result beyond the capacity: " << hex(want));
		expectU(z, want, name[op]);
	}
	expectU(x, X, "operand");
	expectU(y, Y, "operand");
}
