// Residue classes for any modulus
#include "wordinit.h"

struct TagA;
struct TagB;
typedef mie::ZmZ<> ZA;
typedef mie::ZmZ<Vuint, TagA> ZB;
typedef mie::ZmZ<Vuint, TagB> ZC;

static Z genModulus(Src& s, Case& c)
{
	const size_t half = kBits / 2;
	switch (s.below(7)) {
	case 0: c.cls("small"); return zu(1 + s.below(40));
	case 1: c.cls("one word"); { u64 w = genWord(s); return w ? zu(w) : Z(2); }
	case 2: c.cls("power of two"); return ref::pow2((unsigned)s.below(half + 1));
	case 3: c.cls("near a power of two"); return ref::pow2(2 + (unsigned)s.below(half - 1)) - 1 - zu(s.below(2));
	case 4: { // prime
		c.cls("prime");
		Z x = genUint(s, half < 286 ? half - 2 : 286), p; // larger ones take too long to find
		mpz_nextprime(p.get_mpz_t(), x.get_mpz_t());
		return p;
	}
	case 5: c.cls("prime of the curve"); return ref::C.p;
	default: { Z m = genUint(s, half); return m == 0 ? Z(1) : m; }
	}
}
static Z md(const Z& x, const Z& m) { return ref::modn(x, m); }
static Z genRes(Src& s, const Z& m)
{
	return s.chance(1, 4) ? md(zi((int64_t)s.below(7) - 3), m) : genBelow(s, m);
}

template<class T>
void expectM(const T& got, const Z& want, const char *what)
{
	expectU(got.get(), want, what);
	PT_CHECK(got.isZero() == (want == 0), what << ": isZero");
}

template<class T>
static T res(const Z& x) { return T(vuintOf(x)); }

PT_TEST(arithmetic, 100000, 4000000)
{
	typedef ZA T;
	const Z M = genModulus(s, c);
	T::setModulo(vuintOf(M));
	const Z X = genRes(s, M);
	Z Y = genRes(s, M);
	switch (s.below(5)) {
	case 0: Y = X; break;
	case 1: Y = md(-X, M); break;
	case 2: Y = md(Z(X + 1), M); break;
	default: break;
	}
	NOTE_Z(c, M);
	NOTE_Z(c, X);
	NOTE_Z(c, Y);
	c.nontrivial(X > 1 && Y > 1);
	const T x = res<T>(X), y = res<T>(Y);
	expectM(x, X, "construction");
	T z = res<T>(genRes(s, M));
	T::add(z, x, y);
	expectM(z, md(Z(X + Y), M), "add");
	expectM(x + y, md(Z(X + Y), M), "+");
	T::sub(z, x, y);
	expectM(z, md(Z(X - Y), M), "sub");
	expectM(x - y, md(Z(X - Y), M), "-");
	T::mul(z, x, y);
	expectM(z, md(Z(X * Y), M), "mul");
	expectM(x * y, md(Z(X * Y), M), "*");
	T::neg(z, x);
	expectM(z, md(-X, M), "neg");
	expectM(-x, md(-X, M), "unary -");
	z = x; z += y; expectM(z, md(Z(X + Y), M), "+=");
	z = x; z -= y; expectM(z, md(Z(X - Y), M), "-=");
	z = x; z *= y; expectM(z, md(Z(X * Y), M), "*=");
	z = y; T::add(z, x, z); expectM(z, md(Z(X + Y), M), "add over the second operand");
	z = y; T::sub(z, x, z); expectM(z, md(Z(X - Y), M), "sub over the second operand");
	z = y; T::mul(z, x, z); expectM(z, md(Z(X * Y), M), "mul over the second operand");
	z = x; T::add(z, z, z); expectM(z, md(Z(2 * X), M), "doubling in place");
	z = x; T::sub(z, z, z); expectM(z, 0, "x - x");
	z = x; T::mul(z, z, z); expectM(z, md(Z(X * X), M), "square in place");
	z = x; T::neg(z, z); expectM(z, md(-X, M), "neg in place");
	PT_CHECK((x == y) == (X == Y) && (x != y) == (X != Y), "comparison");
	expectM(x, X, "operand");
	expectM(y, Y, "operand");
	PT_CHECK(toZ(T::getModulo()) == M, "modulus changed");
}

PT_TEST(inverse, 40000, 1500000)
{
	typedef ZA T;
	const Z M = genModulus(s, c);
	if (M < 2) return;
	T::setModulo(vuintOf(M));
	Z X = genRes(s, M);
	const Z Y = genRes(s, M);
	for (int k = 0; gcd(X, M) != 1; k++) X = k < 50 ? md(Z(X + 1), M) : Z(1);
	NOTE_Z(c, M);
	NOTE_Z(c, X);
	NOTE_Z(c, Y);
	c.nontrivial(X > 1);
	const T x = res<T>(X), y = res<T>(Y);
	Z I;
	mpz_invert(I.get_mpz_t(), X.get_mpz_t(), M.get_mpz_t());
	T z = y;
	T::inv(z, x);
	expectM(z, I, "inv");
	expectM(z * x, md(Z(1), M), "inv times x");
	z = x;
	z.inverse();
	expectM(z, I, "inverse");
	z = x;
	T::inv(z, z);
	expectM(z, I, "inv in place");
	expectM(y / x, md(Z(Y * I), M), "/");
	z = y;
	z /= x;
	expectM(z, md(Z(Y * I), M), "/=");
	z = x;
	z /= z;
	expectM(z, md(Z(1), M), "x /= x");
	expectM(x, X, "operand");
}

static const char *const kFrom[] = { "int", "Vuint", "decimal", "hexadecimal", "64-bit words", "32-bit words" };
template<class T>
Z construct(Src& s, Case& c, T& z, const Z& M)
{
	const size_t k = s.below(6);
	c.cls(kFrom[k]);
	const Z x = s.flip() ? genUint(s, kBits) : Z(M * zu(s.below(3)) + zu(s.below(4)));
	const Z X = fits(x) ? x : Z(1);
	if (c.verbose && k) c.say(std::string("from ") + kFrom[k] + " " + hex(X));
	const bool ctor = s.flip();
	switch (k) {
	case 0: {
		int i = (int)(uint32_t)genWord(s);
		if (s.chance(1, 4)) i = s.flip() ? (-2147483647 - 1) : 2147483647;
		if (s.chance(1, 3) && M < 1000000) i = (int)M.get_si() * ((int)s.below(7) - 3) + (int)s.below(3) - 1;
		PT_NOTE(c, i);
		if (ctor) z = T(i); else z.set(i);
		return md(Z(i), M);
	}
	case 1: if (ctor) z = T(vuintOf(X)); else z.set(vuintOf(X)); break;
	case 2: if (ctor) z = T(X.get_str(10)); else z.set(X.get_str(10)); break;
	case 3: if (ctor) z = T("0x" + X.get_str(16)); else z.set("0x" + X.get_str(16)); break;
	case 4: { u64 w[kBits / 64]; zToWords(w, kBits / 64, X); z.set(w, kBits / 64); break; }
	default: { u64 w[kBits / 64]; zToWords(w, kBits / 64, X); z.set((const uint32_t*)w, kBits / 32); break; }
	}
	return md(X, M);
}
PT_TEST(from, 60000, 2000000)
{
	typedef ZA T;
	const Z M = genModulus(s, c);
	NOTE_Z(c, M);
	T::setModulo(vuintOf(M));
	T z;
	expectM(z, 0, "default");
	const Z X = construct<T>(s, c, z, M);
	c.nontrivial(M > 1);
	expectM(z, X, "construction");
	PT_CHECK(z.toString(10) == X.get_str(10) && z.toString(16) == "0x" + X.get_str(16), "printed as " << z.toString());
	std::ostringstream os;
	os << z;
	PT_CHECK(os.str() == X.get_str(10), "printed as " << os.str());
	T y;
	y.set(z);
	PT_CHECK(y == z, "copy");
	z.clear();
	expectM(z, 0, "clear");
}

// interleaved work under three tags; moduli set again between
template<class T>
struct Pool {
	Z M, X[3];
	T x[3];
	void start(Src& s, Case& c)
	{
		M = genModulus(s, c);
		NOTE_Z(c, M);
		T::setModulo(vuintOf(M));
		for (int i = 0; i < 3; i++) { X[i] = genRes(s, M); x[i] = res<T>(X[i]); }
	}
	void step(Src& s, Case& c)
	{
		const size_t d = s.below(3), a = s.below(3), b = s.below(3), o = s.below(6);
		if (c.verbose) { std::ostringstream os; os << " x" << d << " <- op" << o << " x" << a << " x" << b; c.say(os.str()); }
		Z v;
		switch (o) {
		case 0: v = md(Z(X[a] + X[b]), M); T::add(x[d], x[a], x[b]); break;
		case 1: v = md(Z(X[a] - X[b]), M); T::sub(x[d], x[a], x[b]); break;
		case 2: v = md(Z(X[a] * X[b]), M); T::mul(x[d], x[a], x[b]); break;
		case 3: v = md(-X[a], M); T::neg(x[d], x[a]); break;
		case 4: if (M < 2 || gcd(X[a], M) != 1) return; mpz_invert(v.get_mpz_t(), X[a].get_mpz_t(), M.get_mpz_t()); T::inv(x[d], x[a]); break;
		default: v = construct<T>(s, c, x[d], M); break;
		}
		X[d] = v;
		expectM(x[d], v, "operation");
	}
	void end()
	{
		for (int i = 0; i < 3; i++) expectM(x[i], X[i], "value at the end");
		PT_CHECK(toZ(T::getModulo()) == M, "modulus");
	}
};
PT_TEST(history_, 20000, 600000)
{
	Pool<ZA> a;
	Pool<ZB> b;
	Pool<ZC> d;
	a.start(s, c);
	b.start(s, c);
	d.start(s, c);
	const size_t len = s.range(3, 30);
	for (size_t k = 0; k < len; k++) {
		const size_t t = s.below(3);
		if (c.verbose) { std::ostringstream os; os << "tag " << t; c.say(os.str()); }
		switch (t) {
		case 0: a.step(s, c); break;
		case 1: b.step(s, c); break;
		default: d.step(s, c); break;
		}
		if (s.chance(1, 12)) b.start(s, c);
	}
	a.end();
	b.end();
	d.end();
	c.nontrivial();
}
