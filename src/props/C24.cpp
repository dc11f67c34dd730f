// Powers for every base and exponent type
#include "ops.h"
// longest exponent
const size_t kExpBits = MIE_ZM_VUINT_BIT_LEN < 1024 ? MIE_ZM_VUINT_BIT_LEN : 1024;

static Z genExp(Src& s, size_t bits)
{
	Z r;
	switch (s.below(8)) {
	case 0: r = zu(s.below(20)); break;
	case 1: r = ref::pow2((unsigned)s.below(bits)) + zi((int64_t)s.below(3) - 1); break;
	case 2: { // zero words inside, extreme leading word
		const size_t n = 1 + (size_t)s.below((bits + 63) / 64);
		std::vector<u64> w(n, 0);
		w[n - 1] = s.flip() ? (u64)1 << 63 : 1;
		if (s.flip()) w[0] = genWord(s);
		r = zFromWords(&w[0], n);
		break;
	}
	case 3: r = ref::C.r + zi((int64_t)s.below(3) - 1); break;
	case 4: r = ref::C.p + zi((int64_t)s.below(3) - 1); break;
	default: r = genUint(s, bits); break;
	}
	return r & (ref::pow2((unsigned)bits) - 1);
}

template<class T>
struct Pw {
	typedef typename Model<T>::R R;
	static R model(const R& x, const Z& e)
	{
		R r(1);
		for (size_t i = mpz_sizeinbase(e.get_mpz_t(), 2); i-- > 0;) {
			r = r * r;
			if (mpz_tstbit(e.get_mpz_t(), i)) r = r * x;
		}
		return r;
	}
	static void value(Src& s, Case& c, size_t bits)
	{
		T x = gen<T>(s);
		switch (s.below(12)) {
		case 0: x = Model<T>::make(R(0)); break;
		case 1: x = Model<T>::make(R(1)); break;
		case 2: x = Model<T>::make(-R(1)); break;
		default: break;
		}
		NOTE_F(c, x);
		const R X = Model<T>::get(x);
		const size_t k = s.below(4);
		static const char *const name[] = { "int", "size_t", "Vuint", "mpz_class" };
		c.cls(name[k]);
		Z e;
		T z;
		switch (k) {
		case 0: { const int i = s.chance(1, 4) ? 2147483647 - (int)s.below(2) : (int)(s.word() >> (33 + s.below(31))); e = i; z = mie::power(x, i); break; }
		case 1: { const size_t i = (size_t)genWord(s); e = zu(i); z = mie::power(x, i); break; }
		case 2: e = genExp(s, bits); z = mie::power(x, vuintOf(e)); break;
		default: e = genExp(s, bits > 256 ? 700 : bits); z = mie::power(x, e); break;
		}
		NOTE_Z(c, e);
		c.nontrivial(e > 1 && X != R(0) && X != R(1));
		expectEq(z, model(X, e), "power");
		PT_CHECK(Model<T>::get(x) == X, "base changed");
	}
	// on the library alone
	static void laws(Src& s, Case& c, size_t bits)
	{
		const T x = gen<T>(s), y = genNear(s, x);
		NOTE_F(c, x);
		NOTE_F(c, y);
		const Z m = genExp(s, bits), n = genExp(s, bits);
		NOTE_Z(c, m);
		NOTE_Z(c, n);
		c.nontrivial(!x.isZero() && m > 1 && n > 1);
		const T xm = mie::power(x, vuintOf(m)), xn = mie::power(x, vuintOf(n)), one = Model<T>::make(R(1));
		PT_CHECK(xm * xn == mie::power(x, vuintOf(m + n)), "x^m x^n != x^(m+n)");
		PT_CHECK(mie::power(xm, vuintOf(n)) == mie::power(x, mpz_class(m * n)), "(x^m)^n != x^(m n)");
		PT_CHECK(mie::power(x * y, vuintOf(m)) == xm * mie::power(y, vuintOf(m)), "(x y)^m != x^m y^m");
		PT_CHECK(mie::power(x, m) == xm, "mpz_class and Vuint exponents");
		PT_CHECK(mie::power(x, 0) == one && mie::power(x, (size_t)0) == one && mie::power(x, Vuint(0)) == one && mie::power(x, mpz_class(0)) == one, "x^0");
		PT_CHECK(mie::power(x, 1) == x && mie::power(x, (size_t)1) == x && mie::power(x, Vuint(1)) == x && mie::power(x, mpz_class(1)) == x, "x^1");
		const u64 w = genWord(s);
		PT_CHECK(mie::power(x, (size_t)w) == mie::power(x, Vuint(w)), "word and Vuint exponents");
		const int i = (int)(w & 0x7fffffff);
		PT_CHECK(mie::power(x, i) == mie::power(x, (size_t)i), "int and word exponents");
	}
};
// related bases and exponents one after the other
template<class T>
void related(Src& s, Case& c, size_t bits)
{
	typedef typename Model<T>::R R;
	T x[3];
	Z e[3];
	for (size_t i = 0; i < 3; i++) {
		x[i] = i && s.chance(3, 4) ? genNear(s, x[i - 1]) : gen<T>(s);
		NOTE_F(c, x[i]);
		e[i] = genExp(s, bits);
		if (i) switch (s.below(6)) {
		case 0: e[i] = e[i - 1] ^ ref::pow2((unsigned)s.below(bits)); break;
		case 1: e[i] = (e[i - 1] << 64) & (ref::pow2((unsigned)bits) - 1); break;
		case 2: e[i] = e[i - 1] & zu(~(u64)0); break;
		case 3: e[i] = e[i - 1] + 1; break;
		default: break;
		}
		NOTE_Z(c, e[i]);
	}
	for (size_t k = 0, n = s.range(2, 6); k < n; k++) {
		const size_t i = s.below(3), j = s.below(3);
		const R X = Model<T>::get(x[i]);
		const T z = s.flip() ? mie::power(x[i], vuintOf(e[j])) : mie::power(x[i], mpz_class(e[j]));
		expectEq(z, Pw<T>::model(X, e[j]), "power in a history");
		PT_CHECK(Model<T>::get(x[i]) == X, "base changed");
	}
	c.nontrivial(!x[0].isZero() && e[0] > 1);
}
PT_TEST(relatedFp, 500, 25000) { related<Fp>(s, c, 280); }
PT_TEST(relatedFp2, 250, 12000) { related<Fp2>(s, c, 280); }
PT_TEST(relatedFp6, 24, 1500) { related<Fp6>(s, c, 150); }
PT_TEST(relatedFp12, 24, 1500) { related<Fp12>(s, c, 150); }
PT_TEST(fp, 1500, 80000) { Pw<Fp>::value(s, c, kExpBits); }
PT_TEST(fp2, 700, 40000) { Pw<Fp2>::value(s, c, kExpBits); }
PT_TEST(fp6, 60, 4000) { Pw<Fp6>::value(s, c, 300); }
PT_TEST(fp12, 60, 4000) { Pw<Fp12>::value(s, c, 300); }
PT_TEST(lawsFp, 3000, 100000) { Pw<Fp>::laws(s, c, 280); }
PT_TEST(lawsFp2, 1500, 60000) { Pw<Fp2>::laws(s, c, 280); }
PT_TEST(lawsFp6, 250, 12000) { Pw<Fp6>::laws(s, c, 200); }
PT_TEST(lawsFp12, 150, 8000) { Pw<Fp12>::laws(s, c, 200); }

// exponents act modulo the order of the base
PT_TEST(order, 300, 15000)
{
	const Fp x = genFpNz(s);
	const Fp2 y = genFp2Nz(s);
	Fp12 g = genFp12Nz(s);
	g.final_exp();
	const Z e = genExp(s, kExpBits - 16);
	NOTE_F(c, x);
	NOTE_F(c, y);
	NOTE_Z(c, e);
	c.nontrivial(e > 1);
	PT_CHECK(mie::power(x, vuintOf(e)) == mie::power(x, vuintOf(ref::modn(e, ref::C.p - 1))), "order p - 1");
	PT_CHECK(mie::power(y, e) == mie::power(y, vuintOf(ref::modn(e, ref::C.p * ref::C.p - 1))), "order p^2 - 1");
	PT_CHECK(mie::power(g, vuintOf(e)) == mie::power(g, vuintOf(ref::modn(e, ref::C.r))), "order r");
	PT_CHECK(mie::power(g, Param::r) == fp12Of(ref::F12(1)), "g^r");
	PT_CHECK(mie::power(x, Param::p) == x, "x^p");
}

// big integers and residue classes as bases
PT_TEST(integers, 6000, 200000)
{
	struct Tag;
	typedef mie::ZmZ<Vuint, Tag> R;
	Z m = genUint(s, 256);
	if (m < 2) m += 2; // squares of residues have at most 512 bits
	const Z x = genBelow(s, m), e = genExp(s, kExpBits);
	NOTE_Z(c, m);
	NOTE_Z(c, x);
	NOTE_Z(c, e);
	c.nontrivial(x > 1 && e > 1);
	R::setModulo(vuintOf(m));
	const R b(vuintOf(x));
	const Z want = e == 0 ? ref::modn(Z(1), m) : ref::powm(x, e, m);
	PT_CHECK(toZ(mie::power(b, vuintOf(e)).get()) == want, "residue class to the power of a Vuint");
	PT_CHECK(toZ(mie::power(b, e).get()) == want, "residue class to the power of an mpz_class");
	const u64 w = genWord(s);
	const Z want2 = w == 0 ? ref::modn(Z(1), m) : ref::powm(x, zu(w), m);
	PT_CHECK(toZ(mie::power(b, (size_t)w).get()) == want2, "residue class to the power of a word");
	// exact powers within capacity
	const Z v = genUint(s, 1 + s.below(64));
	const size_t n = v <= 1 ? s.below(100000) : s.below(MIE_ZM_VUINT_BIT_LEN / mpz_sizeinbase(v.get_mpz_t(), 2) + 1);
	Z exact;
	mpz_pow_ui(exact.get_mpz_t(), v.get_mpz_t(), n);
	NOTE_Z(c, v);
	PT_NOTE(c, n);
	PT_CHECK(toZ(mie::power(vuintOf(v), n)) == exact, "big integer to the power of a word");
	PT_CHECK(toZ(mie::power(vuintOf(v), (int)n)) == exact, "big integer to the power of an int");
	PT_CHECK(toZ(mie::power(vuintOf(v), Vuint(n))) == exact, "big integer to the power of a big integer");
	const Vsint sv = -Vsint(vuintOf(v));
	PT_CHECK(toZ(mie::power(sv, (int)n)) == ((n & 1) ? Z(-exact) : exact), "signed big integer to the power of an int");
	// base and exponent the same object; the result over the base
	const size_t k = s.below(MIE_ZM_VUINT_BIT_LEN < 1024 ? 64 : 100);
	const Vuint kk((Unit)k);
	mpz_ui_pow_ui(exact.get_mpz_t(), k, k);
	PT_CHECK(toZ(mie::power(kk, kk)) == exact, "k^k");
	// the same residue, then again under another modulus
	const Z m2 = s.flip() || m < 3 ? Z(m + 1) : Z(m - 1);
	R::setModulo(vuintOf(m2));
	R b2(vuintOf(x));
	PT_CHECK(toZ(mie::power(b2, vuintOf(e)).get()) == ref::powm(x, e, m2), "after the modulus was set anew");
	b2 = mie::power(b2, (size_t)w);
	PT_CHECK(toZ(b2.get()) == ref::powm(x, zu(w), m2), "over the base");
}
