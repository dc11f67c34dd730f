// Scalar multiplication for every scalar type
#include "curve.h"

// scalars with structure: word boundaries, multiples of the order and their neighbours
static Z genScalar(Src& s, unsigned bits)
{
	Z r;
	switch (s.below(8)) {
	case 0: r = zu(s.below(6)); break;
	case 1: r = ref::C.r * zu(s.below(5)) + zi((int64_t)s.below(7) - 3); break;
	case 2: r = ref::pow2((unsigned)s.below(bits)) + zi((int64_t)s.below(3) - 1); break;
	case 3: r = ref::C.p * zu(s.below(3)) + zi((int64_t)s.below(7) - 3); break;
	case 4: r = ref::C.r * cofactor2() * zu(s.below(2)) + ref::C.r * zu(s.below(3)) + zi((int64_t)s.below(7) - 3); break;
	case 5: r = genBits(s, bits); break;
	default: r = genBits(s, 256); break;
	}
	r = abs(r);
	return r & (ref::pow2(bits) - 1);
}
static int genInt(Src& s)
{
	switch (s.below(4)) {
	case 0: return (int)s.below(9) - 4;
	case 1: { static const int t[] = { 2147483647, -2147483647 - 1, -2147483647, 65536, -65536, 1 << 30, -(1 << 30) }; return t[s.below(7)]; }
	default: return (int)(uint32_t)s.word() >> s.below(32);
	}
}

// one product in one of its forms
template<class FF, class N>
void oneForm(Src& s, const typename Grp<FF>::P& want, const typename Grp<FF>::Ec& a, const N& m, const char *what)
{
	typedef typename Grp<FF>::Ec Ec;
	Ec r = a;
	switch (s.below(6)) {
	case 0: r = Gen<FF>::rep(s, Grp<FF>::cheap(s)); Ec::mul(r, a, m); break;
	case 1: Ec::mul(r, r, m); break;
	case 2: r *= m; break;
	case 3: r = a * m; break;
	case 4: bn::ecop::ScalarMult(r.p, a.p, m); break;
	default: bn::ecop::ScalarMult(r.p, r.p, m); break;
	}
	expectPt<FF>(r, want, what);
}

template<class FF>
void value(Src& s, Case& c)
{
	typedef typename Grp<FF>::Ec Ec;
	typedef typename Grp<FF>::P P;
	const P p = Gen<FF>::point(s, c);
	const Ec a = Gen<FF>::rep(s, p);
	sayPt<FF>(c, "a", a);
	Z m;
	const size_t kind = s.below(5);
	static const char *const name[] = { "int", "size_t", "Vuint", "mpz_class", "negative mpz_class" };
	c.cls(name[kind]);
	int i = 0;
	size_t u = 0;
	switch (kind) {
	case 0: i = genInt(s); m = zi(i); break;
	case 1: u = (size_t)genWord(s); m = zu(u); break;
	case 2: m = genScalar(s, 512); break;
	default: m = genScalar(s, s.chance(1, 6) ? 1200 : 520); if (kind == 4) m = -m; break;
	}
	NOTE_Z(c, m);
	c.nontrivial(!p.inf && abs(m) > 1);
	const P want = fastMul(p, m);
	const char *what = "multiple";
	switch (kind) {
	case 0: oneForm<FF>(s, want, a, i, what); break;
	case 1: oneForm<FF>(s, want, a, u, what); break;
	case 2: oneForm<FF>(s, want, a, vuintOf(m), what); break;
	default: oneForm<FF>(s, want, a, m, what); break;
	}
	PT_CHECK(fromJac<FF>(a.p) == p, "the operand changed");
}
PT_TEST(valueG1, 2500, 120000) { value<Fp>(s, c); }
PT_TEST(valueG2, 700, 40000) { value<Fp2>(s, c); }

// the same number through every type that can hold it
template<class FF>
void types(Src& s, Case& c)
{
	typedef typename Grp<FF>::Ec Ec;
	const Ec a = Gen<FF>::rep(s, Gen<FF>::point(s, c));
	sayPt<FF>(c, "a", a);
	int i = genInt(s);
	PT_NOTE(c, i);
	c.nontrivial(!a.isZero() && i != 0);
	const Z m = zi(i), n = abs(m);
	const Ec r = a * i;
	PT_CHECK(r == a * mpz_class(m), "int and mpz_class");
	Ec na = a;
	if (i < 0) Ec::neg(na, a);
	PT_CHECK(r == na * (size_t)n.get_ui(), "int and size_t");
	PT_CHECK(r == na * Vuint((Unit)n.get_ui()), "int and Vuint");
	PT_CHECK(r == na * vuintOf(n), "int and Vuint");
	Ec z;
	z.clear();
	PT_CHECK((a * 0).isZero() && (a * (size_t)0).isZero() && (a * Vuint(0)).isZero() && (a * mpz_class(0)).isZero(), "zero multiple");
	PT_CHECK(a * 1 == a && a * (size_t)1 == a && a * Vuint(1) == a && a * mpz_class(1) == a, "first multiple");
	PT_CHECK((z * i).isZero() && (z * vuintOf(n)).isZero() && (z * m).isZero(), "multiple of infinity");
}
PT_TEST(typesG1, 1500, 60000) { types<Fp>(s, c); }
PT_TEST(typesG2, 600, 25000) { types<Fp2>(s, c); }

// several multiplications one after the other: points and scalars that have much in common
template<class FF>
void again(Src& s, Case& c)
{
	typedef typename Grp<FF>::Ec Ec;
	typedef typename Grp<FF>::P P;
	P p[3];
	Ec a[3];
	for (size_t i = 0; i < 3; i++) {
		p[i] = i == 0 ? Grp<FF>::cheap(s) : s.chance(3, 4) ? Gen<FF>::akin(s, c, p[i - 1]) : p[i - 1];
		if (s.chance(1, 16)) p[i] = P();
		a[i] = i ? Gen<FF>::repLike(s, p[i], a[i - 1]) : Gen<FF>::rep(s, p[i]);
		sayPt<FF>(c, "a", a[i]);
	}
	Z m[3];
	m[0] = genScalar(s, 256);
	for (size_t i = 1; i < 3; i++) {
		switch (s.below(7)) {
		case 0: m[i] = m[i - 1] ^ ref::pow2((unsigned)s.below(256)); break;
		case 1: m[i] = abs(zi((int64_t)s.below(3) - 1) + m[i - 1]); break;
		case 2: m[i] = m[i - 1] + ref::C.r; break;
		case 3: m[i] = m[i - 1] & zu(~(u64)0); break; // same low word
		case 4: m[i] = (m[i - 1] << 64) & (ref::pow2(256) - 1); break;
		case 5: m[i] = abs(Z(ref::C.r - m[i - 1])); break;
		default: m[i] = genScalar(s, 256); break;
		}
	}
	for (size_t i = 0; i < 3; i++) NOTE_Z(c, m[i]);
	P want[3][3];
	bool known[3][3] = {};
	const size_t len = s.range(2, 8);
	for (size_t k = 0; k < len; k++) {
		const size_t i = s.below(3), j = s.below(3);
		if (!known[i][j]) { want[i][j] = fastMul(p[i], m[j]); known[i][j] = true; }
		switch (s.below(4)) {
		case 0: oneForm<FF>(s, -want[i][j], a[i], mpz_class(-m[j]), "minus a multiple, again"); break;
		case 1: oneForm<FF>(s, want[i][j], a[i], mpz_class(m[j]), "multiple, again"); break;
		default: oneForm<FF>(s, want[i][j], a[i], vuintOf(m[j]), "multiple, again"); break;
		}
		PT_CHECK(fromJac<FF>(a[i].p) == p[i], "the operand changed");
	}
	c.nontrivial(!p[0].inf && m[0] > 1);
}
PT_TEST(againG1, 400, 20000) { again<Fp>(s, c); }
PT_TEST(againG2, 150, 8000) { again<Fp2>(s, c); }

// integers act on the group
template<class FF>
void action(Src& s, Case& c)
{
	typedef typename Grp<FF>::Ec Ec;
	typename Grp<FF>::P p = Grp<FF>::cheap(s);
	if (s.chance(1, 12)) p = typename Grp<FF>::P();
	const Ec a = Gen<FF>::rep(s, p);
	sayPt<FF>(c, "a", a);
	const Z m = genScalar(s, 256), n = genScalar(s, 256);
	NOTE_Z(c, m);
	NOTE_Z(c, n);
	c.nontrivial(!p.inf && m > 1 && n > 1);
	const Vuint M = vuintOf(m), N = vuintOf(n);
	const Ec ma = a * M, na = a * N;
	PT_CHECK(ma + na == a * vuintOf(m + n), "(m + n) a");
	PT_CHECK(ma * N == a * vuintOf(m * n), "(m n) a");
	PT_CHECK(ma - na == a * mpz_class(m - n), "(m - n) a");
	PT_CHECK((a * Param::r).isZero(), "r a is not infinity");
	PT_CHECK((ma * Param::r).isZero(), "r (m a) is not infinity");
	PT_CHECK(a * vuintOf(ref::modn(m, ref::C.r)) == ma, "scalar modulo the order");
	PT_CHECK(a * vuintOf(m + ref::C.r) == ma, "(m + r) a");
	Ec b;
	Ec::neg(b, a);
	PT_CHECK(a * mpz_class(-m) == b * M, "negative scalar");
}
PT_TEST(actionG1, 250, 12000) { action<Fp>(s, c); }
PT_TEST(actionG2, 80, 4000) { action<Fp2>(s, c); }
