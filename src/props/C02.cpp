// Field elements are canonical: equality, conversions and text agree, after any history.
#include "ops.h"

PT_TEST(historyFp, 2500, 100000) { history<Fp>(s, c, 4, 60); }
PT_TEST(historyFp2, 1500, 60000) { history<Fp2>(s, c, 4, 40); }
PT_TEST(historyFp6, 400, 20000) { history<Fp6>(s, c, 3, 20); }
PT_TEST(historyFp12, 150, 8000) { history<Fp12>(s, c, 3, 12); }

PT_TEST(conversions, 30000, 1000000)
{
	Fp x = genFp(s);
	NOTE_F(c, x);
	const Z v = val(x), r = raw(x);
	c.nontrivial(v > 1);
	PT_CHECK(toZ(x.get()) == v, "get");
	PT_CHECK(x.getLow() == zToLow(v), "getLow = " << x.getLow());
	PT_CHECK(x.isOdd() == (mpz_odd_p(v.get_mpz_t()) != 0), "isOdd");
	PT_CHECK(x.toString() == v.get_str(), "toString = " << x.toString());
	PT_CHECK(x.toString(16) == "0x" + v.get_str(16), "toString(16) = " << x.toString(16));
	PT_CHECK(x.isZero() == (v == 0), "isZero");
	PT_CHECK((x == 0) == (v == 0) && (x == 1) == (v == 1), "comparison with a machine integer");
	// raw image
	mpz_class m;
	Fp::toMpz(m, x);
	PT_CHECK(m == r, "toMpz gives " << hex(m));
	Fp y = genFp(s);
	Fp::fromMpz(y, m);
	PT_CHECK(raw(y) == r && y == x, "fromMpz(toMpz(x)) = " << rawStr(y));
	// Montgomery form and back
	Fp t;
	Fp::fromMont(t, x);
	PT_CHECK(raw(t) == v, "fromMont: image " << hex(raw(t)));
	Fp::toMont(t, t);
	PT_CHECK(raw(t) == r, "toMont(fromMont(x)): image " << hex(raw(t)));
	// rebuild from each description
	Fp u;
	switch (s.below(5)) {
	case 0: u = Fp(x.get()); break;
	case 1: u = Fp(x.toString()); break;
	case 2: u = Fp(x.toString(16)); break;
	case 3: { Vuint w = vuintOf(r); Fp::setDirect(u, w); break; }
	default: { u64 w[4]; zToWords(w, 4, r); u = Fp((const Unit*)w); break; }
	}
	PT_CHECK(u == x && raw(u) == r, "rebuilt element " << rawStr(u));
	for (size_t i = 0; i < 4; i++) PT_CHECK(x[i] == (Unit)zToLow(r >> (64 * i)), "operator[]");
}

// the same value reached in two ways
template<class T>
static void routes(Src& s, Case& c)
{
	typedef typename Model<T>::R R;
	T x, y;
	genPair(s, x, y);
	if (c.verbose) {
		c.say("x = " + rawStr(x));
		c.say("y = " + rawStr(y));
	}
	const R X = Model<T>::get(x), Y = Model<T>::get(y);
	c.nontrivial(!X.isZero() && !Y.isZero());
	T a, b;
	T zero = Model<T>::make(R()), one = Model<T>::make(R(1));
	size_t k = s.below(9);
	switch (k) {
	case 0: a = (x + y) - y; b = x; break;
	case 1: a = (x - y) + y; b = x; break;
	case 2: T::neg(a, x); T::add(a, a, x); b = zero; break;
	case 3: a = x - x; b = zero; break;
	case 4: a = x * zero; b = zero; break;
	case 5: a = x * one; b = x; break;
	case 6: a = x * y; b = y * x; break;
	case 7: a = (x + y) * (x - y); b = x * x - y * y; break;
	default: T::neg(a, x); T::neg(a, a); b = x; break;
	}
	PT_NOTE(c, k);
	PT_CHECK(canon(a) && canon(b), "not fully reduced: " << rawStr(a) << " / " << rawStr(b));
	PT_CHECK(a == b && !(a != b), "equal values compare unequal: " << rawStr(a) << " / " << rawStr(b));
	PT_CHECK(a.isZero() == b.isZero() && a.isZero() == Model<T>::get(a).isZero(), "isZero");
	PT_CHECK((x == y) == (X == Y) && (x != y) == (X != Y), "comparison of x and y");
}
PT_TEST(routesFp, 15000, 500000) { routes<Fp>(s, c); }
PT_TEST(routesFp2, 10000, 300000) { routes<Fp2>(s, c); }
PT_TEST(routesFp6, 3000, 100000) { routes<Fp6>(s, c); }
PT_TEST(routesFp12, 1500, 50000) { routes<Fp12>(s, c); }

// one coefficient, one bit away
template<class T>
static void near(Src& s, Case& c)
{
	const size_t n = sizeof(T) / sizeof(Fp);
	T x = gen<T>(s), y = x;
	Fp *q = (Fp*)&y;
	size_t i = s.below(n), bit = s.below(256);
	Z r = raw(q[i]);
	mpz_combit(r.get_mpz_t(), bit);
	if (r >= ref::C.p) r = raw(q[i]) == 0 ? Z(1) : Z(raw(q[i]) - 1);
	setRaw(q[i], r);
	if (c.verbose) {
		c.say("x = " + rawStr(x));
		c.say("y = " + rawStr(y));
	}
	c.nontrivial();
	PT_CHECK(!(x == y) && x != y && !(y == x) && y != x, "different values compare equal");
	T z = Model<T>::make(typename Model<T>::R());
	((Fp*)&z)[i] = fromRaw(ref::pow2((unsigned)s.below(253)));
	PT_CHECK(!z.isZero(), "nonzero value tests as zero: " << rawStr(z));
}
PT_TEST(nearFp, 10000, 300000) { near<Fp>(s, c); }
PT_TEST(nearFp2, 10000, 300000) { near<Fp2>(s, c); }
PT_TEST(nearFp6, 5000, 200000) { near<Fp6>(s, c); }
PT_TEST(nearFp12, 5000, 200000) { near<Fp12>(s, c); }

// the order used by comparisons is total and consistent with equality
PT_TEST(order, 10000, 300000)
{
	Fp x, y;
	genPair(s, x, y);
	NOTE_F(c, x);
	NOTE_F(c, y);
	c.nontrivial(val(x) != val(y));
	const bool lt = x < y, gt = x > y, eq = x == y;
	PT_CHECK(lt + gt + eq == 1, "exactly one of <, >, ==");
	PT_CHECK((x <= y) == (lt || eq) && (x >= y) == (gt || eq) && (y > x) == lt, "comparison operators disagree");
}
