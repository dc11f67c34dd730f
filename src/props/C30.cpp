// The published parameters follow from the curve parameter by their definitions, and stay as they are.
#include "pairing.h"
#include "dbl.h"
#include <algorithm>
using ref::modn;
using ref::pow2;


// weight of the non-adjacent form and of the binary form
static size_t nafWeight(Z x)
{
	size_t w = 0;
	while (x != 0) {
		if (mpz_odd_p(x.get_mpz_t())) {
			const Z m = modn(x, 4);
			x -= m == 1 ? 1 : -1;
			w++;
		}
		x /= 2;
	}
	return w;
}
template<class V>
static void digits(const V& v, const Z& want, const char *what, bool *naf)
{
	PT_CHECK(!v.empty() && v[0] == 1, what << " does not start with 1");
	Z x = 0;
	size_t w = 0;
	bool adj = false, neg = false;
	for (size_t i = 0; i < v.size(); i++) {
		PT_CHECK(v[i] >= -1 && v[i] <= 1, what << " has a digit " << (int)v[i]);
		x = 2 * x + (int)v[i];
		if (v[i]) w++;
		if (v[i] < 0) neg = true;
		if (i && v[i] && v[i - 1]) adj = true;
	}
	PT_CHECK(x == want, what << " stands for " << hex(x) << " instead of " << hex(want));
	const size_t bw = mpz_popcount(want.get_mpz_t()), nw = nafWeight(want);
	PT_CHECK(w == std::min(bw, nw), what << " has " << w << " digits, binary " << bw << ", signed " << nw);
	if (naf) *naf = nw < bw;
	(void)adj;
}
static bool isPrime(const Z& x) { return mpz_probab_prime_p(x.get_mpz_t(), 40) > 0; }

static Z gPrime[2]; // primality is decided once per value
static void needPrime(const Z& x, size_t k, const char *what)
{
	if (gPrime[k] == x) return;
	PT_CHECK(isPrime(x), what << " is not prime: " << x.get_str());
	gPrime[k] = x;
}

static ref::F2 powF2(ref::F2 x, const Z& e)
{
	ref::F2 r(1);
	for (size_t i = mpz_sizeinbase(e.get_mpz_t(), 2); i-- > 0;) {
		r = r * r;
		if (mpz_tstbit(e.get_mpz_t(), i)) r = r * x;
	}
	return r;
}
// gamma_k,i = xi^(i(p^k-1)/6) and what depends on it, by the model
struct Want {
	ref::F2 g[3][5], w2p, w3p, binv;
	Z z6;
	int b, xiA, xiB;
	Z p;
	Want() : b(0) {}
	void make()
	{
		if (b == ref::C.b && xiA == ref::C.xiA && xiB == ref::C.xiB && p == ref::C.p) return;
		b = ref::C.b; xiA = ref::C.xiA; xiB = ref::C.xiB; p = ref::C.p;
		const ref::F2 xi((Z(xiA)), Z(xiB));
		Z pk = p;
		for (int k = 0; k < 3; k++) {
			for (int i = 0; i < 5; i++) g[k][i] = powF2(xi, (pk - 1) / 6 * (i + 1));
			pk *= p;
		}
		w2p = powF2(xi, (p - 1) / 3);
		w3p = powF2(xi, (p - 1) / 2);
		binv = ref::F2(Z(b), Z(0)) * xi.inv();
		const ref::F2 t = powF2(xi, (p * p - 1) / 6);
		if (t.b != 0) pt::fail("model: xi^((p^2-1)/6) is not in the prime field");
		z6 = ref::mod(t.a * t.a);
		// the tower needs xi to be neither a square nor a cube
		if (powF2(xi, (p * p - 1) / 2) == ref::F2(1)) pt::fail("xi is a square");
		if (powF2(xi, (p * p - 1) / 3) == ref::F2(1)) pt::fail("xi is a cube");
	}
};
static Want gWant;

static void allParameters()
{
	const Z z = toZ(Param::z), p = toZ(Param::p), r = toZ(Param::r), t = toZ(Param::t);
	PT_CHECK(z == ref::C.z, "curve parameter " << z.get_str());
	PT_CHECK(p == 36 * z * z * z * z + 36 * z * z * z + 24 * z * z + 6 * z + 1, "p is not the polynomial of z: " << p.get_str());
	PT_CHECK(r == 36 * z * z * z * z + 36 * z * z * z + 18 * z * z + 6 * z + 1, "r is not the polynomial of z: " << r.get_str());
	PT_CHECK(t == 6 * z * z + 1, "t is not the polynomial of z: " << t.get_str());
	PT_CHECK(r == p + 1 - t, "the order does not fit the trace");
	PT_CHECK(t * t < 4 * p, "the trace is outside the interval of Hasse");
	needPrime(p, 0, "p");
	needPrime(r, 1, "r");
	PT_CHECK(modn(p, 4) == 3 && modn(p, 6) == 1, "p has a wrong residue");
	const Z c = toZ(Param::largest_c);
	PT_CHECK(c == 6 * z + 2, "loop length " << c.get_str());
	PT_CHECK(modn(c + p - p * p + p * p * p, r) == 0, "the loop length does not give a multiple of the order");
	bool naf = false;
	digits(Param::siTbl, abs(c), "loop digits", &naf);
	PT_CHECK(Param::useNAF == naf, "useNAF is " << Param::useNAF);
#ifdef BN_SUPPORT_SNARK
	digits(Param::zReplTbl, abs(z), "digits of z", 0);
#endif

	// word constants
	PT_CHECK(toZ(Fp::getModulo()) == p, "Fp::getModulo");
	PT_CHECK(toZ(Fp::getMontgomeryR()) == modn(pow2(256), p), "Fp::getMontgomeryR");
	for (int i = 0; i < 7 && i * p < pow2(256); i++) PT_CHECK(raw(Fp::getDirectP(i)) == i * p, "Fp::getDirectP(" << i << ") = " << hex(raw(Fp::getDirectP(i))));
	PT_CHECK(raw(Fp::halfTbl_[0]) == 0 && raw(Fp::halfTbl_[1]) == (p + 1) / 2, "halfTbl_");
	for (unsigned i = 0; i < 4; i++) PT_CHECK(raw(FpDbl::pNTbl_[i]) == (p * pow2(256)) >> i, "pNTbl_[" << i << "]");
	PT_CHECK(raw(Fp(1)) == modn(pow2(256), p), "representation of one");

	// field constants
	gWant.make();
	PT_CHECK(raw(Param::i0) == 0 && val(Param::i1) == 1 && canon(Param::i1), "i0, i1");
	PT_CHECK(canon(Param::half) && val(Param::half) == (p + 1) / 2, "half");
	PT_CHECK(canon(Param::Z) && val(Param::Z) == gWant.z6, "Z");
	const Z w = val(Param::Z);
	PT_CHECK(w != 1 && modn(w * w * w, p) == 1, "Z is not a primitive cube root of one");
	PT_CHECK(Param::b == ref::C.b, "b = " << Param::b);
	PT_CHECK(canon(Param::b_invxi) && f2(Param::b_invxi) == gWant.binv, "b / xi");
	PT_CHECK(canon(Param::W2p) && f2(Param::W2p) == gWant.w2p, "W2p");
	PT_CHECK(canon(Param::W3p) && f2(Param::W3p) == gWant.w3p, "W3p");
	for (int i = 0; i < 5; i++) {
		PT_CHECK(canon(Param::gammar[i]) && f2(Param::gammar[i]) == gWant.g[0][i], "gammar[" << i << "]");
		PT_CHECK(canon(Param::gammar2[i]) && f2(Param::gammar2[i]) == gWant.g[1][i], "gammar2[" << i << "]");
		PT_CHECK(canon(Param::gammar3[i]) && f2(Param::gammar3[i]) == gWant.g[2][i], "gammar3[" << i << "]");
	}
}

// right after the one initialisation
PT_TEST(atStart, 1, 1)
{
	c.nontrivial();
	allParameters();
	(void)s;
}

static void curveOrders(Src& s, Case& c)
{
	const ref::P1 p = genP1(s);
	const ref::P2 q = genP2any(s);
	PT_CHECK(fastMul(p, toZ(Param::r)).inf, "a point of the curve is not killed by r: " << p.str());
	const Z n2 = toZ(Param::r) * (toZ(Param::p) - 1 + toZ(Param::t));
	PT_CHECK(fastMul(q, n2).inf, "a point of the twist is not killed by its order: " << q.str());
	// and the library agrees with the model about both curves
	const Ec1 P(fpOf(p.x), fpOf(p.y), false);
	const Ec2 Q(fp2Of(q.x), fp2Of(q.y), false);
	PT_CHECK(P.isValid() && Q.isValid(), "a point of the curve is not valid");
	PT_CHECK((P * Param::r).isZero(), "r P is not zero");
	const Vuint m = Param::p - Vuint(1) + Param::t;
	const Ec2 R = Q * m;
	PT_CHECK((R * Param::r).isZero(), "(p - 1 + t) r Q is not zero");
	(void)c;
}

PT_TEST(orders, 60, 3000)
{
	c.nontrivial();
	curveOrders(s, c);
}

// initialisations of every kind and arbitrary work in any order
PT_TEST(stability, 150, 8000)
{
	const size_t n = s.range(1, 6);
	bool inits = false;
	for (size_t k = 0; k < n; k++) {
		switch (s.below(10)) {
		case 0: history<Fp>(s, c, 4, 40); break;
		case 1: history<Fp2>(s, c, 4, 30); break;
		case 2: history<Fp12>(s, c, 3, 8); break;
		case 3: { Fp12 x = genFp12Nz(s); x.final_exp(); c.cls("final_exp"); break; }
		case 4: {
			c.cls("pairing");
			const ref::P1 p = Gen<Fp>::point(s, c);
			const ref::P2 q = s.chance(1, 8) ? ref::P2() : genP2fast(s);
			pairBy(s, c, s.below(3), Gen<Fp2>::rep(s, q), Gen<Fp>::rep(s, p));
			break;
		}
		case 5: {
			c.cls("group");
			Ec2 Q = Gen<Fp2>::rep(s, Gen<Fp2>::point(s, c));
			Q = Q * vuintOf(genBits(s, 300)) + Q;
			Q.normalize();
			break;
		}
		case 6: {
			c.cls("text");
			Fp12 x = genFp12(s), y;
			std::ostringstream os;
			if (s.flip()) os << std::hex;
			os << x << ' ' << Param::r << ' ' << Param::z;
			Vuint v;
			v.set(Param::p.toString(10), 10);
			Fp a;
			a.set(Z(modn(genBits(s, 256), ref::C.p)).get_str(10));
			break;
		}
		case 7: {
			c.cls("integers");
			Vuint a = Param::p;
			a *= Param::r;
			a += Vuint(1);
			a %= Param::r;
			Vsint b = Param::z;
			b *= Vsint(Param::z);
			Fp y, x = genFp(s);
			Fp::squareRoot(y, x);
			y = mie::power(x, Param::p);
			Fp2 z2 = mie::power(gen<Fp2>(s), Param::t);
			(void)z2;
			break;
		}
		default: {
			c.cls("initialisation");
			inits = true;
			std::string curve = pt::cfg.curve;
			if (curve != "bn254") curve = s.flip() ? "snark1" : "snark2";
			const int mode = s.flip() ? -1 : (int)s.below(3) - 1;
			if (c.verbose) c.say("initialise " + curve);
			refInit(curve);
			if (curve == pt::cfg.curve && curve != "snark2" && s.flip()) Param::init(mode, s.flip());
			else Param::init(curveOf(curve), mode, s.flip());
			break;
		}
		}
		if (s.chance(1, 4)) allParameters();
	}
	c.nontrivial(inits || n > 1);
	allParameters();
	if (s.chance(1, 8)) curveOrders(s, c);
}

// descriptions of curves are equal exactly if all of their fields are
PT_TEST(descriptions, 4000, 100000)
{
	bn::CurveParam a = curveOf(pt::cfg.curve), b = a;
	if (s.flip()) { a.z = (int64_t)genWord(s); b.z = s.flip() ? a.z : (int64_t)genWord(s); }
	if (s.flip()) { a.b = (int)genWord(s); b.b = s.flip() ? a.b : (int)genWord(s); }
	if (s.flip()) { a.xi_a = (int)genWord(s); b.xi_a = s.flip() ? a.xi_a : (int)genWord(s); }
	if (s.flip()) { a.xi_b = (int)genWord(s); b.xi_b = s.flip() ? a.xi_b : (int)genWord(s); }
	c.nontrivial();
	const bool same = a.z == b.z && a.b == b.b && a.xi_a == b.xi_a && a.xi_b == b.xi_b;
	c.cls(same ? "equal" : "different");
	PT_CHECK((a == b) == same && (a != b) == !same && (b == a) == same, "comparison of curve descriptions");
}
