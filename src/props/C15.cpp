// Bilinearity, non-degeneracy, order of the pairing
#include "pairing.h"

static Z genScalar(Src& s)
{
	Z r;
	switch (s.below(6)) {
	case 0: r = zu(s.below(5)); break;
	case 1: r = ref::C.r * zu(s.below(3)) + zi((int64_t)s.below(5) - 2); break;
	case 2: r = ref::pow2((unsigned)s.below(256)) + zi((int64_t)s.below(3) - 1); break;
	case 3: r = genBelow(s, ref::C.r); break;
	case 4: r = ref::C.p + zi((int64_t)s.below(3) - 1); break; // Frobenius eigenvalues
	default: r = genBits(s, 256); break;
	}
	return s.chance(1, 4) ? Z(-r) : r;
}
static ref::P1 genA(Src& s, Case& c) { if (s.chance(1, 16)) { c.cls("P infinity"); return ref::P1(); } return genP1(s); }
static ref::P2 genB(Src& s, Case& c) { if (s.chance(1, 16)) { c.cls("Q infinity"); return ref::P2(); } return genP2fast(s); }

PT_TEST(bilinear, 300, 20000)
{
	const ref::P1 p = genA(s, c);
	const ref::P2 q = genB(s, c);
	const Ec1 P = Gen<Fp>::rep(s, p);
	const Ec2 Q = Gen<Fp2>::rep(s, q);
	sayPt<Fp>(c, "P", P);
	sayPt<Fp2>(c, "Q", Q);
	const Z a = genScalar(s), b = genScalar(s);
	NOTE_Z(c, a);
	NOTE_Z(c, b);
	const Fp12 e = pairBy(s, c, s.below(3), Q, P);
	c.nontrivial(!p.inf && !q.inf && abs(a) > 1 && abs(b) > 1);
	PT_CHECK(canon(e), "value not fully reduced");
	PT_CHECK((e == fpOne()) == (p.inf || q.inf), "degenerate: value " << rawStr(e));
	PT_CHECK(pow(e, ref::C.r) == fpOne(), "the value does not have order dividing r");
	const Ec1 aP = P * mpz_class(a);
	const Ec2 bQ = Q * mpz_class(b);
	const Fp12 ea = pow(e, ref::modn(a, ref::C.r)), eb = pow(e, ref::modn(b, ref::C.r));
	PT_CHECK(pairing(Q, aP) == ea, "e(Q, a P) != e(Q, P)^a");
	PT_CHECK(pairing(bQ, P) == eb, "e(b Q, P) != e(Q, P)^b");
	const Fp12 eab = pairBy(s, c, s.below(3), bQ, aP);
	PT_CHECK(eab == pow(ea, ref::modn(b, ref::C.r)), "e(b Q, a P) != e(Q, P)^(a b)");
	PT_CHECK(eab == pairing(Q, P * mpz_class(ref::modn(Z(a * b), ref::C.r))), "e(b Q, a P) != e(Q, ab P)");
}

PT_TEST(multiplicative, 400, 25000)
{
	const ref::P1 p = genA(s, c);
	const ref::P2 q = genB(s, c);
	const bool rel = s.chance(1, 3);
	const ref::P1 p2 = rel ? Gen<Fp>::near(s, c, p) : genA(s, c);
	ref::P2 q2 = genB(s, c);
	if (rel && !q.inf) switch (s.below(5)) {
	case 4: q2 = Gen<Fp2>::sameY(s, q); break;
	case 0: q2 = q; break;
	case 1: q2 = -q; break;
	case 2: q2 = ref::dbl(q); break;
	default: q2 = ref::frobTwist(q); break;
	}
	const Ec1 P = Gen<Fp>::rep(s, p), P2 = Gen<Fp>::repLike(s, p2, P);
	const Ec2 Q = Gen<Fp2>::rep(s, q), Q2 = Gen<Fp2>::repLike(s, q2, Q);
	sayPt<Fp>(c, "P", P);
	sayPt<Fp>(c, "P2", P2);
	sayPt<Fp2>(c, "Q", Q);
	sayPt<Fp2>(c, "Q2", Q2);
	c.nontrivial(!p.inf && !q.inf && !p2.inf && !q2.inf);
	const Fp12 e = pairing(Q, P);
	PT_CHECK(pairing(Q, P + P2) == e * pairing(Q, P2), "e(Q, P + P2) != e(Q, P) e(Q, P2)");
	PT_CHECK(pairing(Q + Q2, P) == e * pairing(Q2, P), "e(Q + Q2, P) != e(Q, P) e(Q2, P)");
	Ec1 nP;
	Ec2 nQ;
	Ec1::neg(nP, P);
	Ec2::neg(nQ, Q);
	const Fp12 i = pairing(Q, nP);
	PT_CHECK(i * e == fpOne() && pairing(nQ, P) == i && pairing(nQ, nP) == e, "negation does not invert the value");
	PT_CHECK(pairing(Q, P - P) == fpOne() && pairing(Q - Q, P) == fpOne(), "value at infinity");
	// equality of products of pairings, as protocols use it
	PT_CHECK(pairing(Q + Q2, P + P2) == e * pairing(Q, P2) * pairing(Q2, P) * pairing(Q2, P2), "four products");
}

// a three-party key agreement and a signature-like equation over a few steps
PT_TEST(protocol, 120, 6000)
{
	const Ec1 G = Gen<Fp>::rep(s, genP1(s));
	const Ec2 H = Gen<Fp2>::rep(s, genP2fast(s));
	Z k[3];
	for (int i = 0; i < 3; i++) { k[i] = genScalar(s); NOTE_Z(c, k[i]); }
	c.nontrivial(abs(k[0]) > 1 && abs(k[1]) > 1 && abs(k[2]) > 1);
	Fp12 key[3];
	for (int i = 0; i < 3; i++) {
		const Z& x = k[i], &y = k[(i + 1) % 3], &z = k[(i + 2) % 3];
		key[i] = pow(pairing(H * mpz_class(z), G * mpz_class(y)), ref::modn(x, ref::C.r));
	}
	PT_CHECK(key[0] == key[1] && key[1] == key[2], "key agreement disagrees");
	// e(H, k0 G) == e(k0 H, G)
	PT_CHECK(pairing(H, G * mpz_class(k[0])) == pairing(H * mpz_class(k[0]), G), "moving a scalar across");
	const bool same = ref::modn(Z(k[0] - k[1]), ref::C.r) == 0;
	PT_CHECK((pairing(H, G * mpz_class(k[0])) == pairing(H * mpz_class(k[1]), G)) == same, "different multiples have different values");
}
