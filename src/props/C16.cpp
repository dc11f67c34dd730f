// The pairing is the textbook optimal ate pairing for every representative and entry point
#include "pairing.h"

PT_TEST(definition, 60, 5000)
{
	const ref::P1 p = genP1(s);
	ref::P2 q = s.chance(1, 4) ? genP2(s) : genP2fast(s);
	if (q.inf) q = genP2fast(s);
	const Ec1 P = Gen<Fp>::rep(s, p);
	const Ec2 Q = Gen<Fp2>::rep(s, q);
	sayPt<Fp>(c, "P", P);
	sayPt<Fp2>(c, "Q", Q);
	const ref::F12 want = ref::pairing(q, p);
	c.nontrivial(want != ref::F12(1));
	for (size_t how = 0; how < 3; how++) {
		const Ec1 P1 = Gen<Fp>::repLike(s, p, P);
		const Ec2 Q1 = Gen<Fp2>::repLike(s, q, Q);
		expectEq(pairBy(s, c, how, Q1, P1), want, "pairing");
		expectPt<Fp>(P1, p, "first group's point after the pairing");
		expectPt<Fp2>(Q1, q, "second group's point after the pairing");
	}
	expectEq(pairBy(s, c, s.below(3), Q, P), want, "pairing");
}

// one value for all representatives and entry points, in any order and whatever ran before; infinity included
PT_TEST(sameValue, 300, 20000)
{
	ref::P1 p[2];
	ref::P2 q[2];
	p[1] = genP1(s);
	p[0] = s.flip() ? Gen<Fp>::akin(s, c, p[1]) : Gen<Fp>::point(s, c);
	q[0] = genP2fast(s);
	q[1] = s.flip() ? Gen<Fp2>::akin(s, c, q[0]) : s.chance(1, 8) ? ref::P2() : genP2fast(s);
	Ec1 P[2];
	Ec2 Q[2];
	for (int i = 0; i < 2; i++) {
		P[i] = Gen<Fp>::rep(s, p[i]);
		Q[i] = Gen<Fp2>::rep(s, q[i]);
		sayPt<Fp>(c, "P", P[i]);
		sayPt<Fp2>(c, "Q", Q[i]);
	}
	Fp12 e[2][2];
	bool known[2][2] = { { false, false }, { false, false } };
	size_t n = s.range(4, 10);
	c.nontrivial(!p[0].inf && !q[1].inf);
	for (size_t k = 0; k < n; k++) {
		const size_t i = s.below(2), j = s.below(2);
		// other work between the calls
		switch (s.below(6)) {
		case 0: P[i] = Gen<Fp>::rep(s, p[i]); break;
		case 1: Q[j] = Gen<Fp2>::rep(s, q[j]); break;
		case 2: { Fp12 t = genFp12Nz(s); t.final_exp(); break; }
		case 3: { Ec1 t = P[i] * vuintOf(genBits(s, 128)); t.normalize(); break; }
		default: break;
		}
		if (c.verbose) { std::ostringstream os; os << "pair Q" << j << " P" << i; c.say(os.str()); }
		const Fp12 f = pairBy(s, c, s.below(3), Q[j], P[i]);
		PT_CHECK(canon(f), "not fully reduced");
		if (p[i].inf || q[j].inf) { PT_CHECK(f == fpOne(), "infinity gives " << rawStr(f)); continue; }
		PT_CHECK(f != fpOne(), "finite points give one");
		if (known[i][j]) PT_CHECK(f == e[i][j], "the value changed: " << rawStr(e[i][j]) << " then " << rawStr(f));
		e[i][j] = f;
		known[i][j] = true;
		PT_CHECK(fromJac<Fp>(P[i].p) == p[i] && fromJac<Fp2>(Q[j].p) == q[j], "a point changed");
	}
}

// value under the endomorphisms: e(pi Q, P) is the p-power of e(Q, P)
PT_TEST(frobenius, 150, 8000)
{
	const ref::P1 p = genP1(s);
	const ref::P2 q = genP2fast(s);
	const Ec1 P = Gen<Fp>::rep(s, p);
	const Ec2 Q = Gen<Fp2>::rep(s, q), R = Gen<Fp2>::rep(s, ref::frobTwist(q));
	sayPt<Fp>(c, "P", P);
	sayPt<Fp2>(c, "Q", Q);
	c.nontrivial();
	const Fp12 e = pairBy(s, c, s.below(3), Q, P);
	expectEq(pairBy(s, c, s.below(3), R, P), ref::frob(f12(e)), "value at the Frobenius image");
}
