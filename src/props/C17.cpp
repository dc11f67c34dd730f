// Precomputed coefficients, single and double Miller loops
#include "pairing.h"

static bool same(const std::vector<Fp6>& x, const std::vector<Fp6>& y)
{
	return x.size() == y.size() && (x.empty() || memcmp((const void*)&x[0], (const void*)&y[0], sizeof(Fp6) * x.size()) == 0);
}
static std::vector<Fp6> pre(Src& s, const ref::P2& q, const Ec2& Q)
{
	std::vector<Fp6> t;
	if (s.chance(1, 3)) t.resize(s.below(200), genFp6(s)); // used before for something else
	Fp2 out[3];
	for (int i = 0; i < 3; i++) out[i] = genFp2(s);
	if (s.chance(1, 4)) {
		// in place
		for (int i = 0; i < 3; i++) out[i] = Q.p[i];
		bn::components::precomputeG2(t, out, out);
	} else {
		bn::components::precomputeG2(t, out, Q.p);
	}
	PT_CHECK(f2(out[0]) == q.x && f2(out[1]) == q.y && f2(out[2]) == ref::F2(1), "normalised point is " << rawPt(out));
	PT_CHECK(fromJac<Fp2>(Q.p) == q, "the input point changed");
	return t;
}
static void affine(Fp *out, const ref::P1& p)
{
	out[0] = fpOf(p.x);
	out[1] = fpOf(p.y);
}

PT_TEST(single, 400, 20000)
{
	const ref::P2 q = genP2fast(s);
	const Ec2 Q = Gen<Fp2>::rep(s, q);
	sayPt<Fp2>(c, "Q", Q);
	const std::vector<Fp6> t = pre(s, q, Q), keep = t;
	c.nontrivial();
	// any representative gives the same coefficients
	const Ec2 Q2 = Gen<Fp2>::repLike(s, q, Q);
	PT_CHECK(same(pre(s, q, Q2), t), "coefficients depend on the representative");
	Fp12 first;
	ref::P1 firstP;
	const size_t n = s.range(1, 4);
	for (size_t k = 0; k < n; k++) {
		const ref::P1 p = k && s.flip() ? firstP : genP1(s);
		const Ec1 P = Gen<Fp>::rep(s, p);
		sayPt<Fp>(c, "P", P);
		Fp a[2];
		affine(a, p);
		Fp12 f = s.flip() ? genFp12(s) : fpOne();
		bn::components::millerLoop(f, t, a);
		f.final_exp();
		PT_CHECK(same(t, keep), "coefficients changed by use");
		PT_CHECK(f1(a[0]) == p.x && f1(a[1]) == p.y, "base point changed by use");
		PT_CHECK(canon(f), "not fully reduced");
		if (k && p == firstP) PT_CHECK(f == first, "reuse gives another value");
		else PT_CHECK(f == pairing(Q, P), "precomputed " << rawStr(f) << " differs from the direct pairing");
		if (k == 0) { firstP = p; first = f; }
	}
}

PT_TEST(pairs, 400, 20000)
{
	const ref::P1 p1 = genP1(s), p2 = s.chance(1, 2) ? genP1(s) : Gen<Fp>::akin(s, c, p1);
	const ref::P2 q1 = genP2fast(s);
	ref::P2 q2 = s.chance(1, 2) ? genP2fast(s) : s.flip() ? q1 : Gen<Fp2>::akin(s, c, q1);
	if (s.chance(1, 16)) q2 = ref::frobTwist(q1);
	const Ec1 P1 = Gen<Fp>::rep(s, p1), P2 = Gen<Fp>::rep(s, p2);
	const Ec2 Q1 = Gen<Fp2>::rep(s, q1), Q2 = Gen<Fp2>::rep(s, q2);
	sayPt<Fp>(c, "P1", P1);
	sayPt<Fp>(c, "P2", P2);
	sayPt<Fp2>(c, "Q1", Q1);
	sayPt<Fp2>(c, "Q2", Q2);
	c.nontrivial();
	const std::vector<Fp6> t1 = pre(s, q1, Q1), t2 = pre(s, q2, Q2), k1 = t1, k2 = t2;
	Fp a1[2], a2[2];
	affine(a1, p1);
	affine(a2, p2);
	const Fp12 want = pairing(Q1, P1) * pairing(Q2, P2);
	const bool cancel = (q1 == q2 && p1 == -p2) || (q1 == -q2 && p1 == p2);
	if (cancel) c.cls("cancelling pairs");
	PT_CHECK(!cancel || want == fpOne(), "cancelling pairs");
	Fp12 f = s.flip() ? genFp12(s) : fpOne();
	bn::components::millerLoop2(f, t1, a1, t2, a2);
	f.final_exp();
	PT_CHECK(canon(f) && f == want, "two-pair loop gives " << rawStr(f) << ", expected " << rawStr(want));
	Fp12 g = fpOne();
	// the other order, and one table for both if the points agree
	bn::components::millerLoop2(g, t2, a2, q1 == q2 ? t2 : t1, a1);
	g.final_exp();
	PT_CHECK(g == want, "exchanged pairs give another value");
	PT_CHECK(same(t1, k1) && same(t2, k2), "coefficients changed by use");
	// product of single loops, one exponentiation
	Fp12 x, y;
	bn::components::millerLoop(x, t1, a1);
	bn::components::millerLoop(y, t2, a2);
	x *= y;
	x.final_exp();
	PT_CHECK(x == want, "product of single loops");
}

// directly against the definition
PT_TEST(definition, 25, 2500)
{
	const ref::P1 p1 = genP1(s), p2 = genP1(s);
	const ref::P2 q1 = genP2fast(s), q2 = genP2fast(s);
	const Ec2 Q1 = Gen<Fp2>::rep(s, q1), Q2 = Gen<Fp2>::rep(s, q2);
	if (c.verbose) c.say("P1 = " + p1.str() + "\nP2 = " + p2.str() + "\nQ1 = " + q1.str() + "\nQ2 = " + q2.str());
	c.nontrivial();
	const std::vector<Fp6> t1 = pre(s, q1, Q1), t2 = pre(s, q2, Q2);
	Fp a1[2], a2[2];
	affine(a1, p1);
	affine(a2, p2);
	const ref::F12 m1 = ref::miller(q1, p1), m2 = ref::miller(q2, p2);
	Fp12 f;
	bn::components::millerLoop2(f, t1, a1, t2, a2);
	f.final_exp();
	expectEq(f, ref::finalExp(m1 * m2), "two-pair loop");
	bn::components::millerLoop(f, t1, a1);
	f.final_exp();
	expectEq(f, ref::finalExp(m1), "single loop");
}
