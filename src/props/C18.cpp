// Miller line steps and the endomorphisms of the twist
#include "pairing.h"

// a square root of v or of the next element that has one
static ref::F2 rootFrom(ref::F2 v)
{
	ref::F2 r;
	while (!ref::sqrt2(r, v) || r.isZero()) v = v + ref::F2(1);
	return r;
}
// third coordinate: any, or such that a coordinate or a value on the way is an edge value
static ref::F2 genThird(Src& s, const ref::P2& q, const ref::P2 *other)
{
	const ref::F2 one(1), two(2);
	const size_t k = s.below(16);
	const ref::F2 v = k < 9 ? f2(genFp2Nz(s)) : one;
	switch (k) {
	case 0: if (!q.x.isZero()) return v * q.x.inv(); break; // X
	case 1: if (!q.y.isZero()) return v * q.y.inv(); break; // Y
	case 2: if (!q.y.isZero()) return rootFrom(v * (two * q.y).inv()); break; // 2 Y Z
	case 3: return rootFrom(v); // Z^2
	case 4: if (!q.x.isZero() && !q.y.isZero()) return rootFrom(two * v * (q.x * q.y).inv()); break; // X Y / 2
	case 5: if (!q.y.isZero()) return rootFrom(v) * q.y.inv(); break; // Y^2
	case 6: return rootFrom(v * (ref::F2(3) * ref::b2()).inv()); // 3 b Z^2
	case 7: if (other && other->x != q.x) return v * (q.x - other->x).inv(); break; // X - Z xQ
	case 8: if (other && other->y != q.y) return v * (q.y - other->y).inv(); break; // Y - Z yQ
	}
	return f2(genScale<Fp2>(s));
}
// running point (homogeneous coordinates: x = X / Z, y = Y / Z)
static void toHom(Src& s, Fp2 *out, const ref::P2& q, const ref::P2 *other = 0)
{
	const ref::F2 z = genThird(s, q, other);
	out[0] = fp2Of(q.x * z);
	out[1] = fp2Of(q.y * z);
	out[2] = fp2Of(z);
}
static ref::P2 fromHom(const Fp2 *p)
{
	const ref::F2 z = f2(p[2]);
	if (z.isZero()) return ref::P2();
	const ref::F2 iv = z.inv();
	return ref::P2(f2(p[0]) * iv, f2(p[1]) * iv);
}
// l = (a, b, c) stands for a + b w^3 + c w^4
static ref::F12 lineOf(const Fp6& l)
{
	ref::F12 r;
	r.c[0] = f2(l.a_);
	r.c[3] = f2(l.b_);
	r.c[4] = f2(l.c_);
	return r;
}
// equal up to a factor that the final exponentiation removes (its first part does already)
static bool upToFactor(const ref::F12& x, const ref::F12& y)
{
	if (x.isZero() || y.isZero()) return false;
	return easyPart(x * y.inv()) == ref::F12(1);
}
static ref::P2 genQ(Src& s) { return s.flip() ? genP2any(s) : genP2fast(s); }
// all coefficients that the model needs are below p and the line does not vanish
static void checkLine(const Fp6& l, const ref::F12& want, const char *what)
{
	PT_CHECK(canon(l), what << ": not reduced " << rawStr(l));
	if (!upToFactor(lineOf(l), want)) pt::fail(std::string(what) + ": line " + rawStr(l) + " is not " + want.str() + " up to a factor that the final exponentiation removes");
}

PT_TEST(doubling, 2500, 120000)
{
	const ref::P2 t = genQ(s);
	const ref::P1 p = genP1(s);
	Fp2 R[3], T[3];
	toHom(s, R, t);
	memcpy((void*)T, R, sizeof(R));
	Fp P[3] = { fpOf(p.x), fpOf(p.y), fpOf(Z(1)) };
	if (c.verbose) c.say("R = " + rawPt(R) + "\nP = " + p.str());
	c.nontrivial();
	Fp6 l = genFp6(s), m = genFp6(s);
	Fp6::pointDblLineEval(l, R, P);
	PT_CHECK(canonPt(R), "running point not reduced");
	PT_CHECK(fromHom(R) == ref::dbl(t), "running point " << rawPt(R) << " is not the double " << ref::dbl(t).str());
	checkLine(l, ref::lineDbl(t, p), "tangent");
	// applied later
	Fp6::pointDblLineEvalWithoutP(m, T);
	PT_CHECK(memcmp(T, R, sizeof(R)) == 0, "running point differs without the base point");
	for (size_t k = 0, n = s.range(1, 2); k < n; k++) {
		const ref::P1 q = k ? genP1(s) : p;
		const Fp a[2] = { fpOf(q.x), fpOf(q.y) };
		Fp6 e = m;
		Fp6::mulFp6_24_Fp_01(e, a);
		checkLine(e, ref::lineDbl(t, q), "tangent evaluated later");
		if (k == 0) PT_CHECK(memcmp((void*)&e, (void*)&l, sizeof(l)) == 0, "evaluated later differs from at once");
	}
#ifdef PT_INTERNAL
	{
		Fp2 U[3];
		Fp6 u = genFp6(s);
		const ref::F2 z(1);
		toHom(s, U, t);
		Fp6::pointDblLineEvalWithoutPC(u, U);
		PT_CHECK(fromHom(U) == ref::dbl(t), "portable: running point");
		Fp6::mulFp6_24_Fp_01(u, P);
		checkLine(u, ref::lineDbl(t, p), "portable tangent");
		toHom(s, U, t);
		Fp6::pointDblLineEvalC(u, U, P);
		PT_CHECK(fromHom(U) == ref::dbl(t), "portable with P: running point");
		checkLine(u, ref::lineDbl(t, p), "portable tangent with P");
	}
#endif
	PT_CHECK(f1(P[0]) == p.x && f1(P[1]) == p.y, "base point changed");
}

PT_TEST(addition, 2500, 120000)
{
	const ref::P2 t = genQ(s);
	ref::P2 q = s.chance(1, 4) ? ref::dbl(t) : s.chance(1, 6) ? ref::frobTwist(t) : genQ(s);
	if (s.chance(1, 8)) q = -ref::dbl(t);
	if (q.inf || q.x == t.x) q = ref::dbl(t);
	if (q.inf || q.x == t.x) return;
	const ref::P1 p = genP1(s);
	Fp2 R[3], T[3];
	toHom(s, R, t, &q);
	memcpy((void*)T, R, sizeof(R));
	const Fp2 Q[3] = { fp2Of(q.x), fp2Of(q.y), genFp2(s) };
	const Fp P[3] = { fpOf(p.x), fpOf(p.y), genFp(s) };
	if (c.verbose) c.say("R = " + rawPt(R) + "\nQ = " + q.str() + "\nP = " + p.str());
	c.nontrivial();
	Fp6 l = genFp6(s), m = genFp6(s);
	Fp6::pointAddLineEval(l, R, Q, P);
	const ref::P2 sum = ref::add(t, q);
	PT_CHECK(canonPt(R), "running point not reduced");
	PT_CHECK(fromHom(R) == sum, "running point " << rawPt(R) << " is not the sum " << sum.str());
	checkLine(l, ref::lineAdd(t, q, p), "chord");
	Fp6::pointAddLineEvalWithoutP(m, T, Q);
	PT_CHECK(memcmp(T, R, sizeof(R)) == 0, "running point differs without the base point");
	Fp6::mulFp6_24_Fp_01(m, P);
	PT_CHECK(memcmp((void*)&m, (void*)&l, sizeof(l)) == 0, "evaluated later differs from at once");
	PT_CHECK(f2(Q[0]) == q.x && f2(Q[1]) == q.y && f1(P[0]) == p.x && f1(P[1]) == p.y, "an operand changed");
}

// a run of steps along a generated digit string
PT_TEST(run, 150, 8000)
{
	const ref::P2 q = genP2fast(s);
	const ref::P1 p = genP1(s);
	const Fp2 Q[2] = { fp2Of(q.x), fp2Of(q.y) }, N[2] = { fp2Of(q.x), fp2Of(-q.y) };
	const Fp P[2] = { fpOf(p.x), fpOf(p.y) };
	Fp2 R[3];
	toHom(s, R, q);
	ref::P2 t = q;
	ref::F12 f(1), g(1);
	const size_t n = s.range(1, 24);
	for (size_t k = 0; k < n; k++) {
		Fp6 l;
		size_t o = s.below(3);
		if (o == 0 || t.x == q.x) {
			Fp6::pointDblLineEval(l, R, P);
			f = f * f * lineOf(l);
			g = g * g * ref::lineDbl(t, p);
			t = ref::dbl(t);
		} else {
			const ref::P2 a = o == 1 ? q : -q;
			Fp6::pointAddLineEval(l, R, o == 1 ? Q : N, P);
			f = f * lineOf(l);
			g = g * ref::lineAdd(t, a, p);
			t = ref::add(t, a);
		}
		if (c.verbose) { std::ostringstream os; os << "step " << o; c.say(os.str()); }
		PT_CHECK(fromHom(R) == t, "running point after step " << k);
	}
	c.nontrivial(n >= 2);
	PT_CHECK(upToFactor(f, g), "product of the lines");
}

PT_TEST(endomorphisms, 4000, 200000)
{
	const bool sub = s.flip();
	const ref::P2 q = sub ? genP2fast(s) : genP2any(s);
	if (c.verbose) c.say("Q = " + q.str());
	c.nontrivial();
	const ref::P2 f1 = ref::frobTwist(q), f2_ = ref::frobTwist(f1);
	ref::P2 f8 = f2_;
	for (int i = 0; i < 6; i++) f8 = ref::frobTwist(f8);
	const Fp2 in[2] = { fp2Of(q.x), fp2Of(q.y) };
	Fp2 out[2] = { genFp2(s), genFp2(s) };
	for (int inPlace = 0; inPlace < 2; inPlace++) {
		static const int deg[] = { 1, 2, 8 };
		for (int k = 0; k < 3; k++) {
			const ref::P2& want = k == 0 ? f1 : k == 1 ? f2_ : f8;
			if (inPlace) memcpy((void*)out, in, sizeof(in));
			const Fp2 *from = inPlace ? out : in;
			switch (k) {
			case 0: bn::ecop::FrobEndOnTwist_1(out, from); break;
			case 1: bn::ecop::FrobEndOnTwist_2(out, from); break;
			default: bn::ecop::FrobEndOnTwist_8(out, from); break;
			}
			PT_CHECK(canon(out[0]) && canon(out[1]), "FrobEndOnTwist_" << deg[k] << " not reduced");
			PT_CHECK(f2(out[0]) == want.x && f2(out[1]) == want.y, "FrobEndOnTwist_" << deg[k] << (inPlace ? " in place" : "") << " gives "
				<< rawStr(out[0]) << ", " << rawStr(out[1]) << ", expected " << want.str());
			PT_CHECK(f2(in[0]) == q.x && f2(in[1]) == q.y, "input changed");
		}
	}
}

// on the subgroup the first endomorphism multiplies by p; characteristic equation everywhere
PT_TEST(eigenvalue, 60, 3000)
{
	const bool sub = s.chance(2, 3);
	const ref::P2 q = sub ? genP2fast(s) : genP2any(s);
	if (c.verbose) c.say("Q = " + q.str());
	c.cls(sub ? "in the subgroup" : "outside");
	c.nontrivial();
	const Fp2 in[2] = { fp2Of(q.x), fp2Of(q.y) };
	Fp2 o1[2], o2[2], t[2];
	bn::ecop::FrobEndOnTwist_1(o1, in);
	bn::ecop::FrobEndOnTwist_2(o2, in);
	bn::ecop::FrobEndOnTwist_1(t, o1);
	PT_CHECK(memcmp(t, o2, sizeof(t)) == 0, "the second is not the first twice");
	const Ec2 Q(in[0], in[1]), F(o1[0], o1[1]), F2_(o2[0], o2[1]);
	PT_CHECK(F.isValid() && F2_.isValid(), "image not on the twist");
	if (sub) PT_CHECK(F == Q * vuintOf(ref::C.p), "the endomorphism is not multiplication by p");
	// pi^2 - t pi + p = 0
	Ec2 lhs = F2_ - F * vuintOf(ref::C.t) + Q * vuintOf(ref::C.p);
	PT_CHECK(lhs.isZero(), "characteristic equation");
}
