// Points off the curve are rejected, points on it accepted
#include "curve.h"

static bool jac(const Fp *p) { return bn::ecop::isOnECJac3(p); }
static bool jac(const Fp2 *p) { return bn::ecop::isOnTwistECJac3(p); }
static bool hom2(const Fp *p) { return bn::ecop::isOnECHom2(p); }
static bool hom2(const Fp2 *p) { return bn::ecop::isOnTwistECHom2(p); }
static bool hom3(const Fp *p) { return bn::ecop::isOnECHom3(p); }
static bool hom3(const Fp2 *p) { return bn::ecop::isOnTwistECHom3(p); }

// almost a point: one small change
template<class FF>
void disturb(Src& s, FF *p, size_t n, Case& c)
{
	const size_t m = sizeof(FF) / sizeof(Fp);
	Fp *q = (Fp*)&p[s.below(n)] + s.below(m);
	switch (s.below(5)) {
	case 0: setRaw(*q, ref::mod(raw(*q) + 1)); c.cls("coordinate + 1"); break;
	case 1: setRaw(*q, ref::mod(raw(*q) + ref::pow2((unsigned)s.below(254)))); c.cls("coordinate + 2^k"); break;
	case 2: setRaw(*q, ref::mod(-raw(*q))); c.cls("coordinate negated"); break;
	case 3: *q = genFp(s); c.cls("coordinate replaced"); break;
	default: std::swap(p[0], p[1]); c.cls("coordinates swapped"); break;
	}
}

template<class FF>
void verified(Src& s, Case& c)
{
	typedef Grp<FF> G;
	typedef typename G::Ec Ec;
	typedef typename G::R R;
	typename G::P P = G::any(s);
	FF p[3];
	genJac<FF>(s, p, P);
	bool affine = false;
	switch (s.below(10)) {
	case 0: // any coordinates
		for (int i = 0; i < 3; i++) p[i] = gen<FF>(s);
		c.cls("random triple");
		break;
	case 1: // homogeneous representative: not a Jacobian one
		{ R z = Model<FF>::get(p[2]); p[0] = Model<FF>::make(P.x * z); p[1] = Model<FF>::make(P.y * z); c.cls("homogeneous representative"); }
		break;
	case 2: // infinity with any other coordinates
		genJac<FF>(s, p, typename G::P());
		c.cls("infinity");
		break;
	case 3: // the point of another curve y^2 = x^3 + k
		{ R x = Model<FF>::get(gen<FF>(s)); p[0] = Model<FF>::make(x); p[1] = gen<FF>(s); p[2] = Model<FF>::make(R(1)); c.cls("other curve"); }
		break;
	case 4: // singular corner cases
		p[s.below(2)] = Model<FF>::make(R(0));
		c.cls("zero coordinate");
		break;
	case 5: case 6: case 7:
		disturb(s, p, 3, c);
		break;
	default:
		c.cls("point");
		affine = s.flip();
		if (affine) { p[0] = Model<FF>::make(P.x); p[1] = Model<FF>::make(P.y); if (s.flip()) disturb(s, p, 2, c); }
	}
	if (c.verbose) c.say(rawPt(p));
	const R x = Model<FF>::get(p[0]), y = Model<FF>::get(p[1]), z = Model<FF>::get(p[2]);
	const R z2 = z * z, z3 = z2 * z, x3 = x * x * x, b = G::b();
	const bool onJac = z.isZero() || y * y == x3 + b * z3 * z3;
	const bool onAff = y * y == x3 + b;
	const bool onHom = z.isZero() || y * y * z == x3 + b * z3;
	c.nontrivial(!z.isZero());
	c.cls(onJac ? "on the curve" : "off the curve");
	PT_CHECK(jac(p) == onJac, "Jacobian predicate: " << !onJac);
	PT_CHECK(hom3(p) == onHom, "homogeneous predicate: " << !onHom);
	PT_CHECK(hom2(p) == onAff, "affine predicate: " << !onAff);
	// every way of building it
	bool threw = false;
	Ec e;
	try { Ec t(p[0], p[1], p[2]); e = t; } catch (std::exception&) { threw = true; }
	PT_CHECK(threw == !onJac, "constructor from three coordinates: threw = " << threw);
	if (!threw) PT_CHECK(e.p[0] == p[0] && e.p[1] == p[1] && e.p[2] == p[2] && e.isValid(), "constructed coordinates");
	threw = false;
	try { e.set(p[0], p[1], p[2]); } catch (std::exception&) { threw = true; }
	PT_CHECK(threw == !onJac, "set of three coordinates: threw = " << threw);
	threw = false;
	try { e.set(p[0], p[1]); } catch (std::exception&) { threw = true; }
	PT_CHECK(threw == !onAff, "set of two coordinates: threw = " << threw);
	if (!threw) PT_CHECK(fromJac<FF>(e.p) == typename G::P(x, y), "point built from two coordinates");
	threw = false;
	try { Ec t(p[0], p[1]); e = t; } catch (std::exception&) { threw = true; }
	PT_CHECK(threw == !onAff, "constructor from two coordinates: threw = " << threw);
	// without verification anything goes, and the validity test tells
	Ec u(p[0], p[1], p[2], false);
	PT_CHECK(u.isValid() == onJac, "isValid = " << !onJac);
	u.set(p[0], p[1], false);
	PT_CHECK(u.isValid() == onAff, "isValid of two coordinates = " << !onAff);
	u.set(p[0], p[1], p[2], false);
	PT_CHECK(u.isValid() == onJac, "isValid after set = " << !onJac);
	// again with coordinates in common: points and almost points in any order
	for (size_t k = 0, n = s.below(4); k < n; k++) {
		FF q[3] = { p[0], p[1], p[2] };
		R zz = z;
		switch (s.below(5)) {
		case 0: disturb(s, q, 3, c); break;
		case 1: FF::neg(q[1], q[1]); break; // the opposite point
		case 2: zz = s.flip() ? -z : R(1); q[2] = Model<FF>::make(zz); break;
		case 3: q[2] = p[0]; break;
		default: genJac<FF>(s, q, P); break;
		}
		if (c.verbose) c.say("then " + rawPt(q));
		const R x = Model<FF>::get(q[0]), y = Model<FF>::get(q[1]), z = Model<FF>::get(q[2]), z2 = z * z, z3 = z2 * z;
		const bool on = z.isZero() || y * y == x * x * x + b * z3 * z3;
		threw = false;
		switch (s.below(4)) {
		case 0: PT_CHECK(jac(q) == on, "Jacobian predicate: " << !on); break;
		case 1: try { e.set(q[0], q[1], q[2]); } catch (std::exception&) { threw = true; } PT_CHECK(threw == !on, "set again: threw = " << threw); break;
		case 2: try { Ec t(q[0], q[1], q[2]); } catch (std::exception&) { threw = true; } PT_CHECK(threw == !on, "constructed again: threw = " << threw); break;
		default: u.set(q[0], q[1], q[2], false); PT_CHECK(u.isValid() == on, "isValid again = " << !on); break;
		}
	}
}
PT_TEST(verifiedG1, 20000, 1000000) { verified<Fp>(s, c); }
PT_TEST(verifiedG2, 8000, 400000) { verified<Fp2>(s, c); }
