// The observable value of a point does not depend on its coordinates
#include "curve.h"

template<class FF>
static std::string text(const typename Grp<FF>::Ec& e)
{
	std::ostringstream os;
	os << e;
	return os.str();
}
static std::string coord(const ref::F1& x) { return "0x" + x.v.get_str(16); }
static std::string coord(const ref::F2& x) { return "[0x" + x.a.get_str(16) + ",0x" + x.b.get_str(16) + "]"; }
template<class P>
static std::string wantText(const P& p) { return p.inf ? "0" : coord(p.x) + "_" + coord(p.y); }

template<class FF>
void sameValue(Src& s, Case& c)
{
	typedef Grp<FF> G;
	typedef typename G::Ec Ec;
	typedef typename G::P P;
	typedef typename G::R R;
	const P p = Gen<FF>::point(s, c), q = s.chance(2, 3) ? Gen<FF>::near(s, c, p) : Gen<FF>::point(s, c);
	Ec a = Gen<FF>::rep(s, p), b = Gen<FF>::rep(s, p), d = Gen<FF>::repLike(s, q, a);
	sayPt<FF>(c, "a", a);
	sayPt<FF>(c, "b (same point)", b);
	sayPt<FF>(c, "d", d);
	c.nontrivial(!p.inf);
	// read-only operations in any order, on either representative
	for (size_t i = 0, n = s.range(1, 8); i < n; i++) {
		size_t k = s.below(8);
		if (c.verbose) { std::ostringstream os; os << "step " << k; c.say(os.str()); }
		switch (k) {
		case 0: PT_CHECK(a == b && !(a != b) && b == a, "representatives compare unequal"); break;
		case 1: PT_CHECK((a == d) == (p == q) && (a != d) == (p != q) && (d == b) == (p == q), "comparison with another point"); break;
		case 2: PT_CHECK(text<FF>(a) == wantText(p), "printed as " << text<FF>(a)); break;
		case 3: PT_CHECK(text<FF>(b) == text<FF>(a), "printed differently: " << text<FF>(b)); break;
		case 4: a.normalize(); break;
		case 5: b.normalize(); b.normalize(); break;
		case 6: PT_CHECK(a.isZero() == p.inf && b.isZero() == p.inf, "isZero"); break;
		default: PT_CHECK(a.isValid() && b.isValid() && d.isValid(), "isValid"); break;
		}
		expectPt<FF>(a, p, "a after a read-only operation");
		expectPt<FF>(b, p, "b after a read-only operation");
		expectPt<FF>(d, q, "d after a read-only operation");
	}
	// same behaviour
	PT_CHECK(a + d == b + d && d - a == d - b && a * 5 == b * 5, "behave differently");
	// normalised
	a.normalize();
	b.normalize();
	if (p.inf) {
		PT_CHECK(a.isZero() && b.isZero(), "infinity after normalize");
	} else {
		PT_CHECK(Model<FF>::get(a.p[2]) == R(1) && Model<FF>::get(a.p[0]) == p.x && Model<FF>::get(a.p[1]) == p.y, "normalised to " << rawPt(a.p));
		PT_CHECK(memcmp(a.p, b.p, sizeof(a.p)) == 0, "normalised coordinates differ");
		Ec t = a;
		t.normalize();
		PT_CHECK(memcmp(a.p, t.p, sizeof(a.p)) == 0, "normalising again changes the coordinates");
	}
}
PT_TEST(sameValueG1, 3000, 150000) { sameValue<Fp>(s, c); }
PT_TEST(sameValueG2, 1200, 60000) { sameValue<Fp2>(s, c); }

// NormalizeJac, NormalizeHom on coordinate arrays
template<class FF>
void normalizeArrays(Src& s, Case& c)
{
	typedef Grp<FF> G;
	typedef typename G::P P;
	typedef typename G::R R;
	P p;
	FF in[3], out[3];
	const bool onCurve = s.flip();
	if (onCurve) p = Gen<FF>::point(s, c);
	else if (!s.chance(1, 8)) p = P(Model<FF>::get(gen<FF>(s)), Model<FF>::get(gen<FF>(s))); // any pair of coordinates
	genJac<FF>(s, in, p);
	const bool hom = s.flip();
	if (hom && !p.inf) {
		R z = Model<FF>::get(in[2]);
		in[0] = Model<FF>::make(p.x * z);
		in[1] = Model<FF>::make(p.y * z);
	}
	if (c.verbose) c.say(std::string(hom ? "homogeneous " : "Jacobian ") + rawPt(in));
	c.nontrivial(!p.inf);
	const std::string before((const char*)in, sizeof(in));
	for (int i = 0; i < 3; i++) out[i] = gen<FF>(s);
	FF *o = s.chance(1, 3) ? in : out;
	if (hom) bn::ecop::NormalizeHom(o, in); else bn::ecop::NormalizeJac(o, in);
	if (o != in) PT_CHECK(before == std::string((const char*)in, sizeof(in)), "input changed");
	const R x = Model<FF>::get(o[0]), y = Model<FF>::get(o[1]), z = Model<FF>::get(o[2]);
	PT_CHECK(canonPt(o), "not reduced");
	if (p.inf) PT_CHECK(x.isZero() && y.isZero() && z.isZero(), "infinity normalised to " << rawPt(o));
	else PT_CHECK(x == p.x && y == p.y && z == R(1), "normalised to " << rawPt(o) << ", expected " << p.str());
}
PT_TEST(normalizeArraysG1, 6000, 300000) { normalizeArrays<Fp>(s, c); }
PT_TEST(normalizeArraysG2, 4000, 200000) { normalizeArrays<Fp2>(s, c); }
