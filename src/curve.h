// The two curve groups behind one interface.
#pragma once
#include "lib.h"

template<class FF> struct Grp;
template<> struct Grp<Fp> {
	typedef Fp F;
	typedef Ec1 Ec;
	typedef ref::F1 R;
	typedef ref::P1 P;
	static P any(Src& s) { return genP1(s); }
	static P cheap(Src& s) { return genP1(s); }
	static R b() { return ref::b1(); }
	static Z order() { return ref::C.r; }
};
template<> struct Grp<Fp2> {
	typedef Fp2 F;
	typedef Ec2 Ec;
	typedef ref::F2 R;
	typedef ref::P2 P;
	static P any(Src& s) { return s.flip() ? genP2any(s) : genP2fast(s); }
	static P cheap(Src& s) { return genP2fast(s); }
	static R b() { return ref::b2(); }
	static Z order() { return ref::C.r; }
};

template<class FF>
struct Gen {
	typedef Grp<FF> G;
	typedef typename G::P P;
	typedef typename G::R R;
	typedef typename G::Ec Ec;
	// point of the model, infinity included
	static P point(Src& s, Case& c)
	{
		if (s.chance(1, 10)) { c.cls("infinity"); return P(); }
		return G::any(s);
	}
	// same y up to sign, x times a cube root of unity
	static P sameY(Src& s, const P& p)
	{
		Z e = (ref::C.p - 1) / 3, w;
		for (int g = 2;; g++) { w = ref::powm(Z(g), e, ref::C.p); if (w != 1) break; }
		if (s.flip()) w = ref::mod(w * w);
		return P(p.x * R(ref::F1(w)), s.flip() ? p.y : -p.y);
	}
	// finite point of the same cyclic group as p, related to it
	static P akin(Src& s, Case& c, const P& p)
	{
		P q;
		switch (s.below(6)) {
		case 0: c.cls("equal points"); return p;
		case 1: c.cls("opposite points"); return -p;
		case 2: c.cls("double"); q = ref::dbl(p); break;
		case 3: c.cls("minus the double"); q = -ref::dbl(p); break;
		default: c.cls("same ordinate"); return sameY(s, p);
		}
		return q.inf ? p : q;
	}
	// second point related to the first
	static P near(Src& s, Case& c, const P& p)
	{
		switch (s.below(8)) {
		case 0: c.cls("equal points"); return p;
		case 1: c.cls("opposite points"); return -p;
		case 2: c.cls("double"); return ref::dbl(p);
		case 3: c.cls("minus the double"); return -ref::dbl(p);
		case 4: if (p.inf) return p;
			c.cls("same ordinate");
			return sameY(s, p);
		default: return point(s, c);
		}
	}
	// a representative with a generated third coordinate
	static Ec rep(Src& s, const P& p)
	{
		Ec e;
		genJac<FF>(s, e.p, p);
		return e;
	}
	// representatives with related scales
	static Ec repLike(Src& s, const P& p, const Ec& o)
	{
		if (p.inf || o.p[2].isZero() || s.flip()) return rep(s, p);
		Ec e;
		R z = Model<FF>::get(o.p[2]);
		switch (s.below(3)) {
		case 0: break;
		case 1: z = -z; break;
		default: z = z.inv(); break;
		}
		toJac<FF>(e.p, p, z);
		return e;
	}
	static P get(const Ec& e) { return fromJac<FF>(e.p); }
};

// a result of the library must be the expected point, in reduced coordinates
template<class FF>
void expectPt(const typename Grp<FF>::Ec& got, const typename Grp<FF>::P& want, const char *what)
{
	if (!canon(got.p[2]) || (!got.p[2].isZero() && !canonPt(got.p))) pt::fail(std::string(what) + ": coordinates not reduced: " + rawPt(got.p));
	typename Grp<FF>::P g = fromJac<FF>(got.p);
	if (g != want) pt::fail(std::string(what) + ": got " + rawPt(got.p) + " = " + g.str() + ", expected " + want.str());
}

template<class FF>
inline void sayPt(Case& c, const char *name, const typename Grp<FF>::Ec& e)
{
	if (c.verbose) c.say(std::string(name) + " = " + rawPt(e.p));
}
