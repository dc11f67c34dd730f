// Group law in any representation; the same text for both curves (C10, C11).
#pragma once
#include "curve.h"

template<class FF>
void groupLaw(Src& s, Case& c)
{
	typedef Grp<FF> G;
	typedef typename G::Ec Ec;
	typedef typename G::P P;
	const P p = Gen<FF>::point(s, c), q = s.chance(2, 3) ? Gen<FF>::near(s, c, p) : Gen<FF>::point(s, c);
	const Ec a = Gen<FF>::rep(s, p), b = Gen<FF>::repLike(s, q, a);
	sayPt<FF>(c, "a", a);
	sayPt<FF>(c, "b", b);
	c.nontrivial(!p.inf && !q.inf);
	const P sum = ref::add(p, q), diff = ref::add(p, -q), twice = ref::dbl(p);
	Ec r = Gen<FF>::rep(s, q);
	Ec::add(r, a, b);
	expectPt<FF>(r, sum, "add");
	expectPt<FF>(a + b, sum, "operator+");
	Ec::sub(r, a, b);
	expectPt<FF>(r, diff, "sub");
	expectPt<FF>(a - b, diff, "operator-");
	Ec::dbl(r, a);
	expectPt<FF>(r, twice, "dbl");
	Ec::neg(r, a);
	expectPt<FF>(r, -p, "neg");
	r = a;
	r += b;
	expectPt<FF>(r, sum, "+=");
	r = a;
	r -= b;
	expectPt<FF>(r, diff, "-=");
	r = a;
	r += r;
	expectPt<FF>(r, twice, "+= itself");
	r = a;
	r -= r;
	expectPt<FF>(r, P(), "-= itself");
	r = b;
	Ec::add(r, a, r);
	expectPt<FF>(r, sum, "add over the second operand");
	r = b;
	Ec::sub(r, a, r);
	expectPt<FF>(r, diff, "sub over the second operand");
	r = a;
	Ec::dbl(r, r);
	expectPt<FF>(r, twice, "dbl in place");
	r = a;
	Ec::neg(r, r);
	expectPt<FF>(r, -p, "neg in place");
	// the underlying functions on coordinate arrays
	FF o[3] = { a.p[0], b.p[1], a.p[1] };
	bn::ecop::ECAdd(o, a.p, b.p);
	PT_CHECK(fromJac<FF>(o) == sum, "ECAdd gives " << rawPt(o));
	bn::ecop::ECDouble(o, a.p);
	PT_CHECK(fromJac<FF>(o) == twice, "ECDouble gives " << rawPt(o));
	PT_CHECK(r.isZero() == p.inf && a.isZero() == p.inf && (a + b).isZero() == sum.inf, "isZero");
	PT_CHECK(fromJac<FF>(a.p) == p && fromJac<FF>(b.p) == q, "an operand changed its point");
	PT_CHECK((a + b).isValid() && (a - b).isValid() && r.isValid(), "isValid of a result");
}

// group axioms on the library alone
template<class FF>
void groupAxioms(Src& s, Case& c)
{
	typedef Grp<FF> G;
	typedef typename G::Ec Ec;
	typedef typename G::P P;
	const P p = Gen<FF>::point(s, c), q = Gen<FF>::near(s, c, p), t = Gen<FF>::near(s, c, q);
	const Ec a = Gen<FF>::rep(s, p), b = Gen<FF>::repLike(s, q, a), d = Gen<FF>::repLike(s, t, b);
	sayPt<FF>(c, "a", a);
	sayPt<FF>(c, "b", b);
	sayPt<FF>(c, "d", d);
	c.nontrivial(!p.inf && !q.inf && !t.inf);
	Ec z;
	z.clear();
	PT_CHECK((a + b) + d == a + (b + d), "associativity");
	PT_CHECK(a + b == b + a, "commutativity");
	PT_CHECK(a + z == a && z + a == a && a - z == a, "neutral element");
	PT_CHECK((a - a).isZero() && (a - a) == z, "inverse");
	PT_CHECK((a - b) + b == a && (a + b) - b == a, "a - b + b");
	Ec w;
	Ec::dbl(w, a + b);
	Ec x, y;
	Ec::dbl(x, a);
	Ec::dbl(y, b);
	PT_CHECK(w == x + y, "2 (a + b)");
}

// a running sum through a history of operations
template<class FF>
void groupHistory(Src& s, Case& c)
{
	typedef Grp<FF> G;
	typedef typename G::Ec Ec;
	typedef typename G::P P;
	const size_t n = 3;
	Ec x[n];
	P X[n];
	for (size_t i = 0; i < n; i++) {
		X[i] = i ? Gen<FF>::near(s, c, X[i - 1]) : Gen<FF>::point(s, c);
		x[i] = Gen<FF>::rep(s, X[i]);
		sayPt<FF>(c, "point", x[i]);
	}
	size_t len = s.range(1, 24);
	for (size_t k = 0; k < len; k++) {
		size_t d = s.below(n), a = s.below(n), b = s.below(n), o = s.below(8);
		if (c.verbose) { std::ostringstream os; os << "x" << d << " <- op" << o << " x" << a << " x" << b; c.say(os.str()); }
		P v;
		switch (o) {
		case 0: v = ref::add(X[a], X[b]); Ec::add(x[d], x[a], x[b]); break;
		case 1: v = ref::add(X[a], -X[b]); Ec::sub(x[d], x[a], x[b]); break;
		case 2: v = ref::dbl(X[a]); Ec::dbl(x[d], x[a]); break;
		case 3: v = -X[a]; Ec::neg(x[d], x[a]); break;
		case 4: v = ref::add(X[d], X[a]); x[d] += x[a]; break;
		case 5: v = ref::add(X[d], -X[a]); x[d] -= x[a]; break;
		case 6: v = X[d]; x[d].normalize(); break;
		default: v = X[d]; PT_CHECK((x[a] == x[b]) == (X[a] == X[b]), "comparison"); break;
		}
		X[d] = v;
		expectPt<FF>(x[d], X[d], "operation in a history");
	}
	for (size_t i = 0; i < n; i++) expectPt<FF>(x[i], X[i], "point after the history");
	c.nontrivial(len >= 3);
}
