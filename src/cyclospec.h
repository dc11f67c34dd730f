// Members of the cyclotomic subgroup with a prescribed coordinate.
// x = (a + w) / (a - w) with a = a0 + a1 v + a2 v^2, v = w^2, belongs to it if and only if 3 a0 a1 = 3 xi a2^2 + 1;
// a coordinate of x is then a rational function of a1, and a wanted value of it is a root of a polynomial.
#pragma once
#include "lib.h"
#include <map>

namespace cyclospec {

typedef ref::F1 F1;
typedef ref::F2 F2;
typedef ref::F12 F12;

inline F1 inverseOf(const F1& x) { return x.inv(); }
inline F2 inverseOf(const F2& x) { return x.inv(); }
inline Z orderOf(const F1&) { return ref::C.p; }
inline Z orderOf(const F2&) { return ref::C.p * ref::C.p; }

struct Rnd {
	u64 s;
	explicit Rnd(u64 x) : s(x * 0x9e3779b97f4a7c15ull + 1) {}
	u64 next() { u64 z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
	Z fp() { Z r = 0; for (int i = 0; i < 5; i++) r = r * ref::pow2(64) + zu(next()); return ref::mod(r); }
	void get(F1& x) { x = F1(fp()); }
	void get(F2& x) { const Z a = fp(); x = F2(a, fp()); }
};

// polynomials, lowest coefficient first, no leading zeros
template<class K> struct Poly {
	typedef std::vector<K> V;
	static void trim(V& f) { while (!f.empty() && f.back().isZero()) f.pop_back(); }
	static void divmod(V& q, V& r, const V& g)
	{
		q.clear();
		if (r.size() < g.size()) return;
		q.resize(r.size() - g.size() + 1, K(0));
		const K iv = inverseOf(g.back());
		for (size_t i = q.size(); i-- > 0;) {
			const K c = r[i + g.size() - 1] * iv;
			q[i] = c;
			if (c.isZero()) continue;
			for (size_t j = 0; j < g.size(); j++) r[i + j] = r[i + j] - c * g[j];
		}
		trim(r);
	}
	static V mulmod(const V& a, const V& b, const V& g)
	{
		V r, q;
		if (a.empty() || b.empty()) return r;
		r.resize(a.size() + b.size() - 1, K(0));
		for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) r[i + j] = r[i + j] + a[i] * b[j];
		trim(r);
		divmod(q, r, g);
		return r;
	}
	static V powmod(V x, const Z& e, const V& g)
	{
		V r(1, K(1)), q;
		divmod(q, r, g);
		divmod(q, x, g);
		for (size_t i = mpz_sizeinbase(e.get_mpz_t(), 2); i-- > 0;) {
			r = mulmod(r, r, g);
			if (mpz_tstbit(e.get_mpz_t(), i)) r = mulmod(r, x, g);
		}
		return r;
	}
	static V gcd(V a, V b)
	{
		V q;
		while (!b.empty()) { divmod(q, a, b); a.swap(b); }
		return a;
	}
	static V linear(const K& c) { V x(2, K(1)); x[0] = c; return x; }
	// one root in K
	static bool root(K& out, V f, Rnd& rnd)
	{
		trim(f);
		if (f.size() < 2) return false;
		const Z n = orderOf(K());
		V x = powmod(linear(K(0)), n, f); // t^n - t
		if (x.size() < 2) x.resize(2, K(0));
		x[1] = x[1] - K(1);
		trim(x);
		f = gcd(f, x);
		for (int i = 0; i < 200 && f.size() > 2; i++) {
			K d;
			rnd.get(d);
			V h = powmod(linear(d), (n - 1) / 2, f);
			if (h.empty()) continue;
			h[0] = h[0] - K(1);
			trim(h);
			h = gcd(f, h);
			if (h.size() >= 2 && h.size() < f.size()) f = h;
		}
		if (f.size() != 2) return false;
		out = K(0) - f[0] * inverseOf(f[1]);
		return true;
	}
	static V interpolate(const std::vector<K>& x, const std::vector<K>& y)
	{
		const size_t n = x.size();
		std::vector<K> d = y; // divided differences
		for (size_t k = 1; k < n; k++) for (size_t i = n; i-- > k;) d[i] = (d[i] - d[i - 1]) * inverseOf(x[i] - x[i - k]);
		V f;
		for (size_t i = n; i-- > 0;) {
			V g(f.size() + 1, K(0));
			for (size_t j = 0; j < f.size(); j++) { g[j + 1] = g[j + 1] + f[j]; g[j] = g[j] - f[j] * x[i]; }
			g[0] = g[0] + d[i];
			f = g;
		}
		trim(f);
		return f;
	}
};

inline F12 sextic(const F2& a1, const F2& a2)
{
	F12 a;
	a.c[0] = (F2(3) * ref::xi() * a2 * a2 + F2(1)) * (F2(3) * a1).inv();
	a.c[2] = a1;
	a.c[4] = a2;
	return a;
}
inline F2 normOf(const F12& d) // of an element of the sextic field
{
	const F2 x = ref::xi(), &d0 = d.c[0], &d1 = d.c[2], &d2 = d.c[4];
	return d0 * d0 * d0 + x * d1 * d1 * d1 + x * x * d2 * d2 * d2 - F2(3) * x * d0 * d1 * d2;
}
inline bool isMember(const F12& r)
{
	const F12 p2 = ref::frob(ref::frob(r)), p4 = ref::frob(ref::frob(p2));
	return !r.isZero() && p4 * r == p2;
}
inline F12 w() { F12 r; r.c[1] = F2(1); return r; }
inline F12 member(const F2& a1, const F2& a2)
{
	const F12 a = sextic(a1, a2);
	return (a + w()) * (a - w()).inv();
}
inline Z form(const F2& x, int how)
{
	switch (how) {
	case 0: return x.a;
	case 1: return x.b;
	case 2: return ref::mod(x.a - x.b);
	default: return ref::mod(x.a + x.b);
	}
}
// coefficient k has the given form (0: real part, 1: imaginary part, 2: difference, 3: sum)
inline bool withForm(F12& out, int k, int how, const Z& want, Rnd& rnd)
{
	F2 u, a2;
	rnd.get(u);
	rnd.get(a2);
	std::vector<F1> xs, ys;
	for (int t = 1; xs.size() < 30; t++) {
		const F2 a1 = u * F2(t);
		const F12 a = sextic(a1, a2);
		F12 d = a * a;
		d.c[2] = d.c[2] - F2(1);
		const F2 n = normOf(d);
		const Z nn = ref::mod((n.a * n.a + n.b * n.b) * ref::powm(Z(t), 12, ref::C.p)); // clears the poles at t = 0
		xs.push_back(F1(t));
		ys.push_back(F1(ref::mod((form(member(a1, a2).c[k], how) - want) * nn)));
	}
	F1 t;
	if (!Poly<F1>::root(t, Poly<F1>::interpolate(xs, ys), rnd) || t.isZero()) return false;
	out = member(u * F2(t), a2);
	return form(out.c[k], how) == ref::mod(want) && isMember(out);
}
// coefficient k has the given value
inline bool withValue(F12& out, int k, const F2& want, Rnd& rnd)
{
	F2 u, a2;
	rnd.get(u);
	rnd.get(a2);
	std::vector<F2> xs, ys;
	for (int t = 1; xs.size() < 18; t++) {
		const F2 a1 = u * F2(t);
		const F12 a = sextic(a1, a2);
		F12 d = a * a;
		d.c[2] = d.c[2] - F2(1);
		xs.push_back(F2(t));
		ys.push_back((member(a1, a2).c[k] - want) * normOf(d) * F2(ref::powm(Z(t), 6, ref::C.p), Z(0)));
	}
	F2 t;
	if (!Poly<F2>::root(t, Poly<F2>::interpolate(xs, ys), rnd) || t.isZero()) return false;
	out = member(u * t, a2);
	return out.c[k] == want && isMember(out);
}

// cube root in F2, by definition of the group order: p^2 - 1 = 3^k m
inline bool cubeRoot(ref::F2& y, const ref::F2& x)
{
	if (x.isZero()) { y = x; return true; }
	const Z n = ref::C.p * ref::C.p - 1;
	if (!(ref::pow(x, n / 3) == ref::F2(1))) return false;
	Z m = n;
	unsigned k = 0;
	while (m % 3 == 0) { m /= 3; k++; }
	// x = x^(1 - m e) x^(m e), 3 | 1 - m e
	Z e = m % 3 == 1 ? Z(1) : Z(2);
	ref::F2 a = ref::pow(x, Z(m * e - 1) / 3).inv(); // a^3 x^(m e) = x
	// t = x^(m e) has order dividing 3^(k-1): search its cube root among the 3^k-th roots of unity
	static ref::F2 g;
	static Z gp = 0;
	if (gp != ref::C.p) {
		for (int i = 1;; i++) {
			ref::F2 c(Z(i), Z(1));
			if (!(ref::pow(c, n / 3) == ref::F2(1))) { g = ref::pow(c, m); break; }
		}
		gp = ref::C.p;
	}
	ref::F2 t = ref::pow(x, m * e), b(1), q(1);
	const ref::F2 g3 = g * g * g;
	Z ord = 1;
	for (unsigned i = 0; i < k; i++) ord *= 3;
	for (Z i = 0; i < ord; i += 1) { // b = g^i, q = g^(3 i)
		if (q == t) { y = a * b; return y * y * y == x; }
		b = b * g;
		q = q * g3;
		if (i > 100000) return false;
	}
	return false;
}

// elements of the cyclotomic subgroup with a vanishing coordinate:
// kind 0: coefficient of w is 0, kind 1: coefficient of w^5 is 0
inline bool special(ref::F12& out, const ref::F2& tau, int kind)
{
	const ref::F2 xi = ref::xi(), t2 = tau * tau, three(3), eight(8);
	ref::F2 g2, g3, g4, g5, y;
	if (kind == 0) {
		ref::F2 d = three * t2 + xi;
		if (d.isZero()) return false;
		if (!cubeRoot(y, eight * (t2 * tau + three * tau * xi) * (xi * d * d * d).inv())) return false;
		if (y.isZero()) return false;
		g5 = y;
		g4 = tau * g5;
		g3 = g5 * g5 * d * ref::F2(2).inv();
	} else {
		ref::F2 d = t2 + three * xi;
		if (d.isZero()) return false;
		if (!cubeRoot(y, eight * (three * t2 + xi) * (d * d * d).inv())) return false;
		if (y.isZero()) return false;
		g3 = y;
		g2 = tau * g3;
		g4 = g3 * g3 * d * ref::F2(2).inv();
	}
	// b = g2 + g3 s, c = g4 + g5 s, a = (b^2 - conj c) / c with s = w^3
	ref::F12 b, c, cb;
	b.c[0] = g2; b.c[3] = g3;
	c.c[0] = g4; c.c[3] = g5;
	cb.c[0] = g4; cb.c[3] = -g5;
	ref::F12 a = (b * b - cb) * c.inv();
	ref::F12 r;
	r.c[0] = a.c[0]; r.c[3] = a.c[3];
	r.c[1] = g2; r.c[4] = g3;
	r.c[2] = g4; r.c[5] = g5;
	// membership, from the definition
	ref::F12 p2 = ref::frob(ref::frob(r)), p4 = ref::frob(ref::frob(p2));
	if (r.isZero() || !(p4 * r == p2)) return false;
	out = r;
	return true;
}
// the same with a form (see above) of one of the other coordinates zero: on a line of values of tau the cube of that
// coordinate over the cube of a number of that form has to be in the prime field
inline bool vanishing(F12& out, int kind, int coord, int how, Rnd& rnd)
{
	const F2 xi = ref::xi(), e = how == 0 ? F2(Z(0), Z(1)) : how == 1 ? F2(1) : how == 2 ? F2(Z(1), Z(1)) : F2(Z(1), ref::mod(Z(-1)));
	const F2 ie3 = (e * e * e).inv();
	F2 t0, t1;
	rnd.get(t0);
	rnd.get(t1);
	std::vector<F1> xs, ys;
	for (int t = 0; xs.size() < 16; t++) {
		const F2 tau = t0 + t1 * F2(t), u = tau * tau;
		const F2 d = kind == 0 ? F2(3) * u + xi : u + F2(3) * xi;
		if (d.isZero()) continue;
		const F2 y3 = kind == 0 ? F2(8) * (u * tau + F2(3) * tau * xi) * (xi * d * d * d).inv() : F2(8) * (F2(3) * u + xi) * (d * d * d).inv();
		// the cubes of y, tau y and y^2 d / 2
		const F2 q = coord == 0 ? y3 : coord == 1 ? u * tau * y3 : y3 * y3 * d * d * d * F2(8).inv();
		const Z n = ref::mod(d.a * d.a + d.b * d.b);
		xs.push_back(F1(t));
		ys.push_back(F1(ref::mod((q * ie3).b * n * n * n)));
	}
	F1 t;
	if (!Poly<F1>::root(t, Poly<F1>::interpolate(xs, ys), rnd)) return false;
	if (!special(out, t0 + t1 * F2(t.v, Z(0)), kind)) return false;
	const int k = kind == 0 ? (coord == 0 ? 5 : coord == 1 ? 2 : 4) : (coord == 0 ? 4 : coord == 1 ? 1 : 2);
	return out.c[kind == 0 ? 1 : 5].isZero() && form(out.c[k], how) == 0 && isMember(out);
}

inline Z edgeValue(u64 i, Rnd& rnd)
{
	const Z& p = ref::C.p;
	Z raw;
	switch (i % 8) {
	case 0: return 0;
	case 1: return 1;
	case 2: return p - 1;
	case 3: raw = 1; break; // raw images
	case 4: raw = p - 1; break;
	case 5: raw = ref::pow2(64 * (1 + (unsigned)(rnd.next() % 3))) - (long)(rnd.next() % 2); break;
	case 6: raw = p / 2 + (long)(rnd.next() % 2); break;
	default: raw = ref::pow2(253) - (long)(rnd.next() % 3); break;
	}
	return ref::mod(ref::mod(raw) * ref::C.Rinv);
}

// a member that depends on the index only; found once in a process
inline const F12& get(u64 index)
{
	static std::map<u64, F12> found;
	std::map<u64, F12>::iterator it = found.find(index);
	if (it != found.end()) return it->second;
	Rnd rnd(index + 1);
	F12 r;
	for (int i = 0;; i++) {
		if (i == 16) { r = F12(1); break; }
		const u64 kind = index % 30;
		if (kind < 24) {
			if (withForm(r, (int)(kind % 6), (int)(kind / 6), edgeValue(index / 30, rnd), rnd)) break;
		} else {
			const F2 v = F2(edgeValue(index / 30, rnd), edgeValue(index / 240, rnd));
			if (withValue(r, (int)(kind - 24), v, rnd)) break;
		}
	}
	return found[index] = r;
}

inline const F12& getVanishing(u64 index)
{
	static std::map<u64, F12> found;
	std::map<u64, F12>::iterator it = found.find(index);
	if (it != found.end()) return it->second;
	Rnd rnd(index + 1000003);
	const int k = (int)(index % 24);
	F12 r;
	for (int i = 0;; i++) {
		if (i == 40) { r = F12(1); break; }
		if (vanishing(r, k & 1, k / 2 % 3, k / 6, rnd)) break;
	}
	return found[index] = r;
}

} // cyclospec
