// The classes of the Java binding as objects holding mathematical values: histories against a model, seen through
// their own text, comparisons and coordinates only.
#define PT_CUSTOM_INIT
#include "text.h"
#include <iostream>
#include <iomanip>
#include <stdexcept>
#include <memory>
#include <algorithm>
#include <map>
#include <stdio.h>
#include <stdlib.h>
namespace jv {
#include "bn254_if.hpp"
}

void pt::initLibrary()
{
	refInit(pt::cfg.curve);
	jv::SystemInit();
}

/////////////////////////////////////////////////////////////////////////////
// reading what the objects say

// the numerals of a text of the form of the pattern, white space aside
static bool numbers(std::vector<Z>& v, const std::string& text, const std::string& pattern)
{
	std::string t;
	for (size_t i = 0; i < text.size(); i++) if (!blank(text[i])) t += text[i];
	size_t at = 0;
	for (size_t i = 0; i < pattern.size(); i++) {
		if (pattern[i] != '#') {
			if (at >= t.size() || t[at] != pattern[i]) return false;
			at++;
			continue;
		}
		size_t e = at;
		while (e < t.size() && isalnum((unsigned char)t[e])) e++;
		Z z;
		if (!parseNumeral(z, t.substr(at, e - at), false)) return false;
		v.push_back(z);
		at = e;
	}
	return at == t.size();
}
static const std::string kP2 = "[#,#]", kP6 = "[" + kP2 + "," + kP2 + "," + kP2 + "]", kP12 = "[" + kP6 + "," + kP6 + "]";

typedef ref::F1 F1;
typedef ref::F2 F2;
typedef ref::F12 F12;
static std::string txt(const F1& x) { return x.v.get_str(); }
static std::string txt(const F2& x) { return "[" + x.a.get_str() + "," + x.b.get_str() + "]"; }
static std::string txt(const F12& x)
{
	// nested tuples hold the coefficients of w^0, w^2, w^4 and w, w^3, w^5
	return "[[" + txt(x.c[0]) + "," + txt(x.c[2]) + "," + txt(x.c[4]) + "],[" + txt(x.c[1]) + "," + txt(x.c[3]) + "," + txt(x.c[5]) + "]]";
}
template<class F> static std::string txt(const ref::Pt<F>& p) { return p.inf ? std::string("0") : txt(p.x) + "_" + txt(p.y); }

static F1 readF1(const std::string& t)
{
	std::vector<Z> v;
	if (!numbers(v, t, "#") || v[0] >= ref::C.p) pt::fail("not the text of a field element: " + quoted(t));
	return F1(v[0]);
}
static F2 readF2(const std::string& t)
{
	std::vector<Z> v;
	if (!numbers(v, t, kP2) || v[0] >= ref::C.p || v[1] >= ref::C.p) pt::fail("not the text of a field element: " + quoted(t));
	F2 r;
	r.a = v[0];
	r.b = v[1];
	return r;
}

/////////////////////////////////////////////////////////////////////////////
// pools

static const size_t N = 3;
struct World {
	jv::Mpz m[N];
	jv::Fp a[N];
	jv::Fp2 b[N];
	jv::Fp12 d[N];
	jv::Ec1 p[N];
	jv::Ec2 q[N];
	Z M[N];
	F1 A[N];
	F2 B[N];
	F12 D[N];
	ref::P1 P[N];
	ref::P2 Q[N];
};

static std::vector<Z> list(const F1& x) { return std::vector<Z>(1, x.v); }
static std::vector<Z> list(const F2& x) { std::vector<Z> r(1, x.a); r.push_back(x.b); return r; }
static std::vector<Z> list(const F12& x)
{
	static const int at[] = { 0, 2, 4, 1, 3, 5 };
	std::vector<Z> r;
	for (int i = 0; i < 6; i++) { r.push_back(x.c[at[i]].a); r.push_back(x.c[at[i]].b); }
	return r;
}
static const std::string& patternOf(const F1&) { static const std::string p("#"); return p; }
static const std::string& patternOf(const F2&) { return kP2; }
static const std::string& patternOf(const F12&) { return kP12; }
template<class T, class M> static void same(const T& x, const M& want, const char *what)
{
	const std::string t = x.toString();
	std::vector<Z> v;
	PT_CHECK(numbers(v, t, patternOf(want)) && v == list(want), what << " is " << t << " instead of " << txt(want));
}
template<class T, class F> static void same(const T& x, const ref::Pt<F>& want, const char *what)
{
	const std::string t = x.toString();
	if (want.inf) { PT_CHECK(t == "0", what << " is " << t << " instead of 0"); return; }
	std::vector<Z> v, w = list(want.x);
	const std::vector<Z> y = list(want.y);
	w.insert(w.end(), y.begin(), y.end());
	PT_CHECK(numbers(v, t, patternOf(want.x) + "_" + patternOf(want.x)) && v == w, what << " is " << t << " instead of " << txt(want));
}
static void same(const jv::Mpz& x, const Z& want, const char *what) { PT_CHECK(x.toString() == want.get_str(), what << " is " << x.toString() << " instead of " << want); }

// coordinates of a point, in whatever representative
static void coordinates(jv::Ec1& e, const ref::P1& want)
{
	const F1 x = readF1(e.getX().toString()), y = readF1(e.getY().toString()), z = readF1(e.getZ().toString());
	PT_CHECK(z.isZero() == want.inf, "third coordinate of " << txt(want) << " is " << txt(z));
	if (!want.inf) PT_CHECK(x == want.x * z * z && y == want.y * z * z * z, "coordinates of " << txt(want) << " are " << txt(x) << ", " << txt(y) << ", " << txt(z));
}
static void coordinates(jv::Ec2& e, const ref::P2& want)
{
	const F2 x = readF2(e.getX().toString()), y = readF2(e.getY().toString()), z = readF2(e.getZ().toString());
	PT_CHECK(z.isZero() == want.inf, "third coordinate of " << txt(want) << " is " << txt(z));
	if (!want.inf) PT_CHECK(x == want.x * z * z && y == want.y * z * z * z, "coordinates of " << txt(want) << " are " << txt(x) << ", " << txt(y) << ", " << txt(z));
}
// everything, copies first so that writing text (which may normalise) does not hide a difference
static void compareAll(World& w)
{
	for (size_t i = 0; i < N; i++) {
		same(w.m[i], w.M[i], "Mpz");
		same(w.a[i], w.A[i], "Fp");
		same(w.b[i], w.B[i], "Fp2");
		PT_CHECK(readF1(w.b[i].getA().toString()).v == w.B[i].a && readF1(w.b[i].getB().toString()).v == w.B[i].b, "Fp2 getA, getB");
		same(w.d[i], w.D[i], "Fp12");
		coordinates(w.p[i], w.P[i]);
		coordinates(w.q[i], w.Q[i]);
		PT_CHECK(w.p[i].isZero() == w.P[i].inf && w.q[i].isZero() == w.Q[i].inf, "isZero");
		PT_CHECK(w.p[i].isValid() && w.q[i].isValid(), "isValid");
		same(jv::Ec1(w.p[i]), w.P[i], "Ec1");
		same(jv::Ec2(w.q[i]), w.Q[i], "Ec2");
		for (size_t j = 0; j < N; j++) {
			PT_CHECK(w.m[i].equals(w.m[j]) == (w.M[i] == w.M[j]), "Mpz equals");
			const int k = w.m[i].compareTo(w.m[j]);
			PT_CHECK((k > 0) - (k < 0) == (w.M[i] > w.M[j]) - (w.M[i] < w.M[j]), "Mpz compareTo");
			PT_CHECK(w.a[i].equals(w.a[j]) == (w.A[i] == w.A[j]), "Fp equals");
			PT_CHECK(w.b[i].equals(w.b[j]) == (w.B[i] == w.B[j]), "Fp2 equals");
			PT_CHECK(w.d[i].equals(w.d[j]) == (w.D[i] == w.D[j]), "Fp12 equals");
			PT_CHECK(w.p[i].equals(w.p[j]) == (w.P[i] == w.P[j]), "Ec1 equals");
			PT_CHECK(w.q[i].equals(w.q[j]) == (w.Q[i] == w.Q[j]), "Ec2 equals");
		}
	}
}

static F1 someF1(Src& s) { return f1(genFp(s)); }
static F2 someF2(Src& s) { return f2(genFp2(s)); }
static Z someZ(Src& s)
{
	Z r = genBits(s, s.chance(1, 5) ? 900 : s.flip() ? 256 : 32);
	return s.chance(1, 3) ? Z(-r) : r;
}
static int someInt(Src& s) { return s.chance(1, 6) ? (s.flip() ? 0x7fffffff : (int)0x80000000) : s.flip() ? (int)s.below(7) - 3 : (int)(uint32_t)s.word(); }
static std::string numeralOf(Src& s, const Z& x) { return variant(s, x, s.flip() ? 16 : 10); }
static std::string numeralOfMpz(Src& s, const Z& x) { return numeral(x, s.flip() ? 16 : 10); }
static std::string textOf(Src& s, const F2& x) { return "[" + numeralOf(s, x.a) + "," + numeralOf(s, x.b) + "]"; }
static std::string textOf(Src& s, const F12& x)
{
	return "[[" + textOf(s, x.c[0]) + "," + textOf(s, x.c[2]) + "," + textOf(s, x.c[4]) + "],[" + textOf(s, x.c[1]) + "," + textOf(s, x.c[3]) + "," + textOf(s, x.c[5]) + "]]";
}
static F12 someF12(Src& s) { return f12(genFp12(s)); }

static void setF1(jv::Fp& x, F1& X, Src& s)
{
	switch (s.below(4)) {
	case 0: { const int v = someInt(s); x.set(v); X = F1(ref::mod(zi(v))); break; }
	case 1: { const int v = someInt(s); x = jv::Fp(v); X = F1(ref::mod(zi(v))); break; }
	case 2: X = someF1(s); x.set(numeralOf(s, X.v)); break;
	default: X = someF1(s); x = jv::Fp(numeralOf(s, X.v)); break;
	}
}
static jv::Fp fpJ(Src& s, const F1& X) { return jv::Fp(numeralOf(s, X.v)); }
static jv::Fp2 fp2J(Src& s, const F2& X) { return s.flip() ? jv::Fp2(numeralOf(s, X.a), numeralOf(s, X.b)) : jv::Fp2(fpJ(s, F1(X.a)), fpJ(s, F1(X.b))); }
static void setF2(jv::Fp2& x, F2& X, Src& s)
{
	switch (s.below(4)) {
	case 0: { const int v = someInt(s); x = jv::Fp2(v); X = F2(ref::mod(zi(v))); break; }
	case 1: { const int v = someInt(s), u = someInt(s); x = jv::Fp2(v, u); X = F2(ref::mod(zi(v)), ref::mod(zi(u))); break; }
	case 2: X = someF2(s); x.set(textOf(s, X)); break;
	default: X = someF2(s); x = fp2J(s, X); break;
	}
}
template<class F, class J, class E> static void setPoint(E& e, ref::Pt<F>& P, Src& s, const ref::Pt<F>& want, J (*make)(Src&, const F&), const F& z)
{
	P = want;
	switch (s.below(6)) {
	case 0: e.set(txt(P)); break;
	case 1:
		if (P.inf) { e = E(); break; }
		e = E(make(s, P.x), make(s, P.y));
		break;
	case 2:
		if (P.inf) { e.clear(); break; }
		e.set(make(s, P.x), make(s, P.y));
		break;
	default: {
		// a representative with third coordinate z
		const F u = P.inf ? F(0) : z;
		const J X = make(s, P.inf ? F(1) : P.x * z * z), Y = make(s, P.inf ? F(1) : P.y * z * z * z), W = make(s, u);
		if (s.flip()) e.set(X, Y, W);
		else e = E(X, Y, W);
		break;
	}
	}
}
static jv::Fp makeF1(Src& s, const F1& x) { return fpJ(s, x); }
static jv::Fp2 makeF2(Src& s, const F2& x) { return fp2J(s, x); }
static F1 nz1(Src& s) { F1 z = s.flip() ? F1(1) : someF1(s); return z.isZero() ? F1(1) : z; }
static F2 nz2(Src& s) { F2 z = s.flip() ? F2(1) : someF2(s); return z.isZero() ? F2(1) : z; }
static ref::P1 someP1(Src& s) { return s.chance(1, 10) ? ref::P1() : genP1(s); }
static ref::P2 someP2(Src& s, bool any) { return s.chance(1, 10) ? ref::P2() : any && s.chance(1, 4) ? genP2any(s) : genP2fast(s); }

// an exponent of either sign
static Z exponent(const Z& m, Src& s)
{
	const Z e = ref::modn(m, ref::pow2(s.chance(1, 4) ? 128 : 20));
	return s.chance(1, 3) ? Z(-e) : e;
}
// x^e; a negative power of zero has no value and is refused
template<class J, class F, class Pow, class Inv> static void power(J& x, F& X, const Z& e, Pow pow, Inv inv)
{
	if (e < 0 && X.isZero()) {
		bool threw = false;
		try { x.power(jv::Mpz(e.get_str())); } catch (std::exception&) { threw = true; }
		PT_CHECK(threw, "zero to the power " << e << " gave " << x.toString());
		return;
	}
	x.power(jv::Mpz(e.get_str()));
	const F r = pow(X, Z(abs(e)));
	X = e < 0 ? inv(r) : r;
}

// fills everything; exactly the objects made here are used afterwards
static void fill(World& w, Src& s, bool anyQ)
{
	for (size_t i = 0; i < N; i++) {
		w.M[i] = i && s.chance(1, 4) ? w.M[i - 1] : someZ(s);
		w.m[i].set(numeralOfMpz(s, w.M[i]));
		setF1(w.a[i], w.A[i], s);
		setF2(w.b[i], w.B[i], s);
		w.D[i] = someF12(s);
		w.d[i].set(textOf(s, w.D[i]));
		setPoint<F1, jv::Fp>(w.p[i], w.P[i], s, i && s.chance(1, 4) ? w.P[i - 1] : someP1(s), makeF1, nz1(s));
		setPoint<F2, jv::Fp2>(w.q[i], w.Q[i], s, i && s.chance(1, 4) ? w.Q[i - 1] : someP2(s, anyQ), makeF2, nz2(s));
	}
}

static const char *const kStep[] = {
	"Mpz arithmetic", "Mpz set", "Fp arithmetic", "Fp set", "Fp power", "Fp2 arithmetic", "Fp2 set", "Fp2 power", "Fp2 coefficient",
	"Fp12 arithmetic", "Fp12 set", "Ec1 group", "Ec1 set", "Ec2 group", "Ec2 set", "coordinate copies", "coordinates changed", "copies",
	"Fp12 power", "Ec1 mul", "Ec2 mul", "pairing" };
enum { kSteps = sizeof(kStep) / sizeof(kStep[0]), kCheap = 18 };

static void step(World& w, Src& s, Case& c, size_t k)
{
	const size_t i = s.below(N), j = s.below(N);
	const u64 how = s.below(8);
	c.cls(kStep[k]);
	if (c.verbose) { std::ostringstream os; os << kStep[k] << ' ' << i << ' ' << j << ' ' << how; c.say(os.str()); }
	switch (k) {
	case 0:
		switch (how % 4) {
		case 0: w.m[i].add(w.m[j]); w.M[i] += w.M[j]; break;
		case 1: w.m[i].sub(w.m[j]); w.M[i] -= w.M[j]; break;
		case 2: if (mpz_sizeinbase(w.M[i].get_mpz_t(), 2) < 4000) { w.m[i].mul(w.m[j]); w.M[i] *= w.M[j]; } break;
		default:
			if (w.M[j] == 0) {
				bool threw = false;
				try { w.m[i].mod(w.m[j]); } catch (std::exception&) { threw = true; }
				PT_CHECK(threw, "a remainder by zero");
				break;
			}
			w.m[i].mod(w.m[j]);
			{
				const Z before = w.M[i];
				const Z got(w.m[i].toString());
				PT_CHECK((before - got) % w.M[j] == 0 && abs(got) < abs(w.M[j]), before << " mod " << w.M[j] << " is " << got);
				PT_CHECK(got == 0 || sgn(got) == sgn(before), "sign of " << before << " mod " << w.M[j] << ": " << got);
				w.M[i] = got;
			}
			break;
		}
		break;
	case 1:
		switch (how % 4) {
		case 0: { const int v = someInt(s); w.m[i].set(v); w.M[i] = zi(v); break; }
		case 1: { const int v = someInt(s); w.m[i] = jv::Mpz(v); w.M[i] = zi(v); break; }
		case 2: w.M[i] = someZ(s); w.m[i].set(numeralOfMpz(s, w.M[i])); break;
		default: w.M[i] = someZ(s); w.m[i] = jv::Mpz(numeralOfMpz(s, w.M[i])); break;
		}
		break;
	case 2:
		switch (how % 3) {
		case 0: w.a[i].add(w.a[j]); w.A[i] = w.A[i] + w.A[j]; break;
		case 1: w.a[i].sub(w.a[j]); w.A[i] = w.A[i] - w.A[j]; break;
		default: w.a[i].mul(w.a[j]); w.A[i] = w.A[i] * w.A[j]; break;
		}
		break;
	case 3: setF1(w.a[i], w.A[i], s); break;
	case 4: {
		power(w.a[i], w.A[i], s.flip() ? w.M[j] : exponent(w.M[j], s),
			[](const F1& x, const Z& e) { return F1(ref::powm(x.v, e, ref::C.p)); }, [](const F1& x) { return x.inv(); });
		break;
	}
	case 5:
		switch (how % 3) {
		case 0: w.b[i].add(w.b[j]); w.B[i] = w.B[i] + w.B[j]; break;
		case 1: w.b[i].sub(w.b[j]); w.B[i] = w.B[i] - w.B[j]; break;
		default: w.b[i].mul(w.b[j]); w.B[i] = w.B[i] * w.B[j]; break;
		}
		break;
	case 6: setF2(w.b[i], w.B[i], s); break;
	case 7: {
		power(w.b[i], w.B[i], exponent(w.M[j], s), [](const F2& x, const Z& e) { return ref::pow(x, e); }, [](const F2& x) { return x.inv(); });
		break;
	}
	case 8: { // a coefficient is a field element of its own that belongs to the object
		jv::Fp& x = how & 1 ? w.b[i].getA() : w.b[i].getB();
		Z& X = how & 1 ? w.B[i].a : w.B[i].b;
		const Z Y = how & 2 ? w.A[j].v : w.B[j].b;
		jv::Fp& y = how & 2 ? w.a[j] : w.b[j].getB();
		switch (how / 4 + 2 * s.below(2)) {
		case 0: x.add(y); X = ref::mod(X + Y); break;
		case 1: x.sub(y); X = ref::mod(X - Y); break;
		case 2: x.mul(y); X = ref::mod(X * Y); break;
		default: { F1 t(X); setF1(x, t, s); X = t.v; break; }
		}
		break;
	}
	case 9:
		switch (how % 3) {
		case 0: w.d[i].add(w.d[j]); w.D[i] = w.D[i] + w.D[j]; break;
		case 1: w.d[i].sub(w.d[j]); w.D[i] = w.D[i] - w.D[j]; break;
		default: w.d[i].mul(w.d[j]); w.D[i] = w.D[i] * w.D[j]; break;
		}
		break;
	case 10:
		if (how & 1) { const int v = someInt(s); w.d[i] = jv::Fp12(v); w.D[i] = F12(F2(ref::mod(zi(v)))); }
		else { w.D[i] = someF12(s); w.d[i].set(textOf(s, w.D[i])); }
		break;
	case 11:
		switch (how % 5) {
		case 0: w.p[i].add(w.p[j]); w.P[i] = ref::add(w.P[i], w.P[j]); break;
		case 1: w.p[i].sub(w.p[j]); w.P[i] = ref::add(w.P[i], -w.P[j]); break;
		case 2: w.p[i].dbl(); w.P[i] = ref::dbl(w.P[i]); break;
		case 3: w.p[i].neg(); w.P[i] = -w.P[i]; break;
		default: if (s.chance(1, 4)) { w.p[i].clear(); w.P[i] = ref::P1(); } break;
		}
		break;
	case 12: setPoint<F1, jv::Fp>(w.p[i], w.P[i], s, s.flip() ? w.P[j] : someP1(s), makeF1, nz1(s)); break;
	case 13:
		switch (how % 5) {
		case 0: w.q[i].add(w.q[j]); w.Q[i] = ref::add(w.Q[i], w.Q[j]); break;
		case 1: w.q[i].sub(w.q[j]); w.Q[i] = ref::add(w.Q[i], -w.Q[j]); break;
		case 2: w.q[i].dbl(); w.Q[i] = ref::dbl(w.Q[i]); break;
		case 3: w.q[i].neg(); w.Q[i] = -w.Q[i]; break;
		default: if (s.chance(1, 4)) { w.q[i].clear(); w.Q[i] = ref::P2(); } break;
		}
		break;
	case 14: setPoint<F2, jv::Fp2>(w.q[i], w.Q[i], s, s.flip() ? w.Q[j] : someP2(s, false), makeF2, nz2(s)); break;
	case 15: { // a copy of a coordinate does not follow the point, nor the point the copy
		jv::Fp x(w.p[i].getX()), z(how & 1 ? w.p[i].getZ() : w.p[i].getY());
		jv::Fp2 u(w.q[i].getX());
		const std::string tx = x.toString(), tz = z.toString(), tu = u.toString();
		w.p[i].add(w.p[j]);
		w.P[i] = ref::add(w.P[i], w.P[j]);
		w.q[i].dbl();
		w.Q[i] = ref::dbl(w.Q[i]);
		PT_CHECK(x.toString() == tx && z.toString() == tz && u.toString() == tu, "a copy of a coordinate changed with its point");
		x.add(z);
		z.set(7);
		u.mul(u);
		break;
	}
	case 16: // through its coordinates: the negative, another representative
		if (how & 1) {
			if (how & 2) w.p[i].getY().mul(jv::Fp(-1));
			else { const F1 t = F1(0) - readF1(w.p[i].getY().toString()); w.p[i].getY().set(numeralOf(s, t.v)); }
			w.P[i] = -w.P[i];
			w.q[i].getY().mul(jv::Fp2(-1));
			w.Q[i] = -w.Q[i];
		} else {
			const F1 t = nz1(s);
			w.p[i].getX().mul(fpJ(s, t * t));
			w.p[i].getY().mul(fpJ(s, t * t * t));
			w.p[i].getZ().mul(fpJ(s, t));
			const F2 u = nz2(s);
			w.q[i].getX().mul(fp2J(s, u * u));
			w.q[i].getY().mul(fp2J(s, u * u * u));
			w.q[i].getZ().mul(fp2J(s, u));
			if (how & 4) { w.p[i].set(w.p[i].getX(), w.p[i].getY(), w.p[i].getZ()); w.q[i].set(w.q[i].getX(), w.q[i].getY(), w.q[i].getZ()); }
		}
		break;
	case 17:
		w.m[i] = jv::Mpz(w.m[j]); w.M[i] = w.M[j];
		if (how & 1) { w.a[i] = jv::Fp(w.a[j]); w.A[i] = w.A[j]; }
		if (how & 2) { w.b[i] = jv::Fp2(w.b[j]); w.B[i] = w.B[j]; w.d[j] = jv::Fp12(w.d[i]); w.D[j] = w.D[i]; }
		if (how & 4) { w.p[i] = jv::Ec1(w.p[j]); w.P[i] = w.P[j]; w.q[j] = jv::Ec2(w.q[i]); w.Q[j] = w.Q[i]; }
		break;
	case 18: {
		power(w.d[i], w.D[i], exponent(w.M[j], s), [](const F12& x, const Z& e) { return ref::pow(x, e); }, [](const F12& x) { return x.inv(); });
		break;
	}
	case 19: w.p[i].mul(w.m[j]); w.P[i] = fastMul(w.P[i], w.M[j]); break;
	case 20: w.q[i].mul(w.m[j]); w.Q[i] = fastMul(w.Q[i], w.M[j]); break;
	default: {
		const size_t k = s.below(N);
		w.d[i].pairing(w.q[j], w.p[k]);
		w.D[i] = ref::pairing(w.Q[j], w.P[k]);
		break;
	}
	}
}

static void run(Src& s, Case& c, size_t maxLen, int cost)
{
	World w;
	for (size_t i = 0; i < N; i++) PT_CHECK(w.p[i].isZero() && w.q[i].isZero() && w.p[i].isValid() && w.q[i].isValid(), "a new point is not the point at infinity");
	fill(w, s, cost < 2);
	const size_t n = s.range(1, maxLen);
	c.nontrivial(n >= 3);
	for (size_t i = 0; i < n; i++) {
		const bool big = cost == 2 ? s.chance(1, 4) : cost == 1 && s.chance(1, 6);
		step(w, s, c, big ? (cost == 2 ? kSteps - 1 : kCheap + s.below(3)) : s.below(kCheap));
		// texts of points normalise them: not after every step
		if (s.chance(1, 6)) compareAll(w);
	}
	compareAll(w);
}
PT_TEST(fresh, 200, 2000)
{
	(void)s;
	c.nontrivial();
	jv::Ec1 p, p2;
	jv::Ec2 q;
	PT_CHECK(p.isZero() && q.isZero() && p.isValid() && q.isValid() && p.toString() == "0" && q.toString() == "0", "a new point is not the point at infinity");
	const ref::P1 P = genP1(s);
	setPoint<F1, jv::Fp>(p2, const_cast<ref::P1&>(P), s, P, makeF1, nz1(s));
	p.add(p2);
	same(p, P, "infinity plus a point");
	PT_CHECK(jv::Ec1().equals(jv::Ec1()) && !jv::Ec1().equals(p2), "equals of new points");
	jv::Fp12 f(3), one(1);
	f.pairing(q, p2);
	PT_CHECK(f.equals(one), "pairing with a new point is not one");
	jv::Mpz z;
	PT_CHECK(z.toString() == "0", "a new Mpz");
	if (pt::cfg.curve == "bn254") PT_CHECK(jv::GetParamR().toString() == ref::C.r.get_str(), "GetParamR");
}
PT_TEST(cheap, 3000, 120000) { run(s, c, 40, 0); }
PT_TEST(larger, 300, 15000) { run(s, c, 20, 1); }
PT_TEST(pairings, 30, 1500) { run(s, c, 8, 2); }

/////////////////////////////////////////////////////////////////////////////
// errors

static std::string edited(Src& s, std::string t)
{
	static const char *const bits[] = { "-", "+", " ", "0x", "x", "0X", "a", "g", "_", ",", "[", "]", "\n", ".", "", "0", "9", "1234567890123456789012345678901234567890", "h" };
	for (size_t n = s.range(1, 3); n; n--) {
		const size_t at = s.flip() ? (size_t)s.below(t.size() + 1) : s.flip() ? 0 : t.size();
		switch (s.below(5)) {
		case 0: if (at < t.size()) t.erase(at, 1 + (size_t)s.below(3)); break;
		case 1: t = t.substr(0, at); break;
		case 2: if (at < t.size()) t[at] = "0aA[],_-+ x\0\xff"[s.below(13)]; break;
		case 3: if (s.chance(1, 8)) t.insert(at, std::string((size_t)s.below(300), '7')); else t.insert(at, t.substr(at, 2)); break;
		default: t.insert(at, bits[s.below(sizeof(bits) / sizeof(bits[0]))]); break;
		}
	}
	return t;
}
// white space is allowed between the parts of tuples, and in the Fp class nowhere
struct Tuple {
	const std::string& t;
	size_t at;
	std::vector<Z> v;
	Tuple(const std::string& t) : t(t), at(0) {}
	void skip() { while (at < t.size() && blank(t[at])) at++; }
	bool num()
	{
		skip();
		const size_t b = at;
		while (at < t.size() && (isxdigit((unsigned char)t[at]) || (t[at] == 'x' && at == b + 1 && t[b] == '0'))) at++;
		Z z;
		if (!parseNumeral(z, t.substr(b, at - b), false)) return false;
		v.push_back(z);
		return true;
	}
	bool match(const std::string& pattern)
	{
		for (size_t i = 0; i < pattern.size(); i++) {
			if (pattern[i] == '#') { if (!num()) return false; continue; }
			skip();
			if (at >= t.size() || t[at] != pattern[i]) return false;
			at++;
		}
		skip();
		return at == t.size();
	}
};
template<class T> static bool accepts(T& x, const std::string& t)
{
	try { x.set(t); return true; } catch (std::exception&) { return false; }
}
static bool belowP(const std::vector<Z>& v) { for (size_t i = 0; i < v.size(); i++) if (v[i] >= ref::C.p) return false; return true; }
static std::vector<Z> residues(std::vector<Z> v) { for (size_t i = 0; i < v.size(); i++) v[i] = ref::mod(v[i]); return v; }
template<class T> static void judge(Case& c, T& x, const std::string& t, bool ok, const std::vector<Z>& v, const std::string& pattern, const char *what)
{
	c.say(std::string(what) + " " + quoted(t));
	const bool got = accepts(x, t);
	c.cls(ok ? (belowP(v) ? "well formed" : "not below p") : "malformed");
	if (!ok) { PT_CHECK(!got, what << ".set accepts " << quoted(t) << " as " << x.toString()); return; }
	if (belowP(v)) PT_CHECK(got, what << ".set refuses " << quoted(t));
	if (!got) return;
	std::vector<Z> r;
	PT_CHECK(numbers(r, x.toString(), pattern) && r == residues(v), what << ".set reads " << quoted(t) << " as " << x.toString());
}
PT_TEST(badText, 20000, 600000)
{
	c.nontrivial();
	switch (s.below(6)) {
	case 0: {
		const std::string t = edited(s, numeralOfMpz(s, someZ(s)));
		c.say("Mpz " + quoted(t));
		// the rules of mpz_set_str; nothing after a zero character is text
		Z want;
		const bool ok = want.set_str(t, 0) == 0;
		jv::Mpz x(5);
		const bool got = accepts(x, t);
		c.cls(ok ? "well formed" : "malformed");
		PT_CHECK(got == ok, "Mpz.set " << (got ? "accepts " : "refuses ") << quoted(t));
		if (ok) same(x, want, "Mpz");
		bool ctor = true;
		try { jv::Mpz y(t); } catch (std::exception&) { ctor = false; }
		PT_CHECK(ctor == ok, "Mpz(String) " << (ctor ? "accepts " : "refuses ") << quoted(t));
		break;
	}
	case 1: {
		const std::string t = edited(s, numeralOf(s, genText(s)));
		Z z;
		const bool ok = parseNumeral(z, t, false);
		jv::Fp x(5);
		judge(c, x, t, ok, std::vector<Z>(1, z), "#", "Fp");
		bool ctor = true;
		try { jv::Fp y(t); } catch (std::exception&) { ctor = false; }
		PT_CHECK(ok ? ctor || z >= ref::C.p : !ctor, "Fp(String) " << (ctor ? "accepts " : "refuses ") << quoted(t));
		try { ctor = true; jv::Fp2 y(t, "1"); jv::Fp2 y2("0", t); } catch (std::exception&) { ctor = false; }
		PT_CHECK(ok ? ctor || z >= ref::C.p : !ctor, "Fp2(String, String) " << (ctor ? "accepts " : "refuses ") << quoted(t));
		break;
	}
	case 2: {
		const std::string t = edited(s, textOf(s, someF2(s)));
		Tuple g(t);
		const bool ok = g.match(kP2);
		jv::Fp2 x(5);
		judge(c, x, t, ok, g.v, kP2, "Fp2");
		break;
	}
	case 3: {
		const std::string t = edited(s, textOf(s, someF12(s)));
		Tuple g(t);
		const bool ok = g.match(kP12);
		jv::Fp12 x(5);
		judge(c, x, t, ok, g.v, kP12, "Fp12");
		break;
	}
	case 4: {
		const ref::P1 P = someP1(s);
		const std::string t = edited(s, txt(P));
		const std::string u = strip(t);
		jv::Ec1 e;
		const bool got = accepts(e, t);
		c.say("Ec1 " + quoted(t));
		const size_t at = u.find('_');
		Z x, y;
		const bool ok = at != std::string::npos && parseNumeral(x, u.substr(0, at), false) && parseNumeral(y, u.substr(at + 1), false);
		c.cls(u == "0" || ok ? "well formed" : "malformed");
		if (u == "0") PT_CHECK(got && e.isZero(), "Ec1.set of zero");
		else if (!ok) PT_CHECK(!got, "Ec1.set accepts " << quoted(t) << " as " << e.toString());
		else {
			const ref::P1 Q(F1(ref::mod(x)), F1(ref::mod(y)));
			if (x < ref::C.p && y < ref::C.p && ref::on(Q)) PT_CHECK(got, "Ec1.set refuses " << quoted(t));
			if (got) PT_CHECK(readF1(e.getX().toString()) == Q.x && readF1(e.getY().toString()) == Q.y && !e.isZero(), "Ec1.set reads " << quoted(t) << " as " << e.toString());
		}
		break;
	}
	default: {
		const ref::P2 P = someP2(s, true);
		const std::string t = edited(s, P.inf ? std::string("0") : textOf(s, P.x) + "_" + textOf(s, P.y));
		const std::string u = strip(t);
		jv::Ec2 e;
		const bool got = accepts(e, t);
		c.say("Ec2 " + quoted(t));
		const size_t at = u.find('_');
		bool ok = at != std::string::npos && u.find_first_of(" \t\n\v\f\r") == std::string::npos;
		std::vector<Z> v;
		if (ok) {
			const std::string tx = u.substr(0, at), ty = u.substr(at + 1);
			Tuple g(tx), h(ty);
			ok = g.match(kP2) && h.match(kP2);
			v = g.v;
			v.insert(v.end(), h.v.begin(), h.v.end());
		}
		c.cls(u == "0" || ok ? "well formed" : "malformed");
		if (u == "0") PT_CHECK(got && e.isZero(), "Ec2.set of zero");
		else if (!ok) PT_CHECK(!got, "Ec2.set accepts " << quoted(t) << " as " << e.toString());
		else {
			const std::vector<Z> r = residues(v);
			F2 X, Y;
			X.a = r[0]; X.b = r[1]; Y.a = r[2]; Y.b = r[3];
			if (belowP(v) && ref::on(ref::P2(X, Y))) PT_CHECK(got, "Ec2.set refuses " << quoted(t));
			if (got) PT_CHECK(readF2(e.getX().toString()) == X && readF2(e.getY().toString()) == Y && !e.isZero(), "Ec2.set reads " << quoted(t) << " as " << e.toString());
		}
		break;
	}
	}
}
// coordinates that are no point are refused, by constructors and by set
PT_TEST(badPoint, 3000, 100000)
{
	c.nontrivial();
	const bool homogeneous = s.flip();
	bool got = true, want;
	if (s.flip()) {
		const ref::P1 P = genP1(s);
		const F1 z = homogeneous ? s.chance(1, 8) ? F1(0) : nz1(s) : F1(1);
		F1 x = P.x * z * z, y = P.y * z * z * z;
		switch (s.below(4)) {
		case 0: x = x + F1(1); break;
		case 1: y = someF1(s); break;
		case 2: std::swap(x, y); break;
		default: break;
		}
		want = z.isZero() || ref::on(ref::P1(x * (z * z).inv(), y * (z * z * z).inv()));
		c.cls(want ? "point" : "not a point");
		if (c.verbose) c.say(txt(x) + " " + txt(y) + " " + txt(z));
		try {
			if (homogeneous) { if (s.flip()) jv::Ec1(fpJ(s, x), fpJ(s, y), fpJ(s, z)); else { jv::Ec1 e; e.set(fpJ(s, x), fpJ(s, y), fpJ(s, z)); } }
			else { if (s.flip()) jv::Ec1(fpJ(s, x), fpJ(s, y)); else { jv::Ec1 e; e.set(fpJ(s, x), fpJ(s, y)); } }
		} catch (std::exception&) { got = false; }
	} else {
		const ref::P2 P = genP2any(s);
		const F2 z = homogeneous ? s.chance(1, 8) ? F2(0) : nz2(s) : F2(1);
		F2 x = P.x * z * z, y = P.y * z * z * z;
		switch (s.below(5)) {
		case 0: x = x + F2(1); break;
		case 1: y = someF2(s); break;
		case 2: std::swap(x, y); break;
		case 3: y.b = ref::mod(y.b + 1); break;
		default: break;
		}
		want = z.isZero() || ref::on(ref::P2(x * (z * z).inv(), y * (z * z * z).inv()));
		c.cls(want ? "point" : "not a point");
		if (c.verbose) c.say(txt(x) + " " + txt(y) + " " + txt(z));
		try {
			if (homogeneous) { if (s.flip()) jv::Ec2(fp2J(s, x), fp2J(s, y), fp2J(s, z)); else { jv::Ec2 e; e.set(fp2J(s, x), fp2J(s, y), fp2J(s, z)); } }
			else { if (s.flip()) jv::Ec2(fp2J(s, x), fp2J(s, y)); else { jv::Ec2 e; e.set(fp2J(s, x), fp2J(s, y)); } }
		} catch (std::exception&) { got = false; }
	}
	PT_CHECK(got == want, (want ? "a point is refused" : "coordinates of no point are accepted"));
}
