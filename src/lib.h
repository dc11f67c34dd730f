// Bridge between the library under test and the reference model: library
// initialisation for the current configuration, conversions, generators.
#pragma once
#include "engine.h"
#include "ref.h"
#include "bn.h"
#include <string.h>
#include <sstream>

namespace ref { Curve C; }

typedef mie::Fp Fp;
typedef bn::Fp2 Fp2;
typedef bn::Fp6 Fp6;
typedef bn::Fp12 Fp12;
typedef bn::FpDbl FpDbl;
typedef bn::Fp2Dbl Fp2Dbl;
typedef bn::Fp6Dbl Fp6Dbl;
typedef bn::Fp12Dbl Fp12Dbl;
typedef bn::Ec1 Ec1;
typedef bn::Ec2 Ec2;
typedef bn::Param Param;
typedef mie::Vuint Vuint;
typedef mie::Vsint Vsint;
typedef mie::Unit Unit;
typedef ref::Z Z;
using pt::u64;
using pt::Src;
using pt::Case;

inline bn::CurveParam curveOf(const std::string& name)
{
#ifdef BN_SUPPORT_SNARK
	if (name == "snark2") return bn::CurveSNARK2;
	return bn::CurveSNARK1;
#else
	(void)name;
	return bn::CurveFp254BNb;
#endif
}

inline void refInit(const std::string& name)
{
	if (name == "snark1") ref::init(Z("4965661367192848881"), 3, 9, 1);
	else if (name == "snark2") ref::init(Z("4965661367192848881"), 82, 9, 1);
	else ref::init(Z("-4647714815446351873"), 2, 1, 1); // -(2^62 + 2^55 + 1)
}

#ifndef PT_CUSTOM_INIT
void pt::initLibrary()
{
	refInit(pt::cfg.curve);
	bn::Param::init(curveOf(pt::cfg.curve), pt::cfg.mode, pt::cfg.mulx);
}
#endif

/////////////////////////////////////////////////////////////////////////////
// integers <-> words

inline Z zFromWords(const u64 *w, size_t n)
{
	Z r;
	mpz_import(r.get_mpz_t(), n, -1, 8, 0, 0, w);
	return r;
}
// low n words
inline void zToWords(u64 *w, size_t n, const Z& x)
{
	size_t have = mpz_size(x.get_mpz_t());
	for (size_t i = 0; i < n; i++) w[i] = i < have ? (u64)mpz_getlimbn(x.get_mpz_t(), (mp_size_t)i) : 0;
}
inline u64 zToLow(const Z& x) { u64 w; zToWords(&w, 1, x); return w; }
inline Z zu(u64 v) { return zFromWords(&v, 1); }
inline Z zi(int64_t v) { return v < 0 ? Z(-zu(0 - (u64)v)) : zu((u64)v); }

inline std::string hex(const Z& x) { return (x < 0 ? "-0x" : "0x") + Z(abs(x)).get_str(16); }

/////////////////////////////////////////////////////////////////////////////
// prime field

inline Z raw(const Fp& x) { return zFromWords((const u64*)&x, 4); }
inline void setRaw(Fp& x, const Z& r) { zToWords((u64*)&x, 4, r); }
inline Fp fromRaw(const Z& r) { Fp x; setRaw(x, r); return x; }
inline bool canon(const Fp& x) { return raw(x) < ref::C.p; }
// mathematical value (any raw below 2^256 is allowed)
inline Z val(const Fp& x) { return ref::mod(raw(x) * ref::C.Rinv); }
inline Fp fpOf(const Z& v) { return fromRaw(ref::mod(v * ref::C.Rm)); }

inline ref::F1 f1(const Fp& x) { return ref::F1(val(x)); }
inline Fp fpOf(const ref::F1& v) { return fpOf(v.v); }

inline ref::F2 f2(const Fp2& x) { ref::F2 r; r.a = val(x.a_); r.b = val(x.b_); return r; }
inline Fp2 fp2Of(const ref::F2& v) { return Fp2(fpOf(v.a), fpOf(v.b)); }
inline bool canon(const Fp2& x) { return canon(x.a_) && canon(x.b_); }
inline bool canon(const Fp6& x) { return canon(x.a_) && canon(x.b_) && canon(x.c_); }
inline bool canon(const Fp12& x) { return canon(x.a_) && canon(x.b_); }

// sextic extension as the w^0, w^2, w^4 part of F12
inline ref::F12 f6(const Fp6& x)
{
	ref::F12 r;
	r.c[0] = f2(x.a_);
	r.c[2] = f2(x.b_);
	r.c[4] = f2(x.c_);
	return r;
}
inline Fp6 fp6Of(const ref::F12& v) { return Fp6(fp2Of(v.c[0]), fp2Of(v.c[2]), fp2Of(v.c[4])); }
inline ref::F12 f12(const Fp12& x)
{
	ref::F12 r;
	r.c[0] = f2(x.a_.a_);
	r.c[2] = f2(x.a_.b_);
	r.c[4] = f2(x.a_.c_);
	r.c[1] = f2(x.b_.a_);
	r.c[3] = f2(x.b_.b_);
	r.c[5] = f2(x.b_.c_);
	return r;
}
inline Fp12 fp12Of(const ref::F12& v)
{
	return Fp12(Fp6(fp2Of(v.c[0]), fp2Of(v.c[2]), fp2Of(v.c[4])), Fp6(fp2Of(v.c[1]), fp2Of(v.c[3]), fp2Of(v.c[5])));
}

// uniform access to a field of the library and its model
template<class T> struct Model;
template<> struct Model<Fp> {
	typedef ref::F1 R;
	static R get(const Fp& x) { return f1(x); }
	static Fp make(const R& v) { return fpOf(v); }
};
template<> struct Model<Fp2> {
	typedef ref::F2 R;
	static R get(const Fp2& x) { return f2(x); }
	static Fp2 make(const R& v) { return fp2Of(v); }
};
template<> struct Model<Fp6> {
	typedef ref::F12 R;
	static R get(const Fp6& x) { return f6(x); }
	static Fp6 make(const R& v) { return fp6Of(v); }
};
template<> struct Model<Fp12> {
	typedef ref::F12 R;
	static R get(const Fp12& x) { return f12(x); }
	static Fp12 make(const R& v) { return fp12Of(v); }
};

inline std::string rawStr(const Fp& x) { return hex(val(x)) + "(raw " + hex(raw(x)) + ")"; }
inline std::string rawStr(const Fp2& x) { return "[" + rawStr(x.a_) + ", " + rawStr(x.b_) + "]"; }
inline std::string rawStr(const Fp6& x) { return "{" + rawStr(x.a_) + ", " + rawStr(x.b_) + ", " + rawStr(x.c_) + "}"; }
inline std::string rawStr(const Fp12& x) { return "<" + rawStr(x.a_) + ", " + rawStr(x.b_) + ">"; }
#define NOTE_F(c, x) do { if ((c).verbose) (c).say(std::string(#x) + " = " + rawStr(x)); } while (0)
#define NOTE_Z(c, x) do { if ((c).verbose) (c).say(std::string(#x) + " = " + hex(x)); } while (0)

// result must be canonical and have the expected value
template<class T>
void expectEq(const T& got, const typename Model<T>::R& want, const char *what)
{
	if (!canon(got)) pt::fail(std::string(what) + ": result not fully reduced: " + rawStr(got));
	if (!(Model<T>::get(got) == want)) pt::fail(std::string(what) + ": got " + rawStr(got) + " expected " + want.str());
}

/////////////////////////////////////////////////////////////////////////////
// integers with structure

// one machine word, edge biased; 0 is the simplest
inline u64 genWord(Src& s)
{
	switch (s.below(7)) {
	case 0: return s.below(4);
	case 1: return 0 - s.below(4);
	case 2: return (u64)1 << s.below(64);
	case 3: return ((u64)1 << s.below(64)) - 1;
	case 4: return 0 - ((u64)1 << s.below(64));
	case 5: { const u64 w = s.word(); return w >> s.below(64); }
	default: return s.word();
	}
}

// integer of at most `bits` bits with limb structure
inline Z genBits(Src& s, size_t bits)
{
	size_t n = (bits + 63) / 64;
	if (n == 0) return 0;
	std::vector<u64> w(n);
	Z r;
	switch (s.below(8)) {
	case 0:
		return zu(s.below(16)) & (ref::pow2((unsigned)bits) - 1);
	case 1: { // 2^k + small
		r = ref::pow2((unsigned)s.below(bits));
		r += zi((int64_t)s.below(5) - 2);
		break;
	}
	case 2: { // 2^a - 2^b
		unsigned a = (unsigned)s.below(bits + 1), b = (unsigned)s.below(bits + 1);
		r = ref::pow2(a) - ref::pow2(b);
		break;
	}
	case 3: // all ones limbs / zero limbs / random
	case 4:
		for (size_t i = 0; i < n; i++) {
			switch (s.below(4)) {
			case 0: w[i] = 0; break;
			case 1: w[i] = ~(u64)0; break;
			case 2: w[i] = genWord(s); break;
			default: w[i] = s.word(); break;
			}
		}
		r = zFromWords(&w[0], n);
		break;
	case 5: // random length
		{
			size_t len = 1 + (size_t)s.below(bits);
			for (size_t i = 0; i < n; i++) w[i] = s.word();
			r = zFromWords(&w[0], n) >> (n * 64 - len);
		}
		break;
	default:
		for (size_t i = 0; i < n; i++) w[i] = s.word();
		r = zFromWords(&w[0], n);
		break;
	}
	if (r < 0) r = -r;
	Z m = ref::pow2((unsigned)bits) - 1;
	r &= m;
	return r;
}

// integer below n, biased to the edges of [0, n), to limb structure, and to n/2, n/3, n/4 ...
inline Z genBelow(Src& s, const Z& n)
{
	static const int w[] = { 2, 4, 3, 3, 3, 6 };
	Z r;
	switch (s.pick(w, 6)) {
	case 0: r = zu(s.below(20)); break;
	case 1: r = n - 1 - zu(s.below(20)); break;
	case 2: { // near a fraction of n
		u64 d = 2 + s.below(7), k = 1 + s.below(d);
		r = n * zu(k) / zu(d);
		r += zi((int64_t)s.below(9) - 4);
		break;
	}
	case 3:
		r = genBits(s, mpz_sizeinbase(n.get_mpz_t(), 2));
		break;
	case 4: { // n with some limbs changed
		size_t k = (mpz_sizeinbase(n.get_mpz_t(), 2) + 63) / 64;
		std::vector<u64> v(k);
		zToWords(&v[0], k, n);
		size_t at = (size_t)s.below(k);
		switch (s.below(4)) {
		case 0: v[at] = genWord(s); break;
		case 1: v[at] -= 1 + s.below(3); break;
		case 2: for (size_t i = 0; i < at; i++) v[i] = 0; break;
		default: for (size_t i = 0; i < at; i++) v[i] = ~(u64)0; break;
		}
		r = zFromWords(&v[0], k);
		break;
	}
	default: {
		size_t k = (mpz_sizeinbase(n.get_mpz_t(), 2) + 63) / 64;
		std::vector<u64> v(k);
		for (size_t i = 0; i < k; i++) v[i] = s.word();
		r = zFromWords(&v[0], k);
		break;
	}
	}
	return ref::modn(r, n);
}

/////////////////////////////////////////////////////////////////////////////
// field elements

// prime field element: edge cases both of the value and of its Montgomery image
inline Fp genFp(Src& s)
{
	static const int w[] = { 2, 5, 3, 2 };
	switch (s.pick(w, 4)) {
	case 0: // small values and their negatives
		{
			Z v = zu(s.below(12));
			return fpOf(s.flip() ? Z(-v) : v);
		}
	case 1: return fromRaw(genBelow(s, ref::C.p));
	case 2: return fpOf(genBelow(s, ref::C.p));
	default: {
		u64 v[4];
		for (int i = 0; i < 4; i++) v[i] = s.word();
		return fromRaw(ref::mod(zFromWords(v, 4)));
	}
	}
}
inline Fp genFpNz(Src& s)
{
	Fp x = genFp(s);
	return x.isZero() ? Fp(fpOf(Z(1))) : x;
}
// element related to x so that carries, borrows and reductions are near their limits
inline Fp genFpNear(Src& s, const Fp& x)
{
	const Z& p = ref::C.p;
	Z rx = raw(x);
	switch (s.below(10)) {
	case 0: return x;
	case 1: return fromRaw(ref::mod(-rx));
	case 2: return fromRaw(ref::mod(p - rx + zi((int64_t)s.below(5) - 2)));
	case 3: return fromRaw(ref::mod(rx + zi((int64_t)s.below(5) - 2)));
	case 4: { // complement of some limbs of x
		u64 v[4];
		zToWords(v, 4, rx);
		u64 m = s.below(16);
		for (int i = 0; i < 4; i++) {
			if ((m >> i) & 1) v[i] = ~v[i];
			else if (s.chance(1, 3)) v[i] = genWord(s);
		}
		return fromRaw(ref::mod(zFromWords(v, 4)));
	}
	case 5: { // same limbs but some
		u64 v[4];
		zToWords(v, 4, rx);
		{ const u64 at = s.below(4); v[at] = genWord(s); };
		return fromRaw(ref::mod(zFromWords(v, 4)));
	}
	case 6: { // product with x has a chosen Montgomery image
		Z t = genBelow(s, p);
		Z iv = ref::invmod(rx);
		return fromRaw(ref::mod(t * ref::C.Rm * iv));
	}
	case 7: return fromRaw(ref::mod(ref::invmod(rx)));
	default: return genFp(s);
	}
}

// corners of the coefficient cube, where bounds of lazily reduced sums of products are reached
inline Fp genCorner(Src& s)
{
	switch (s.below(8)) {
	case 0: case 1: return fromRaw(0);
	case 2: case 3: return fromRaw(ref::C.p - 1);
	case 4: return fromRaw(ref::C.p - 1 - zu(s.below(1 << 16)));
	case 5: return fromRaw(ref::C.p / 2 + zi((int64_t)s.below(5) - 2));
	case 6: return fromRaw(ref::mod(ref::C.p * zu(s.below(1025)) / 1024));
	default: return fromRaw(genBelow(s, ref::C.p));
	}
}
inline Fp2 genFp2(Src& s)
{
	if (s.chance(1, 4)) { Fp a = genCorner(s); return Fp2(a, genCorner(s)); }
	Fp a = genFp(s);
	switch (s.below(8)) {
	case 0: return Fp2(a, fromRaw(0));
	case 1: return Fp2(fromRaw(0), a);
	case 2: return Fp2(a, a);
	case 3: return Fp2(a, fromRaw(ref::mod(-raw(a))));
	case 4: return Fp2(a, genFpNear(s, a));
	default: return Fp2(a, genFp(s));
	}
}
inline Fp2 genFp2Nz(Src& s)
{
	Fp2 x = genFp2(s);
	return x.isZero() ? Fp2(fpOf(Z(1)), fromRaw(0)) : x;
}
inline Fp2 genFp2Near(Src& s, const Fp2& x)
{
	switch (s.below(8)) {
	case 0: return x;
	case 1: return fp2Of(-f2(x));
	case 2: return fp2Of(f2(x).conj());
	case 3: return Fp2(x.b_, x.a_);
	case 4: { Fp a = genFpNear(s, x.a_); return Fp2(a, genFpNear(s, x.b_)); }
	case 5: { Fp a = genFpNear(s, x.b_); return Fp2(a, genFpNear(s, x.a_)); }
	case 6: { // chosen product
		ref::F2 t = f2(genFp2(s));
		if (x.isZero()) return fp2Of(t);
		return fp2Of(t * f2(x).inv());
	}
	default: return genFp2(s);
	}
}

inline Fp6 genFp6(Src& s)
{
	Fp2 z2 = fp2Of(ref::F2(0));
	switch (s.below(8)) {
	case 0: { // few coefficients
		Fp6 r(z2, z2, z2);
		Fp2 *q = r.getFp2();
		u64 m = s.below(8);
		for (int i = 0; i < 3; i++) if ((m >> i) & 1) q[i] = genFp2(s);
		return r;
	}
	case 1: { // related coefficients
		Fp2 a = genFp2(s);
		Fp2 b = genFp2Near(s, a);
		return Fp6(a, b, genFp2Near(s, b));
	}
	case 2: { // all coefficients large
		Fp6 r(z2, z2, z2);
		Fp *q = r.get();
		for (int i = 0; i < 6; i++) q[i] = fromRaw(ref::C.p - 1 - zu(s.below(3)));
		return r;
	}
	case 3: case 4: {
		Fp6 r(z2, z2, z2);
		Fp *q = r.get();
		for (int i = 0; i < 6; i++) q[i] = genCorner(s);
		return r;
	}
	default: { Fp2 a = genFp2(s), b = genFp2(s); return Fp6(a, b, genFp2(s)); }
	}
}
inline Fp6 genFp6Nz(Src& s)
{
	Fp6 x = genFp6(s);
	if (x.isZero()) x.a_ = fp2Of(ref::F2(1));
	return x;
}
inline Fp6 genFp6Near(Src& s, const Fp6& x)
{
	switch (s.below(6)) {
	case 0: return x;
	case 1: return fp6Of(-f6(x));
	case 2: { Fp2 a = genFp2Near(s, x.a_), b = genFp2Near(s, x.b_); return Fp6(a, b, genFp2Near(s, x.c_)); }
	case 3: return Fp6(x.c_, x.a_, x.b_);
	default: return genFp6(s);
	}
}

inline Fp12 genFp12(Src& s)
{
	Fp6 z6 = fp6Of(ref::F12());
	switch (s.below(8)) {
	case 0: {
		Fp12 r(z6, z6);
		Fp2 *q = r.a_.getFp2();
		u64 m = s.below(64);
		for (int i = 0; i < 6; i++) if ((m >> i) & 1) q[i] = genFp2(s);
		return r;
	}
	case 1: return Fp12(genFp6(s), z6);
	case 2: return Fp12(z6, genFp6(s));
	case 3: { Fp6 a = genFp6(s); return Fp12(a, genFp6Near(s, a)); }
	case 4: {
		Fp12 r(z6, z6);
		Fp *q = r.a_.get();
		for (int i = 0; i < 12; i++) q[i] = genCorner(s);
		return r;
	}
	default: { Fp6 a = genFp6(s); return Fp12(a, genFp6(s)); }
	}
}
inline Fp12 genFp12Nz(Src& s)
{
	Fp12 x = genFp12(s);
	if (x.isZero()) x.a_.a_ = fp2Of(ref::F2(1));
	return x;
}
inline Fp12 genFp12Near(Src& s, const Fp12& x)
{
	switch (s.below(6)) {
	case 0: return x;
	case 1: return fp12Of(-f12(x));
	case 2: return fp12Of(f12(x).conj());
	case 3: { Fp6 a = genFp6Near(s, x.a_); return Fp12(a, genFp6Near(s, x.b_)); }
	default: return genFp12(s);
	}
}

template<class T> T gen(Src& s);
template<> inline Fp gen<Fp>(Src& s) { return genFp(s); }
template<> inline Fp2 gen<Fp2>(Src& s) { return genFp2(s); }
template<> inline Fp6 gen<Fp6>(Src& s) { return genFp6(s); }
template<> inline Fp12 gen<Fp12>(Src& s) { return genFp12(s); }
inline Fp genNear(Src& s, const Fp& x) { return genFpNear(s, x); }
inline Fp2 genNear(Src& s, const Fp2& x) { return genFp2Near(s, x); }
inline Fp6 genNear(Src& s, const Fp6& x) { return genFp6Near(s, x); }
inline Fp12 genNear(Src& s, const Fp12& x) { return genFp12Near(s, x); }
// pair of operands: independent or related
template<class T>
void genPair(Src& s, T& x, T& y)
{
	x = gen<T>(s);
	y = s.chance(1, 2) ? genNear(s, x) : gen<T>(s);
}

// element of the cyclotomic subgroup, from the definition: f^((p^6-1)(p^2+1))
inline ref::F12 easyPart(const ref::F12& f)
{
	ref::F12 g = f.conj() * f.inv();
	return ref::frob(ref::frob(g)) * g;
}
inline ref::F12 genCyclo(Src& s)
{
	if (s.chance(1, 16)) return ref::F12(1);
	return easyPart(f12(genFp12Nz(s)));
}

/////////////////////////////////////////////////////////////////////////////
// points

// finite point of E(Fp) (prime order) with a structured abscissa or a multiple of another
inline ref::P1 genP1(Src& s)
{
	Z x = s.flip() ? genBelow(s, ref::C.p) : zu(s.below(64));
	if (s.chance(1, 3)) x = val(genFp(s));
	for (;;) {
		Z y;
		if (ref::sqrtmod(y, ref::mod(x * x * x + ref::C.b))) {
			if (s.flip()) y = ref::mod(-y);
			return ref::P1(ref::F1(x), ref::F1(y));
		}
		x = ref::mod(x + 1);
	}
}
// any finite point of the twist (almost never in the subgroup)
inline ref::P2 genP2any(Src& s)
{
	ref::F2 x = f2(genFp2(s));
	for (;;) {
		ref::F2 y;
		if (ref::sqrt2(y, x * x * x + ref::b2())) {
			if (s.flip()) y = -y;
			return ref::P2(x, y);
		}
		x = x + ref::F2(1);
	}
}
// Jacobian arithmetic of the model would be faster; multiples are rare enough
template<class F>
struct JacT {
	F X, Y, Zc;
};
template<class F>
ref::Pt<F> fastMul(const ref::Pt<F>& P0, const Z& m)
{
	// Jacobian double-and-add written from the affine law with Z tracked
	if (P0.inf || m == 0) return ref::Pt<F>();
	ref::Pt<F> P = m < 0 ? -P0 : P0;
	Z e = abs(m);
	F X = P.x, Y = P.y, W(1);
	bool inf = false;
	for (size_t i = mpz_sizeinbase(e.get_mpz_t(), 2) - 1; i-- > 0;) {
		if (!inf) {
			if (Y.isZero()) inf = true;
			else {
				// lambda = 3X^2 / (2YZ)
				F n = F(3) * X * X, d = F(2) * Y * W;
				F Y2 = Y * Y;
				F X4 = F(4) * X * Y2;
				F X3 = n * n - X4 - X4;
				Y = n * (X4 - X3) - F(8) * Y2 * Y2;
				X = X3;
				W = d;
			}
		}
		if (mpz_tstbit(e.get_mpz_t(), i)) {
			if (inf) { X = P.x; Y = P.y; W = F(1); inf = false; }
			else {
				F W2 = W * W;
				F U = P.x * W2 - X, S = P.y * W2 * W - Y;
				if (U.isZero()) {
					if (S.isZero()) {
						ref::Pt<F> D = ref::dbl(P);
						if (D.inf) inf = true;
						else { X = D.x; Y = D.y; W = F(1); }
					} else inf = true;
				} else {
					F U2 = U * U, U3 = U2 * U, V = X * U2;
					F X3 = S * S - U3 - V - V;
					Y = S * (V - X3) - Y * U3;
					X = X3;
					W = W * U;
				}
			}
		}
	}
	if (inf) return ref::Pt<F>();
	F iv = W.inv(), i2 = iv * iv;
	return ref::Pt<F>(X * i2, Y * i2 * iv);
}
inline Z cofactor2() { return 2 * ref::C.p - ref::C.r; }
// finite point of order r on the twist
inline ref::P2 genP2(Src& s)
{
	for (;;) {
		ref::P2 Q = fastMul(genP2any(s), cofactor2());
		if (!Q.inf) return Q;
	}
}
// cheap source of many order r points: multiples of a cached one
inline ref::P2 genP2fast(Src& s)
{
	static std::vector<ref::P2> cache;
	static int cacheOf;
	if (cacheOf != ref::C.b) { // the process may change the curve
		cacheOf = ref::C.b;
		cache.clear();
		// x = small, fixed; same in every run
		for (int k = 1; cache.size() < 8; k++) {
			ref::F2 x(Z(k), Z(k * k + 1)), y;
			if (!ref::sqrt2(y, x * x * x + ref::b2())) continue;
			ref::P2 Q = fastMul(ref::P2(x, y), cofactor2());
			if (!Q.inf) cache.push_back(Q);
		}
	}
	ref::P2 Q = cache[s.below(cache.size())];
	Q = fastMul(Q, 1 + zu(s.below(1000)));
	if (s.chance(1, 2)) { const size_t at = s.below(cache.size()); Q = ref::add(Q, fastMul(cache[at], zu(s.below(1 << 20)))); }
	if (Q.inf) Q = cache[0];
	return s.flip() ? -Q : Q;
}

// Jacobian coordinates of a point with a generated scale; junk coordinates for infinity
template<class FF, class F>
void toJac(FF *out, const ref::Pt<F>& P, const F& z)
{
	out[0] = Model<FF>::make(P.x * z * z);
	out[1] = Model<FF>::make(P.y * z * z * z);
	out[2] = Model<FF>::make(z);
}
template<class FF>
FF genScale(Src& s)
{
	switch (s.below(4)) {
	case 0: return Model<FF>::make(typename Model<FF>::R(1));
	case 1: return Model<FF>::make(-typename Model<FF>::R(1));
	default: {
		FF z = gen<FF>(s);
		if (z.isZero()) z = Model<FF>::make(typename Model<FF>::R(1));
		return z;
	}
	}
}
template<class FF>
void genJac(Src& s, FF *out, const ref::Pt<typename Model<FF>::R>& P)
{
	typedef typename Model<FF>::R R;
	if (P.inf) {
		// infinity: third coordinate zero, the others anything
		out[0] = s.flip() ? gen<FF>(s) : Model<FF>::make(R(0));
		out[1] = s.flip() ? gen<FF>(s) : Model<FF>::make(R(0));
		out[2] = Model<FF>::make(R(0));
		return;
	}
	toJac(out, P, Model<FF>::get(genScale<FF>(s)));
}
// affine meaning of Jacobian coordinates
template<class FF>
ref::Pt<typename Model<FF>::R> fromJac(const FF *p)
{
	typedef typename Model<FF>::R R;
	R z = Model<FF>::get(p[2]);
	if (z.isZero()) return ref::Pt<R>();
	R iv = z.inv(), i2 = iv * iv;
	return ref::Pt<R>(Model<FF>::get(p[0]) * i2, Model<FF>::get(p[1]) * i2 * iv);
}
template<class FF>
bool canonPt(const FF *p) { return canon(p[0]) && canon(p[1]) && canon(p[2]); }

template<class FF>
std::string rawPt(const FF *p) { return "(" + rawStr(p[0]) + " : " + rawStr(p[1]) + " : " + rawStr(p[2]) + ")"; }

/////////////////////////////////////////////////////////////////////////////
// big integers of the library

inline Z toZ(const Vuint& x) { return zFromWords((const u64*)&x[0], x.size()); }
inline Z toZ(const Vsint& x) { Z r = toZ(x.get()); return x.isNegative() ? Z(-r) : r; }
inline Vuint vuintOf(const Z& x)
{
	u64 w[64];
	size_t n = mpz_size(x.get_mpz_t());
	if (n == 0) return Vuint(0);
	if (n > 64) n = 64;
	zToWords(w, n, x);
	Vuint r;
	r.set((const Unit*)w, n);
	return r;
}
// below 2^bits, any length, biased to full words of zeros and ones
inline Z genUint(Src& s, size_t bits)
{
	if (bits == 0) return 0;
	return genBits(s, s.flip() ? bits : 1 + (size_t)s.below(bits));
}
// a number whose leading words make estimated quotients hard
inline Z genDivisor(Src& s, size_t bits)
{
	const size_t n = (bits + 63) / 64, k = 1 + (size_t)s.below(n);
	std::vector<u64> w(k);
	for (size_t i = 0; i < k; i++) {
		switch (s.below(4)) {
		case 0: w[i] = 0; break;
		case 1: w[i] = ~(u64)0; break;
		case 2: w[i] = genWord(s); break;
		default: w[i] = s.word(); break;
		}
	}
	switch (s.below(6)) {
	case 0: w[k - 1] = (u64)1 << s.below(64); break;
	case 1: w[k - 1] = ~(u64)0 >> s.below(64); break;
	case 2: w[k - 1] = ((u64)1 << 63) + s.below(4); break;
	case 3: { const u64 sh = 52 + s.below(3); w[k - 1] = ((u64)1 << sh) + s.below(3) - 1; }; break;
	case 4: w[k - 1] = ~(u64)0 - s.below(4096); break;
	default: break;
	}
	Z r = zFromWords(&w[0], k) & (ref::pow2((unsigned)bits) - 1);
	return r == 0 ? Z(1) : r;
}
// numerator with quotient and remainder at their edges
inline Z genDividend(Src& s, const Z& y, size_t bits)
{
	const size_t yl = mpz_sizeinbase(y.get_mpz_t(), 2);
	Z q = yl < bits ? genUint(s, bits - yl) : Z(1), r;
	switch (s.below(5)) {
	case 0: r = 0; break;
	case 1: r = y - 1; break;
	case 2: r = zu(s.below(5)); break;
	case 3: r = y - 1 - zu(s.below(5)); break;
	default: r = genBelow(s, y); break;
	}
	if (r < 0) r = 0;
	r %= y;
	Z x = s.chance(1, 6) ? genUint(s, bits) : Z(q * y + r);
	return x & (ref::pow2((unsigned)bits) - 1);
}
