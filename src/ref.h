// Reference mathematics on GMP integers, written from the definitions only
// (nothing of the library under test is used here).
#pragma once
#include <gmpxx.h>
#include <vector>
#include <string>
#include <stdint.h>
#include <stdlib.h>

namespace ref {

typedef mpz_class Z;

struct Curve {
	Z z, p, r, t;
	int b;
	int xiA, xiB; // xi = xiA + xiB u
	Z Rm; // 2^256 mod p
	Z Rinv;
	Z R; // 2^256
};
extern Curve C;

inline Z zs(const char *s) { return Z(s); }

inline Z mod(const Z& x)
{
	Z r;
	mpz_fdiv_r(r.get_mpz_t(), x.get_mpz_t(), C.p.get_mpz_t());
	return r;
}
inline Z modn(const Z& x, const Z& n)
{
	Z r;
	mpz_fdiv_r(r.get_mpz_t(), x.get_mpz_t(), n.get_mpz_t());
	return r;
}
inline Z invmod(const Z& x)
{
	Z r;
	if (mpz_invert(r.get_mpz_t(), x.get_mpz_t(), C.p.get_mpz_t()) == 0) r = 0;
	return r;
}
inline Z powm(const Z& x, const Z& e, const Z& n)
{
	Z r;
	mpz_powm(r.get_mpz_t(), x.get_mpz_t(), e.get_mpz_t(), n.get_mpz_t());
	return r;
}
inline Z pow2(unsigned n) { Z r; mpz_setbit(r.get_mpz_t(), n); return r; }

inline bool isSquare(const Z& x) // mod p
{
	return x == 0 || mpz_legendre(x.get_mpz_t(), C.p.get_mpz_t()) == 1;
}
inline bool sqrtmod(Z& y, const Z& x)
{
	// p = 3 mod 4
	if (!isSquare(x)) return false;
	y = powm(x, (C.p + 1) / 4, C.p);
	return true;
}

inline void init(const Z& z, int b, int xiA, int xiB)
{
	C.z = z;
	C.b = b;
	C.xiA = xiA;
	C.xiB = xiB;
	C.p = (((Z(36) * z + 36) * z + 24) * z + 6) * z + 1;
	C.r = (((Z(36) * z + 36) * z + 18) * z + 6) * z + 1;
	C.t = Z(6) * z * z + 1;
	C.R = pow2(256);
	C.Rm = mod(C.R);
	C.Rinv = invmod(C.R);
}

struct F1 {
	Z v;
	F1() : v(0) {}
	F1(int x) : v(mod(Z(x))) {}
	F1(const Z& x) : v(mod(x)) {}
	bool isZero() const { return v == 0; }
	bool operator==(const F1& o) const { return v == o.v; }
	bool operator!=(const F1& o) const { return v != o.v; }
	F1 operator+(const F1& o) const { return F1(Z(v + o.v)); }
	F1 operator-(const F1& o) const { return F1(Z(v - o.v)); }
	F1 operator*(const F1& o) const { return F1(Z(v * o.v)); }
	F1 operator-() const { return F1(Z(-v)); }
	F1 inv() const { return F1(invmod(v)); }
	std::string str() const { return v.get_str(); }
};

struct F2 {
	Z a, b;
	F2() : a(0), b(0) {}
	F2(int x) : a(mod(Z(x))), b(0) {}
	F2(const F1& x) : a(x.v), b(0) {}
	F2(const Z& x, const Z& y) : a(mod(x)), b(mod(y)) {}
	bool isZero() const { return a == 0 && b == 0; }
	bool operator==(const F2& o) const { return a == o.a && b == o.b; }
	bool operator!=(const F2& o) const { return !(*this == o); }
	F2 operator+(const F2& o) const { return F2(a + o.a, b + o.b); }
	F2 operator-(const F2& o) const { return F2(a - o.a, b - o.b); }
	F2 operator-() const { return F2(-a, -b); }
	F2 operator*(const F2& o) const { return F2(a * o.a - b * o.b, a * o.b + b * o.a); }
	F2 conj() const { return F2(a, -b); }
	F2 inv() const
	{
		Z n = invmod(mod(a * a + b * b));
		return F2(a * n, -b * n);
	}
	std::string str() const { return "[" + a.get_str() + "," + b.get_str() + "]"; }
};

inline F2 xi() { return F2(Z(C.xiA), Z(C.xiB)); }

inline F2 pow(F2 x, const Z& e)
{
	F2 r(1);
	for (size_t i = mpz_sizeinbase(e.get_mpz_t(), 2); i-- > 0;) {
		r = r * r;
		if (mpz_tstbit(e.get_mpz_t(), i)) r = r * x;
	}
	return r;
}

// square root in F2 for p = 3 mod 4; false if none
inline bool sqrt2(F2& y, const F2& x)
{
	if (x.isZero()) { y = F2(0); return true; }
	if (x.b == 0) {
		Z s;
		if (sqrtmod(s, x.a)) { y = F2(s, Z(0)); return true; }
		if (sqrtmod(s, mod(-x.a))) { y = F2(Z(0), s); return true; }
		return false;
	}
	// norm
	Z n = mod(x.a * x.a + x.b * x.b), s;
	if (!sqrtmod(s, n)) return false;
	Z half = invmod(Z(2));
	Z d = mod((x.a + s) * half), c;
	if (!sqrtmod(c, d)) {
		d = mod((x.a - s) * half);
		if (!sqrtmod(c, d)) return false;
	}
	Z e = mod(x.b * half * invmod(c));
	y = F2(c, e);
	return y * y == x;
}

// F12 = F2[w] / (w^6 - xi); coefficient i belongs to w^i
struct F12 {
	F2 c[6];
	F12() {}
	F12(int x) { c[0] = F2(x); }
	F12(const F2& x) { c[0] = x; }
	bool isZero() const { for (int i = 0; i < 6; i++) if (!c[i].isZero()) return false; return true; }
	bool operator==(const F12& o) const { for (int i = 0; i < 6; i++) if (c[i] != o.c[i]) return false; return true; }
	bool operator!=(const F12& o) const { return !(*this == o); }
	F12 operator+(const F12& o) const { F12 r; for (int i = 0; i < 6; i++) r.c[i] = c[i] + o.c[i]; return r; }
	F12 operator-(const F12& o) const { F12 r; for (int i = 0; i < 6; i++) r.c[i] = c[i] - o.c[i]; return r; }
	F12 operator-() const { F12 r; for (int i = 0; i < 6; i++) r.c[i] = -c[i]; return r; }
	F12 operator*(const F12& o) const { F12 r; mul(r, *this, o); return r; }
	// w -> -w  (the p^6 power)
	F12 conj() const { F12 r = *this; for (int i = 1; i < 6; i += 2) r.c[i] = -r.c[i]; return r; }
	static void mul(F12& out, const F12& x, const F12& y)
	{
		// t[k] : unreduced coefficient of w^k
		static thread_local Z ta[11], tb[11];
		for (int k = 0; k < 11; k++) { ta[k] = 0; tb[k] = 0; }
		for (int i = 0; i < 6; i++) {
			if (x.c[i].isZero()) continue;
			mpz_srcptr xa = x.c[i].a.get_mpz_t(), xb = x.c[i].b.get_mpz_t();
			for (int j = 0; j < 6; j++) {
				if (y.c[j].isZero()) continue;
				mpz_srcptr ya = y.c[j].a.get_mpz_t(), yb = y.c[j].b.get_mpz_t();
				mpz_addmul(ta[i + j].get_mpz_t(), xa, ya);
				mpz_submul(ta[i + j].get_mpz_t(), xb, yb);
				mpz_addmul(tb[i + j].get_mpz_t(), xa, yb);
				mpz_addmul(tb[i + j].get_mpz_t(), xb, ya);
			}
		}
		for (int k = 0; k < 6; k++) {
			Z a = ta[k], b = tb[k];
			if (k + 6 < 11) {
				// xi * (ta + tb u)
				a += ta[k + 6] * C.xiA - tb[k + 6] * C.xiB;
				b += ta[k + 6] * C.xiB + tb[k + 6] * C.xiA;
			}
			mpz_fdiv_r(out.c[k].a.get_mpz_t(), a.get_mpz_t(), C.p.get_mpz_t());
			mpz_fdiv_r(out.c[k].b.get_mpz_t(), b.get_mpz_t(), C.p.get_mpz_t());
		}
	}
	std::string str() const
	{
		std::string s = "(";
		for (int i = 0; i < 6; i++) s += (i ? "," : "") + c[i].str();
		return s + ")";
	}
	// inverse by solving x * y = 1 : Gaussian elimination over F2 (6x6), no tower formula
	F12 inv() const
	{
		F2 m[6][7];
		for (int j = 0; j < 6; j++) { // column j : x * w^j
			for (int i = 0; i < 6; i++) {
				int k = i + j;
				if (k < 6) m[k][j] = c[i];
				else m[k - 6][j] = c[i] * xi();
			}
		}
		for (int i = 0; i < 6; i++) m[i][6] = F2(i == 0 ? 1 : 0);
		for (int col = 0; col < 6; col++) {
			int piv = col;
			while (piv < 6 && m[piv][col].isZero()) piv++;
			if (piv == 6) return F12(0);
			if (piv != col) for (int k = 0; k < 7; k++) std::swap(m[piv][k], m[col][k]);
			F2 iv = m[col][col].inv();
			for (int k = col; k < 7; k++) m[col][k] = m[col][k] * iv;
			for (int i = 0; i < 6; i++) {
				if (i == col || m[i][col].isZero()) continue;
				F2 f = m[i][col];
				for (int k = col; k < 7; k++) m[i][k] = m[i][k] - f * m[col][k];
			}
		}
		F12 r;
		for (int i = 0; i < 6; i++) r.c[i] = m[i][6];
		return r;
	}
};

inline F12 pow(const F12& x, const Z& e)
{
	// 4 bit windows
	F12 tbl[16];
	tbl[0] = F12(1);
	for (int i = 1; i < 16; i++) tbl[i] = tbl[i - 1] * x;
	F12 r(1);
	size_t n = (mpz_sizeinbase(e.get_mpz_t(), 2) + 3) / 4;
	for (size_t i = n; i-- > 0;) {
		for (int k = 0; k < 4; k++) F12::mul(r, r, r);
		unsigned d = 0;
		for (int k = 3; k >= 0; k--) d = d * 2 + (unsigned)mpz_tstbit(e.get_mpz_t(), i * 4 + k);
		if (d) F12::mul(r, r, tbl[d]);
	}
	return r;
}

// p-power by definition of the field: conjugate coefficients, w^p = w * xi^((p-1)/6)
inline F12 frob(const F12& x)
{
	static F2 g[6];
	static Z forP = 0;
	static int forXi = 0;
	if (forP != C.p || forXi != C.xiA) {
		F2 b = pow(xi(), (C.p - 1) / 6);
		g[0] = F2(1);
		for (int i = 1; i < 6; i++) g[i] = g[i - 1] * b;
		forP = C.p;
		forXi = C.xiA;
	}
	F12 r;
	for (int i = 0; i < 6; i++) r.c[i] = x.c[i].conj() * g[i];
	return r;
}

// affine points
template<class F>
struct Pt {
	bool inf;
	F x, y;
	Pt() : inf(true) {}
	Pt(const F& a, const F& b) : inf(false), x(a), y(b) {}
	bool operator==(const Pt& o) const { return inf == o.inf && (inf || (x == o.x && y == o.y)); }
	bool operator!=(const Pt& o) const { return !(*this == o); }
	Pt operator-() const { return inf ? *this : Pt(x, -y); }
	std::string str() const { return inf ? "inf" : "(" + x.str() + ", " + y.str() + ")"; }
};
typedef Pt<F1> P1;
typedef Pt<F2> P2;

template<class F>
Pt<F> dbl(const Pt<F>& P)
{
	if (P.inf || P.y.isZero()) return Pt<F>();
	F l = F(3) * P.x * P.x * (F(2) * P.y).inv();
	F x = l * l - P.x - P.x;
	return Pt<F>(x, l * (P.x - x) - P.y);
}
template<class F>
Pt<F> add(const Pt<F>& P, const Pt<F>& Q)
{
	if (P.inf) return Q;
	if (Q.inf) return P;
	if (P.x == Q.x) {
		if (P.y == Q.y) return dbl(P);
		return Pt<F>();
	}
	F l = (Q.y - P.y) * (Q.x - P.x).inv();
	F x = l * l - P.x - Q.x;
	return Pt<F>(x, l * (P.x - x) - P.y);
}
template<class F>
Pt<F> mul(const Pt<F>& P0, const Z& m)
{
	Pt<F> P = m < 0 ? -P0 : P0;
	Z e = abs(m);
	Pt<F> R;
	for (size_t i = mpz_sizeinbase(e.get_mpz_t(), 2); i-- > 0;) {
		R = dbl(R);
		if (mpz_tstbit(e.get_mpz_t(), i)) R = add(R, P);
	}
	return R;
}

inline F1 b1() { return F1(C.b); }
inline F2 b2() { return F2(C.b) * xi().inv(); }
inline bool on(const P1& P) { return P.inf || P.y * P.y == P.x * P.x * P.x + b1(); }
inline bool on(const P2& P) { return P.inf || P.y * P.y == P.x * P.x * P.x + b2(); }

// twist Frobenius: untwist (x w^2, y w^3), p-power, twist
inline P2 frobTwist(const P2& Q)
{
	if (Q.inf) return Q;
	F2 g2 = pow(xi(), (C.p - 1) / 3);
	F2 g3 = pow(xi(), (C.p - 1) / 2);
	return P2(Q.x.conj() * g2, Q.y.conj() * g3);
}

// line through untwisted T with slope lam (on the twist), evaluated at P:
//   yP - lam xP w + (lam xT - yT) w^3
inline F12 lineAt(const P2& T, const F2& lam, const P1& P)
{
	F12 l;
	l.c[0] = F2(P.y);
	l.c[1] = -(lam * F2(P.x));
	l.c[3] = lam * T.x - T.y;
	return l;
}
inline F12 lineDbl(const P2& T, const P1& P)
{
	F2 lam = F2(3) * T.x * T.x * (F2(2) * T.y).inv();
	return lineAt(T, lam, P);
}
inline F12 lineAdd(const P2& T, const P2& Q, const P1& P)
{
	F2 lam = (Q.y - T.y) * (Q.x - T.x).inv();
	return lineAt(T, lam, P);
}

// Miller value of the optimal ate pairing, up to factors killed by the final exponentiation
inline F12 miller(const P2& Q, const P1& P)
{
	Z n = 6 * C.z + 2;
	bool neg = n < 0;
	n = abs(n);
	F12 f(1);
	P2 T = Q;
	for (size_t i = mpz_sizeinbase(n.get_mpz_t(), 2) - 1; i-- > 0;) {
		f = f * f * lineDbl(T, P);
		T = dbl(T);
		if (mpz_tstbit(n.get_mpz_t(), i)) {
			f = f * lineAdd(T, Q, P);
			T = add(T, Q);
		}
	}
	if (neg) {
		f = f.inv();
		T = -T;
	}
	P2 Q1 = frobTwist(Q);
	P2 Q2 = -frobTwist(Q1);
	f = f * lineAdd(T, Q1, P);
	T = add(T, Q1);
	f = f * lineAdd(T, Q2, P);
	return f;
}

inline Z hardExponent()
{
	Z z = C.z, z2 = z * z, z3 = z2 * z;
	Z l0 = 1 + 6 * z + 12 * z2 + 12 * z3;
	Z l1 = 4 * z + 6 * z2 + 12 * z3;
	Z l2 = 6 * z + 6 * z2 + 12 * z3;
	Z l3 = -1 + 4 * z + 6 * z2 + 12 * z3;
	return l0 + C.p * (l1 + C.p * (l2 + C.p * l3));
}
// exponent of the whole final exponentiation
inline Z finalExponent()
{
	Z p2 = C.p * C.p, p6 = p2 * p2 * p2;
	return (p6 - 1) * (p2 + 1) * hardExponent();
}
inline Z pk(const Z& p, int k) { Z r = 1; while (k--) r *= p; return r; }

inline F12 finalExp(const F12& f)
{
	// easy part by conjugation and inversion, hard part by plain powering
	F12 g = f.conj() * f.inv();
	g = frob(frob(g)) * g;
	Z h = hardExponent();
	if (h < 0) { h = -h; g = g.inv(); }
	return pow(g, h);
}
inline F12 pairing(const P2& Q, const P1& P)
{
	if (Q.inf || P.inf) return F12(1);
	return finalExp(miller(Q, P));
}

} // ref
