// Pairing values of the library through each entry point.
#pragma once
#include "curve.h"
#include "ops.h"

inline Fp12 fpOne() { return fp12Of(ref::F12(1)); }

// one of the ways to pair two points; the output object holds something else before
inline Fp12 pairBy(Src& s, Case& c, size_t how, const Ec2& Q, const Ec1& P)
{
	Fp12 f = s.flip() ? genFp12(s) : fpOne();
	static const char *const name[] = { "opt_atePairing of points", "opt_atePairingJac", "opt_atePairing of coordinates", "precomputed", "two pairs, one cancelling" };
	c.cls(name[how]);
	if (c.verbose) c.say(std::string("  by ") + name[how]);
	switch (how) {
	case 0: bn::opt_atePairing(f, Q, P); break;
	case 1: bn::opt_atePairingJac<Fp>(f, Q.p, P.p); break;
	case 2: {
		if (Q.isZero() || P.isZero()) { bn::opt_atePairing(f, Q, P); break; }
		Fp2 q[3];
		Fp p[3];
		bn::ecop::NormalizeJac(q, Q.p);
		bn::ecop::NormalizeJac(p, P.p);
		bn::opt_atePairing<Fp>(f, q, p);
		break;
	}
	default: pt::fail("no such entry point");
	}
	return f;
}
inline Fp12 pairing(const Ec2& Q, const Ec1& P)
{
	Fp12 f;
	bn::opt_atePairing(f, Q, P);
	return f;
}
// x^m for a pairing value, any integer m; squaring and multiplication only
inline Fp12 pow(const Fp12& x0, const Z& m)
{
	Fp12 x = x0, r = fpOne();
	if (m < 0) x.inverse();
	const Z e = abs(m);
	for (size_t i = mpz_sizeinbase(e.get_mpz_t(), 2); i-- > 0;) {
		Fp12::square(r);
		if (mpz_tstbit(e.get_mpz_t(), i)) r *= x;
	}
	return r;
}
