// Double-width elements: conversions, generators.
#pragma once
#include "ops.h"

inline Z raw(const FpDbl& x) { return zFromWords((const u64*)&x, 8); }
inline FpDbl dblOf(const Z& r) { FpDbl x; zToWords((u64*)&x, 8, r); return x; }
inline Z pN() { return ref::C.p << 256; }
inline Z modpN(const Z& x) { return ref::modn(x, pN()); }
inline bool canon(const FpDbl& x) { return raw(x) < pN(); }
inline bool canon(const Fp2Dbl& x) { return canon(x.a_) && canon(x.b_); }
// value of the element that Montgomery reduction would return
inline Z redc(const Z& r) { return ref::mod(r * ref::C.Rinv); }
// as field element: reduction gives an Fp whose image is redc(raw)
inline Z valD(const FpDbl& x) { return ref::mod(redc(raw(x)) * ref::C.Rinv); }
inline ref::F2 f2d(const Fp2Dbl& x) { return ref::F2(valD(x.a_), valD(x.b_)); }
inline std::string rawStr(const FpDbl& x) { return hex(raw(x)); }
inline std::string rawStr(const Fp2Dbl& x) { return "[" + rawStr(x.a_) + ", " + rawStr(x.b_) + "]"; }

// integer below n <= 2^512 with interesting structure
inline Z genWide(Src& s, const Z& n)
{
	const Z& p = ref::C.p;
	Z r;
	switch (s.below(8)) {
	case 0: r = zu(s.below(4)); break;
	case 1: r = n - 1 - zu(s.below(4)); break;
	case 2: { const Z r1 = raw(genFp(s)); r = r1 * raw(genFp(s)); }; break;
	case 3: r = p * genBelow(s, ref::C.R); r += zi((int64_t)s.below(3) - 1); break; // multiple of p
	case 4: r = genBelow(s, ref::C.R) << 256; r += zi((int64_t)s.below(3) - 1); break;
	case 5: r = genBits(s, 512); break;
	default: r = genBelow(s, n); break;
	}
	return ref::modn(r, n);
}
inline Z genWideNear(Src& s, const Z& x, const Z& n)
{
	Z r;
	switch (s.below(7)) {
	case 0: r = x; break;
	case 1: r = -x; break;
	case 2: r = n - x + zi((int64_t)s.below(5) - 2); break;
	case 3: r = x + zi((int64_t)s.below(5) - 2); break;
	case 4: { // some limbs changed
		u64 w[8];
		zToWords(w, 8, x);
		for (int i = 0; i < 8; i++) if (s.chance(1, 3)) w[i] = s.flip() ? ~w[i] : genWord(s);
		r = zFromWords(w, 8);
		break;
	}
	case 5: { // n - x with limbs changed
		u64 w[8];
		zToWords(w, 8, ref::modn(Z(n - x), n));
		{ const u64 at = s.below(8); w[at] = genWord(s); };
		r = zFromWords(w, 8);
		break;
	}
	default: r = genWide(s, n);
	}
	return ref::modn(r, n);
}
inline FpDbl genDbl(Src& s) { return dblOf(genWide(s, pN())); }
inline Fp2Dbl genFp2Dbl(Src& s) { FpDbl a = genDbl(s); return Fp2Dbl(a, s.flip() ? dblOf(genWideNear(s, raw(a), pN())) : genDbl(s)); }
