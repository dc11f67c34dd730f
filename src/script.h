// Programs over the public operations of the library, made once from choices and then run any number of times:
// in other configurations, after other initialisations, in threads and inside signal handlers. Nothing of the
// reference model is used while a program runs.
#pragma once
#include "pairing.h"
#include "dbl.h"

struct Script {
	enum { NA = 4, NB = 4, NC = 3, ND = 3, NP = 3, NQ = 3, NV = 3 };
	enum Kind {
		kFp, kFp2, kFp6, kFp12, kDbl, kWide2, kSqrt, kText, kFpInt, kVuint, kVsint, kPowFp, kPowFp2, // small
		kEc1, kEc2, kNorm1, kNorm2, kCmp, kLine,
		kCyclo, kSquareN, kPowFp12, kMul1, kMul2, // larger
		kFixedPower, kFinal, kPairing, kPairingJac, kLoop, kLoop2, // large
		kKinds
	};
	struct Step {
		int kind;
		u64 w[5]; // indices and small numbers
		Z big;
		Vuint v;
		std::string text;
	};
	// values before the first step
	Fp a0[NA];
	Fp2 b0[NB];
	Fp6 c0[NC];
	Fp12 d0[ND];
	Ec1 p0[NP];
	Ec2 q0[NQ];
	Vuint v0[NV];
	std::vector<Step> step;

	static const char *name(int k)
	{
		static const char *const n[] = { "Fp", "Fp2", "Fp6", "Fp12", "FpDbl", "Fp2Dbl", "squareRoot", "text", "Fp and integers", "Vuint", "Vsint", "power Fp", "power Fp2",
			"G1", "G2", "normalize G1", "normalize G2", "compare", "line", "cyclotomic", "square_n", "power Fp12", "multiple G1", "multiple G2",
			"fixed_power", "final_exp", "pairing", "pairing Jac", "Miller loop", "two Miller loops" };
		return n[k];
	}
	// cost: 0 small steps only, 1 with larger ones, 2 everything
	Script(Src& s, Case& c, size_t maxLen, int cost)
	{
		for (int i = 0; i < NA; i++) a0[i] = i && s.flip() ? genFpNear(s, a0[i - 1]) : genFp(s);
		for (int i = 0; i < NB; i++) b0[i] = i && s.flip() ? genFp2Near(s, b0[i - 1]) : genFp2(s);
		for (int i = 0; i < NC; i++) c0[i] = genFp6(s);
		for (int i = 0; i < ND; i++) d0[i] = genFp12(s);
		for (int i = 0; i < NP; i++) { if (i && s.chance(1, 3)) p0[i] = p0[i - 1]; else p0[i] = Gen<Fp>::rep(s, Gen<Fp>::point(s, c)); }
		for (int i = 0; i < NQ; i++) { if (i && s.chance(1, 2)) q0[i] = q0[i - 1]; else q0[i] = Gen<Fp2>::rep(s, s.chance(1, 10) ? ref::P2() : genP2fast(s)); }
		for (int i = 0; i < NV; i++) v0[i] = vuintOf(genBits(s, 256));
		const size_t n = s.range(1, maxLen);
		step.resize(n);
		for (size_t i = 0; i < n; i++) {
			Step& t = step[i];
			const u64 r = s.below(100);
			if (cost == 2 && r >= 88) t.kind = (int)s.range(kFixedPower, kKinds - 1);
			else if (cost >= 1 && r >= 70) t.kind = (int)s.range(kCyclo, kMul2);
			else t.kind = (int)s.range(kFp, kLine);
			for (int j = 0; j < 5; j++) t.w[j] = s.below(1 << 16);
			switch (t.kind) {
			case kPowFp: case kPowFp2: case kPowFp12: case kMul1: case kMul2:
				t.big = genBits(s, s.chance(1, 4) ? 256 : 64);
				t.v = vuintOf(t.big);
				break;
			case kText: t.text = Z(ref::modn(genBits(s, 256), ref::C.p)).get_str(10); break;
			case kVuint: case kVsint: t.v = vuintOf(genBits(s, 250)); break;
			default: break;
			}
			c.cls(name(t.kind));
			if (c.verbose) {
				std::ostringstream os;
				os << "step " << i << ": " << name(t.kind);
				for (int j = 0; j < 5; j++) os << ' ' << t.w[j];
				if (t.big != 0) os << ' ' << hex(t.big);
				c.say(os.str());
			}
		}
	}

	// the values after the last step, and everything written on the way
	struct Out {
		std::string bytes;
		std::vector<size_t> end; // length after each step
		void put(const void *p, size_t n) { bytes.append((const char*)p, n); }
		void num(u64 v) { put(&v, 8); }
		void str(const std::string& t) { num(t.size()); bytes += t; }
		template<class T> void val(const T& x) { put(&x, sizeof(x)); }
		// the first coordinates of infinity mean nothing
		template<class F> void jac(const F *p) { if (p[2].isZero()) num(0); else put(p, sizeof(F) * 3); }
		void val(const Ec1& p) { jac(p.p); }
		void val(const Ec2& p) { jac(p.p); }
		void val(const Vuint& x) { num(x.size()); for (size_t i = 0; i < x.size(); i++) num(x[i]); }
	};

	template<class T>
	static void op(T *x, size_t n, const Step& t)
	{
		const std::vector<Op<T> >& ops = opsOf<T>();
		size_t k = t.w[0] % ops.size();
		const size_t d = t.w[1] % n, a = t.w[2] % n, b = t.w[3] % n;
		while (((ops[k].flags & opNz) && x[a].isZero()) || ((ops[k].flags & opNoAlias) && d == a)) k = (k + 1) % ops.size();
		ops[k].run(x[d], x[a], x[b]);
	}
	template<class Ec>
	static void group(Ec *p, size_t n, const Step& t)
	{
		Ec& z = p[t.w[1] % n];
		const Ec& x = p[t.w[2] % n];
		const Ec& y = p[t.w[3] % n];
		switch (t.w[0] % 8) {
		case 0: Ec::add(z, x, y); break;
		case 1: Ec::sub(z, x, y); break;
		case 2: Ec::dbl(z, x); break;
		case 3: Ec::neg(z, x); break;
		case 4: z += y; break;
		case 5: z = x - y; break;
		case 6: z = x; break;
		default: z = x + y; break;
		}
	}

	void run(Out& o) const
	{
		Fp a[NA];
		Fp2 b[NB];
		Fp6 c[NC];
		Fp12 d[ND];
		Ec1 p[NP];
		Ec2 q[NQ];
		Vuint v[NV];
		for (int i = 0; i < NA; i++) a[i] = a0[i];
		for (int i = 0; i < NB; i++) b[i] = b0[i];
		for (int i = 0; i < NC; i++) c[i] = c0[i];
		for (int i = 0; i < ND; i++) d[i] = d0[i];
		for (int i = 0; i < NP; i++) p[i] = p0[i];
		for (int i = 0; i < NQ; i++) q[i] = q0[i];
		for (int i = 0; i < NV; i++) v[i] = v0[i];
		for (size_t i = 0; i < step.size(); i++) {
			const Step& t = step[i];
			Fp& A = a[t.w[1] % NA];
			Fp2& B = b[t.w[1] % NB];
			Fp6& C = c[t.w[1] % NC];
			Fp12& D = d[t.w[1] % ND];
			const Fp& A1 = a[t.w[2] % NA];
			const Fp2& B1 = b[t.w[2] % NB];
			const Fp12& D1 = d[t.w[2] % ND];
			Ec1& P = p[t.w[1] % NP];
			Ec2& Q = q[t.w[2] % NQ];
			Vuint& V = v[t.w[1] % NV];
			switch (t.kind) {
			case kFp: op(a, NA, t); break;
			case kFp2: op(b, NB, t); break;
			case kFp6: op(c, NC, t); break;
			case kFp12: op(d, ND, t); break;
			case kDbl: {
				FpDbl x, y;
				FpDbl::mul(x, A1, a[t.w[3] % NA]);
				FpDbl::mul(y, A, A1);
				switch (t.w[0] % 4) {
				case 0: FpDbl::add(x, x, y); break;
				case 1: FpDbl::sub(x, x, y); break;
				case 2: FpDbl::neg(x, y); break;
				default: break;
				}
				FpDbl::mod(A, x);
				break;
			}
			case kWide2: {
				Fp2Dbl x, y;
				switch (t.w[4] % 3) {
				case 0: Fp2Dbl::mulOpt2(x, B1, b[t.w[3] % NB]); break;
				case 1: Fp2Dbl::mulOpt1(x, B1, b[t.w[3] % NB]); break;
				default: Fp2Dbl::square(x, B1); break;
				}
				Fp2Dbl::square(y, B);
				switch (t.w[0] % 4) {
				case 0: Fp2Dbl::add(x, x, y); break;
				case 1: Fp2Dbl::sub(x, x, y); break;
				case 2: Fp2Dbl::neg(x, y); break;
				default: Fp2Dbl::mul_xi(x, y); break;
				}
				Fp2Dbl::mod(B, x);
				break;
			}
			case kSqrt: { Fp r = A1; if (t.w[0] & 1) r *= A1; o.num(Fp::squareRoot(A, r)); break; }
			case kText: {
				std::ostringstream os;
				if (t.w[0] & 1) os << std::hex;
				os << A1 << ' ' << B1 << ' ' << v[t.w[3] % NV] << ' ';
				os << P;
				if (t.w[3] & 1) os << ' ' << D1;
				o.str(os.str());
				if (t.w[0] & 2) A.set(t.text);
				else { std::istringstream is(t.text + " 12345"); is >> A; }
				break;
			}
			case kFpInt: {
				o.val(A1.get());
				o.num(A1.getLow());
				o.num(A1.isOdd());
				if (t.w[0] & 1) A = (int)t.w[3] - 30000;
				else { const Fp x(A1.get()); A = x; }
				break;
			}
			case kVuint: {
				const Vuint& x = v[t.w[2] % NV];
				Vuint y = v[t.w[3] % NV];
				switch (t.w[0] % 8) {
				case 0: V = x + y; break;
				case 1: V = x * y; break;
				case 2: if (!y.isZero()) V = x / y; break;
				case 3: if (!y.isZero()) V = x % y; break;
				case 4: V = x << (t.w[4] % 200); break;
				case 5: V = x >> (t.w[4] % 300); break;
				case 6: if (x >= y) V = x - y; else V = y - x; break;
				default: V = x * t.v; V += y; o.num(V.bitLen()); break;
				}
				if (V.bitLen() > 256) V %= Param::p;
				o.str(V.toString(t.w[4] & 1 ? 16 : 10));
				break;
			}
			case kVsint: {
				Vsint x(t.v), y(V);
				if (t.w[0] & 1) x = -x;
				if (t.w[0] & 2) y = -y;
				Vsint z = x - y;
				o.str((z * (t.w[0] & 4 ? Vsint(-3) : Vsint(5))).toString());
				if (!y.isZero()) { o.str((z / y).toString()); o.str((z % y).toString()); }
				V = z.get();
				break;
			}
			case kPowFp: A = mie::power(A1, t.v); break;
#ifdef MIE_ATE_USE_GMP
			case kPowFp2: B = mie::power(B1, t.big); break;
#else
			case kPowFp2: B = mie::power(B1, t.v); break;
#endif
			case kEc1: group(p, NP, t); break;
			case kEc2: group(q, NQ, t); break;
			case kNorm1: P.normalize(); break;
			case kNorm2: Q.normalize(); break;
			case kCmp: {
				const Ec1& P1 = p[t.w[3] % NP];
				const Ec2& Q1 = q[t.w[3] % NQ];
				o.num((P == P1) | (Q == Q1) << 1 | P.isZero() << 2 | Q.isZero() << 3 | P.isValid() << 4 | Q.isValid() << 5 | (A == A1) << 6 | (D == D1) << 7 | (A < A1) << 8);
				break;
			}
			case kLine: {
				if (Q.isZero() || P.isZero()) break;
				Fp6 l;
				Fp2 r[3];
				Fp e[2];
				Ec1 p1 = P;
				p1.normalize();
				Ec2 q1 = Q;
				q1.normalize();
				e[0] = p1.p[0];
				e[1] = p1.p[1];
				r[0] = q1.p[0];
				r[1] = q1.p[1];
				r[2] = Fp2(1, 0);
				for (size_t k = 0; k <= t.w[3] % 3; k++) { if (t.w[0] & 1) Fp6::pointDblLineEval(l, r, e); else Fp6::pointDblLineEvalWithoutP(l, r); o.val(l); }
				if (t.w[0] & 2) Fp6::pointAddLineEval(l, r, q1.p, e); else Fp6::pointAddLineEvalWithoutP(l, r, q1.p);
				o.put(r, sizeof(r));
				C = l;
				break;
			}
			case kCyclo: case kSquareN: case kFixedPower: {
				if (D1.isZero()) break;
				Fp12 x = D1, y;
				x.mapToCyclo(y);
				if (t.kind == kCyclo) { y.sqru(); D = y; break; }
				if (t.kind == kFixedPower) {
#ifdef BN_SUPPORT_SNARK
					Fp12::pow_neg_t(x, y);
#else
					bn::Compress::fixed_power(x, y);
#endif
					D = x;
					break;
				}
				{
					Fp12 z;
					bn::Compress k(z, y);
					bn::Compress::square_n(k, (int)(t.w[0] % 8));
					k.decompress();
					D = z;
				}
				break;
			}
			case kPowFp12: D = mie::power(D1, t.v); break;
			case kMul1: P = t.w[0] & 1 ? p[t.w[3] % NP] * t.v : p[t.w[3] % NP] * (int)(t.w[4] - 30000); break;
			case kMul2: Q = t.w[0] & 1 ? q[t.w[3] % NQ] * t.v : q[t.w[3] % NQ] * (int)(t.w[4] - 30000); break;
			case kFinal: { Fp12 x = D1; if (x.isZero()) break; x.final_exp(); D = x; break; }
			case kPairing: bn::opt_atePairing(D, Q, P); break;
			case kPairingJac: bn::opt_atePairingJac<Fp>(D, Q.p, P.p); break;
			case kLoop: case kLoop2: {
				const Ec1& P1 = p[t.w[3] % NP];
				const Ec2& Q1 = q[t.w[4] % NQ];
				if (P.isZero() || Q.isZero() || P1.isZero() || Q1.isZero()) break;
				Fp2 m[3], n[3];
				Fp e[2], f[2];
				Ec1 x1 = P, x2 = P1;
				x1.normalize();
				x2.normalize();
				e[0] = x1.p[0]; e[1] = x1.p[1];
				f[0] = x2.p[0]; f[1] = x2.p[1];
				std::vector<Fp6> l1, l2;
				bn::components::precomputeG2(l1, m, Q.p);
				if (t.kind == kLoop) { bn::components::millerLoop(D, l1, e); o.num(l1.size()); break; }
				bn::components::precomputeG2(l2, n, Q1.p);
				bn::components::millerLoop2(D, l1, e, l2, f);
				if (t.w[0] & 1) D.final_exp();
				break;
			}
			default: break;
			}
			// what the step wrote
			o.num((u64)t.kind);
			o.val(A);
			o.val(B);
			o.val(C);
			o.val(D);
			o.val(P);
			o.val(Q);
			o.val(V);
			o.end.push_back(o.bytes.size());
		}
		for (int i = 0; i < NA; i++) o.val(a[i]);
		for (int i = 0; i < NB; i++) o.val(b[i]);
		for (int i = 0; i < NC; i++) o.val(c[i]);
		for (int i = 0; i < ND; i++) o.val(d[i]);
		for (int i = 0; i < NP; i++) o.val(p[i]);
		for (int i = 0; i < NQ; i++) o.val(q[i]);
		for (int i = 0; i < NV; i++) o.val(v[i]);
	}
	std::string result() const
	{
		Out o;
		run(o);
		return o.bytes;
	}
	// the first step after which two runs differ
	static std::string difference(const Script& s, const Out& x, const Out& y)
	{
		for (size_t i = 0; i < s.step.size(); i++) {
			const size_t from = i ? x.end[i - 1] : 0;
			if (x.end[i] != y.end[i] || x.bytes.compare(from, x.end[i] - from, y.bytes, from, y.end[i] - from) != 0) {
				std::ostringstream os;
				os << "after step " << i << " (" << name(s.step[i].kind) << ")";
				return os.str();
			}
		}
		return x.bytes == y.bytes ? "" : "at the end";
	}
};
