// Degree-twelve field, dense and sparse
#include "ops.h"

PT_TEST(operations, 30000, 1500000)
{
	typedef Fp12 E;
	const std::vector<Op<E> >& ops = opsOf<E>();
	const Op<E>& o = ops[s.below(ops.size())];
	E x, y;
	genPair(s, x, y);
	if (c.verbose) { c.say(o.name); c.say("x = " + rawStr(x)); c.say("y = " + rawStr(y)); }
	runOp(s, c, o, x, y);
	c.nontrivial(!f12(x).isZero() && !(o.arity == 2 && f12(y).isZero()));
}

PT_TEST(corners, 12000, 600000)
{
	Fp12 x, y;
	for (int i = 0; i < 6; i++) {
		x.a_.get()[i] = genCorner(s); x.b_.get()[i] = genCorner(s);
		y.a_.get()[i] = genCorner(s); y.b_.get()[i] = genCorner(s);
	}
	if (c.verbose) { c.say("x = " + rawStr(x)); c.say("y = " + rawStr(y)); }
	const std::vector<Op<Fp12> >& ops = opsOf<Fp12>();
	runOp(s, c, ops[s.below(ops.size())], x, y);
	Fp12 z;
	Fp12::mul(z, x, y);
	expectEq(z, f12(x) * f12(y), "mul");
	c.nontrivial(!x.isZero() && !y.isZero());
}

// sparse products against the library's own dense product
PT_TEST(sparseProducts, 15000, 800000)
{
	Fp12 z = gen<Fp12>(s);
	Fp6 l = gen<Fp6>(s), m = s.flip() ? genNear(s, l) : gen<Fp6>(s);
	if (s.chance(1, 3)) {
		for (int i = 0; i < 6; i++) { z.a_.get()[i] = genCorner(s); z.b_.get()[i] = genCorner(s); l.get()[i] = genCorner(s); m.get()[i] = genCorner(s); }
	}
	if (c.verbose) { c.say("z = " + rawStr(z)); c.say("l = " + rawStr(l)); c.say("m = " + rawStr(m)); }
	c.nontrivial(!z.isZero() && !l.isZero() && !m.isZero());
	const Fp2 o = fp2Of(ref::F2(0));
	// (l00, 0, l02) + (0, l11, 0) w
	Fp12 L(Fp6(l.a_, o, l.c_), Fp6(o, l.b_, o)), M(Fp6(m.a_, o, m.c_), Fp6(o, m.b_, o));
	Fp12 t = z;
	Fp12Dbl::mul_Fp2_024(t, l);
	PT_CHECK(t == z * L && canon(t), "mul_Fp2_024 gives " << rawStr(t));
	Fp12 u;
	Fp12Dbl::mul_Fp2_024_Fp2_024(u, l, m);
	PT_CHECK(u == L * M && canon(u), "mul_Fp2_024_Fp2_024 gives " << rawStr(u));
	PT_CHECK(f12(L) == sparse(f6(l)), "layout");
	Fp12 v = t;
	Fp12Dbl::mul_Fp2_024(v, m);
	Fp12Dbl::mul_Fp2_024(z, m);
	Fp12Dbl::mul_Fp2_024(z, l);
	PT_CHECK(v == z, "sparse factors commute");
}
