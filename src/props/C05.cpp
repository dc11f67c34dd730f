// Sextic extension field
#include "ops.h"

PT_TEST(operations, 60000, 3000000)
{
	typedef Fp6 E;
	const std::vector<Op<E> >& ops = opsOf<E>();
	const Op<E>& o = ops[s.below(ops.size())];
	E x, y;
	genPair(s, x, y);
	if (c.verbose) { c.say(o.name); c.say("x = " + rawStr(x)); c.say("y = " + rawStr(y)); }
	runOp(s, c, o, x, y);
	c.nontrivial(!f6(x).isZero() && !(o.arity == 2 && f6(y).isZero()));
}

PT_TEST(doubleWidth, 20000, 1000000)
{
	Fp6 x, y;
	genPair(s, x, y);
	if (c.verbose) { c.say("x = " + rawStr(x)); c.say("y = " + rawStr(y)); }
	c.nontrivial(!x.isZero() && !y.isZero());
	Fp6Dbl d;
	Fp6 r;
	Fp6Dbl::mul(d, x, y);
	Fp6Dbl::mod(r, d);
	expectEq(r, f6(x) * f6(y), "Fp6Dbl::mul, mod");
	PT_CHECK(r == x * y, "differs from the direct product");
}

// operands at the corners of the coefficient cube
PT_TEST(corners, 30000, 1500000)
{
	Fp6 x, y;
	for (int i = 0; i < 6; i++) { x.get()[i] = genCorner(s); y.get()[i] = genCorner(s); }
	if (c.verbose) { c.say("x = " + rawStr(x)); c.say("y = " + rawStr(y)); }
	const std::vector<Op<Fp6> >& ops = opsOf<Fp6>();
	runOp(s, c, ops[s.below(ops.size())], x, y);
	Fp6 z;
	Fp6::mul(z, x, y);
	expectEq(z, f6(x) * f6(y), "mul");
	c.nontrivial(!x.isZero() && !y.isZero());
}
