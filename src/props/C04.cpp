// Quadratic extension field
#include "ops.h"

PT_TEST(operations, 400000, 20000000)
{
	typedef Fp2 E;
	const std::vector<Op<E> >& ops = opsOf<E>();
	const Op<E>& o = ops[s.below(ops.size())];
	E x, y;
	genPair(s, x, y);
	if (c.verbose) { c.say(o.name); c.say("x = " + rawStr(x)); c.say("y = " + rawStr(y)); }
	runOp(s, c, o, x, y);
	c.nontrivial(!f2(x).isZero() && !(o.arity == 2 && f2(y).isZero()));
}

// identities that tie the operations together
PT_TEST(laws, 60000, 3000000)
{
	Fp2 x, y, z;
	genPair(s, x, y);
	z = s.flip() ? genNear(s, y) : gen<Fp2>(s);
	if (c.verbose) { c.say("x = " + rawStr(x)); c.say("y = " + rawStr(y)); c.say("z = " + rawStr(z)); }
	c.nontrivial(!x.isZero() && !y.isZero() && !z.isZero());
	PT_CHECK((x + y) + z == x + (y + z), "addition is associative");
	PT_CHECK((x * y) * z == x * (y * z), "multiplication is associative");
	PT_CHECK(x * (y + z) == x * y + x * z, "distributive law");
	PT_CHECK((x - y) + y == x, "x - y + y");
	Fp2 t, u;
	Fp2::square(t, x);
	PT_CHECK(t == x * x, "square");
	Fp2::divBy2(t, x);
	PT_CHECK(t + t == x, "divBy2");
	Fp2::divBy4(u, x);
	PT_CHECK(u + u == t, "divBy4");
	u = x;
	u.mul_x();
	u.mul_x();
	PT_CHECK(u == -x, "u * u = -1");
	if (!x.isZero()) {
		t = x;
		t.inverse();
		PT_CHECK(t * x == Fp2(Fp(1), Fp(0)), "x / x");
		t.inverse();
		PT_CHECK(t == x, "1 / (1 / x)");
	}
	Fp2 xi(Fp(ref::C.xiA), Fp(ref::C.xiB));
	Fp2::mul_xi(t, x);
	PT_CHECK(t == x * xi, "mul_xi");
}
