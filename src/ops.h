// The operations of each field level as data: how to run one on the library's
// objects and what it means in the model. Shared by the checks on histories,
// aliasing, memory footprint, threads and configurations.
#pragma once
#include "lib.h"

enum {
	opNz = 1, // first operand must not be zero
	opNoAlias = 2, // documented as not allowing z == x
	opPortable = 4, // portable formula next to the generated code
	opSlow = 8,
};

template<class T>
struct Op {
	typedef typename Model<T>::R R;
	const char *name;
	int arity; // operands read
	unsigned flags;
	void (*run)(T& z, const T& x, const T& y);
	R (*model)(const R& x, const R& y);
};

template<class T> const std::vector<Op<T> >& opsOf();

#define OP1(T, name, flags, code, mod) \
	{ struct L { static void run(T& z, const T& x, const T&) { code; } static Model<T>::R model(const Model<T>::R& X, const Model<T>::R&) { return mod; } }; \
	  Op<T> o = { name, 1, flags, L::run, L::model }; v.push_back(o); }
#define OP2(T, name, flags, code, mod) \
	{ struct L { static void run(T& z, const T& x, const T& y) { code; } static Model<T>::R model(const Model<T>::R& X, const Model<T>::R& Y) { return mod; } }; \
	  Op<T> o = { name, 2, flags, L::run, L::model }; v.push_back(o); }
#define INPLACE if (&z != &x) z = x

inline const Z& inv2() { static Z v = ref::invmod(2); return v; }
inline const Z& inv4() { static Z v = ref::invmod(4); return v; }

template<class T>
void commonOps(std::vector<Op<T> >& v)
{
	typedef typename Model<T>::R R;
	struct L {
		static void add(T& z, const T& x, const T& y) { T::add(z, x, y); }
		static void sub(T& z, const T& x, const T& y) { T::sub(z, x, y); }
		static void mul(T& z, const T& x, const T& y) { T::mul(z, x, y); }
		static void neg(T& z, const T& x, const T&) { T::neg(z, x); }
		static void addEq(T& z, const T& x, const T& y) { if (&z == &y && &z != &x) { z += x; return; } INPLACE; z += y; }
		static void subEq(T& z, const T& x, const T& y) { if (&z == &y && &z != &x) { z = x - y; return; } INPLACE; z -= y; }
		static void mulEq(T& z, const T& x, const T& y) { if (&z == &y && &z != &x) { z *= x; return; } INPLACE; z *= y; }
		static void addOp(T& z, const T& x, const T& y) { z = x + y; }
		static void subOp(T& z, const T& x, const T& y) { z = x - y; }
		static void mulOp(T& z, const T& x, const T& y) { z = x * y; }
		static R mAdd(const R& x, const R& y) { return x + y; }
		static R mSub(const R& x, const R& y) { return x - y; }
		static R mMul(const R& x, const R& y) { return x * y; }
		static R mNeg(const R& x, const R&) { return -x; }
	};
	const Op<T> t[] = {
		{ "add", 2, 0, L::add, L::mAdd },
		{ "sub", 2, 0, L::sub, L::mSub },
		{ "mul", 2, 0, L::mul, L::mMul },
		{ "neg", 1, 0, L::neg, L::mNeg },
		{ "+=", 2, 0, L::addEq, L::mAdd },
		{ "-=", 2, 0, L::subEq, L::mSub },
		{ "*=", 2, 0, L::mulEq, L::mMul },
		{ "+", 2, 0, L::addOp, L::mAdd },
		{ "-", 2, 0, L::subOp, L::mSub },
		{ "*", 2, 0, L::mulOp, L::mMul },
	};
	v.insert(v.end(), t, t + sizeof(t) / sizeof(t[0]));
}

template<>
inline const std::vector<Op<Fp> >& opsOf<Fp>()
{
	static std::vector<Op<Fp> > v;
	if (v.empty()) {
		commonOps(v);
		OP1(Fp, "square", 0, Fp::square(z, x), X * X);
		OP1(Fp, "divBy2", 0, Fp::divBy2(z, x), X * ref::F1(inv2()));
		OP1(Fp, "divBy4", 0, Fp::divBy4(z, x), X * ref::F1(inv4()));
		OP1(Fp, "inv", opNz, Fp::inv(z, x), X.inv());
		OP1(Fp, "inverse", opNz, INPLACE; z.inverse(), X.inv());
		OP1(Fp, "unary -", 0, z = -x, -X);
	}
	return v;
}

inline ref::F2 scale(const ref::F2& x, const Z& k) { return ref::F2(x.a * k, x.b * k); }

template<>
inline const std::vector<Op<Fp2> >& opsOf<Fp2>()
{
	static std::vector<Op<Fp2> > v;
	if (v.empty()) {
		commonOps(v);
		OP1(Fp2, "square", 0, Fp2::square(z, x), X * X);
		OP1(Fp2, "mul_xi", opNoAlias, Fp2::mul_xi(z, x), X * ref::xi());
		OP1(Fp2, "divBy2", 0, Fp2::divBy2(z, x), scale(X, inv2()));
		OP1(Fp2, "divBy4", 0, Fp2::divBy4(z, x), scale(X, inv4()));
		OP1(Fp2, "inverse", opNz, INPLACE; z.inverse(), X.inv());
		OP1(Fp2, "mul_x", 0, INPLACE; z.mul_x(), X * ref::F2(Z(0), Z(1)));
		OP1(Fp2, "unary -", 0, z = -x, -X);
		OP2(Fp2, "mul_Fp_0", 0, const Fp t = y.a_; Fp2::mul_Fp_0(z, x, t), scale(X, Y.a));
		OP2(Fp2, "mul_Fp_1", 0, Fp t = y.b_; INPLACE; Fp2::mul_Fp_1(z, t), X * ref::F2(Z(0), Y.b));
#ifdef PT_INTERNAL
		OP2(Fp2, "addC", opPortable, Fp2::addC(z, x, y), X + Y);
		OP2(Fp2, "subC", opPortable, Fp2::subC(z, x, y), X - Y);
		OP2(Fp2, "mulC", opPortable, Fp2::mulC(z, x, y), X * Y);
		OP1(Fp2, "squareC", opPortable, Fp2::squareC(z, x), X * X);
		OP1(Fp2, "mul_xiC", opPortable | opNoAlias, Fp2::mul_xiC(z, x), X * ref::xi());
		OP1(Fp2, "divBy2C", opPortable, Fp2::divBy2C(z, x), scale(X, inv2()));
		OP2(Fp2, "mul_Fp_0C", opPortable, const Fp t = y.a_; Fp2::mul_Fp_0C(z, x, t), scale(X, Y.a));
#endif
	}
	return v;
}

template<>
inline const std::vector<Op<Fp6> >& opsOf<Fp6>()
{
	static std::vector<Op<Fp6> > v;
	if (v.empty()) {
		commonOps(v);
		OP1(Fp6, "square", opNoAlias, Fp6::square(z, x), X * X);
		OP1(Fp6, "inverse", opNz, INPLACE; z.inverse(), X.inv());
		OP1(Fp6, "unary -", 0, z = -x, -X);
#ifdef PT_INTERNAL
		OP2(Fp6, "addC", opPortable, Fp6::addC(z, x, y), X + Y);
		OP2(Fp6, "subC", opPortable, Fp6::subC(z, x, y), X - Y);
		OP2(Fp6, "mulC", opPortable, Fp6::mulC(z, x, y), X * Y);
		{
			struct L {
				static void b(Fp6& z, const Fp6& x, const Fp6& y) { Fp t = y.a_.a_; INPLACE; Fp6::mul_Fp_b(z, t); }
				static ref::F12 mb(const ref::F12& x, const ref::F12& y) { ref::F12 r = x; r.c[2] = scale(r.c[2], y.c[0].a); return r; }
				static void c(Fp6& z, const Fp6& x, const Fp6& y) { Fp t = y.a_.a_; INPLACE; Fp6::mul_Fp_c(z, t); }
				static ref::F12 mc(const ref::F12& x, const ref::F12& y) { ref::F12 r = x; r.c[4] = scale(r.c[4], y.c[0].a); return r; }
			};
			Op<Fp6> b = { "mul_Fp_b", 2, 0, L::b, L::mb }, c = { "mul_Fp_c", 2, 0, L::c, L::mc };
			v.push_back(b);
			v.push_back(c);
		}
#endif
	}
	return v;
}

// sparse line element (l00, l11, l02): w^0, w^3, w^4
inline ref::F12 sparse(const ref::F12& y6)
{
	ref::F12 r;
	r.c[0] = y6.c[0];
	r.c[3] = y6.c[2];
	r.c[4] = y6.c[4];
	return r;
}
// w^0, w^2, w^4 part
inline ref::F12 low6(const ref::F12& x)
{
	ref::F12 r;
	for (int i = 0; i < 6; i += 2) r.c[i] = x.c[i];
	return r;
}
inline ref::F12 high6(const ref::F12& x)
{
	ref::F12 r;
	for (int i = 0; i < 6; i += 2) r.c[i] = x.c[i + 1];
	return r;
}

template<>
inline const std::vector<Op<Fp12> >& opsOf<Fp12>()
{
	static std::vector<Op<Fp12> > v;
	if (v.empty()) {
		commonOps(v);
		OP1(Fp12, "square", 0, INPLACE; Fp12::square(z), X * X);
		OP1(Fp12, "inverse", opNz, INPLACE; z.inverse(), X.inv());
		OP1(Fp12, "Frobenius", 0, x.Frobenius(z), ref::frob(X));
		OP1(Fp12, "Frobenius2", 0, x.Frobenius2(z), ref::frob(ref::frob(X)));
		OP1(Fp12, "Frobenius3", 0, x.Frobenius3(z), ref::frob(ref::frob(ref::frob(X))));
		OP2(Fp12, "mul_Fp2_024", 0, Fp6 t = y.a_; INPLACE; Fp12Dbl::mul_Fp2_024(z, t), X * sparse(low6(Y)));
		OP2(Fp12, "mul_Fp2_024_Fp2_024", 0, Fp6 t = x.a_; Fp6 u = y.b_; Fp12Dbl::mul_Fp2_024_Fp2_024(z, t, u), sparse(low6(X)) * sparse(high6(Y)));
#ifdef PT_INTERNAL
		OP2(Fp12, "mulC", opPortable, Fp12::mulC(z, x, y), X * Y);
		OP1(Fp12, "squareC", opPortable, INPLACE; Fp12::squareC(z), X * X);
		OP2(Fp12, "mul_Fp2_024C", opPortable, Fp6 t = y.a_; INPLACE; Fp12Dbl::mul_Fp2_024C(z, t), X * sparse(low6(Y)));
#endif
	}
	return v;
}

// one operation, out of place, on generated operands, against the model
template<class T>
void runOp(Src&, Case& c, const Op<T>& o, const T& x0, const T& y)
{
	typedef typename Model<T>::R R;
	T x = x0;
	R X = Model<T>::get(x);
	if ((o.flags & opNz) && X.isZero()) {
		X = R(1);
		x = Model<T>::make(X);
	}
	const R Y = Model<T>::get(y);
	c.cls(o.name);
	T z;
	memset((void*)&z, 0xa5, sizeof(z));
	o.run(z, x, y);
	expectEq(z, o.model(X, Y), o.name);
	if (Model<T>::get(x) != X || Model<T>::get(y) != Y || !canon(x) || !canon(y)) pt::fail(std::string(o.name) + ": an operand changed");
}

// a history of operations on a pool of objects, in place and out of place
template<class T>
void history(Src& s, Case& c, size_t pool, size_t maxLen)
{
	typedef typename Model<T>::R R;
	const std::vector<Op<T> >& ops = opsOf<T>();
	std::vector<T> x(pool);
	std::vector<R> X(pool);
	for (size_t i = 0; i < pool; i++) {
		x[i] = i && s.chance(1, 2) ? genNear(s, x[i - 1]) : gen<T>(s);
		X[i] = Model<T>::get(x[i]);
		if (c.verbose) {
			std::ostringstream os;
			os << "x" << i << " = " << rawStr(x[i]);
			c.say(os.str());
		}
	}
	const size_t len = s.range(1, maxLen);
	for (size_t k = 0; k < len; k++) {
		const Op<T>& o = ops[s.below(ops.size())];
		size_t d = s.below(pool), a = s.below(pool), b = o.arity == 2 ? s.below(pool) : a;
		if ((o.flags & opNz) && X[a].isZero()) continue;
		if ((o.flags & opNoAlias) && d == a) continue;
		if (c.verbose) {
			std::ostringstream os;
			os << "x" << d << " = " << o.name << "(x" << a;
			if (o.arity == 2) os << ", x" << b;
			os << ")";
			c.say(os.str());
		}
		const R V = o.model(X[a], X[b]);
		o.run(x[d], x[a], x[b]);
		X[d] = V;
		c.cls(o.name);
		expectEq(x[d], X[d], o.name);
	}
	for (size_t i = 0; i < pool; i++) {
		expectEq(x[i], X[i], "object after the history");
		PT_CHECK(x[i].isZero() == X[i].isZero(), "isZero");
		for (size_t j = 0; j < pool; j++) {
			const bool same = X[i] == X[j];
			PT_CHECK((x[i] == x[j]) == same, "operator==, objects " << i << " and " << j);
			PT_CHECK((x[i] != x[j]) == !same, "operator!=, objects " << i << " and " << j);
		}
		T copy = Model<T>::make(X[i]);
		PT_CHECK(copy == x[i], "equal values built differently compare unequal");
	}
	c.nontrivial(len >= 3);
}
