// Results do not depend on the options of code generation, on the history of initialisations, or on whether the
// portable formula or the generated code runs. The configuration's label gives the history of this process:
// "h<curve>m<mode>x<mulx>..." initialisations before the last one, "p" the portable formulas instead of the generated code.
#define PT_CUSTOM_INIT
#include "script.h"
#include "scripttests.h"

struct Slot {
	const char *name;
	void **where;
	void *portable, *generated;
};
static std::vector<Slot> gSlot;
static void slot(const char *name, void *where)
{
	Slot s = { name, (void**)where, *(void**)where, 0 };
	if (s.portable) gSlot.push_back(s);
}
#define SLOT(x) slot(#x, (void*)&x)

#ifdef PT_INTERNAL
// those the others are built on, called directly only
static struct Base {
	void (*add)(Fp&, const Fp&, const Fp&), (*addNC)(Fp&, const Fp&, const Fp&), (*sub)(Fp&, const Fp&, const Fp&), (*subNC)(Fp&, const Fp&, const Fp&), (*mul)(Fp&, const Fp&, const Fp&);
	void (*neg)(Fp&, const Fp&);
	FpDbl::bin_op *dblAddNC, *dblSubNC;
} gBase;
#endif
static void slots()
{
#ifdef PT_INTERNAL
	// before the first initialisation every pointer stands for the portable formula.
	// Those of Fp itself serve the first initialisation only (its product is defined by the pointers); see portableFp.
	SLOT(FpDbl::add); SLOT(FpDbl::neg); SLOT(FpDbl::sub); SLOT(FpDbl::mul); SLOT(FpDbl::mod);
	SLOT(Fp2::add); SLOT(Fp2::addNC); SLOT(Fp2::sub); SLOT(Fp2::subNC); SLOT(Fp2::mul); SLOT(Fp2::square); SLOT(Fp2::mul_xi); SLOT(Fp2::mul_Fp_0); SLOT(Fp2::divBy2);
	SLOT(Fp2Dbl::add); SLOT(Fp2Dbl::addNC); SLOT(Fp2Dbl::neg); SLOT(Fp2Dbl::sub); SLOT(Fp2Dbl::subNC);
	SLOT(Fp2Dbl::mulOpt1); SLOT(Fp2Dbl::mulOpt2); SLOT(Fp2Dbl::square); SLOT(Fp2Dbl::mod); SLOT(Fp2Dbl::mul_xi);
	SLOT(Fp6::add); SLOT(Fp6::sub); SLOT(Fp6::mul); SLOT(Fp6::pointDblLineEval); SLOT(Fp6::pointDblLineEvalWithoutP); SLOT(Fp6Dbl::mul);
	SLOT(Fp12::mul); SLOT(Fp12::square); SLOT(Fp12Dbl::mul_Fp2_024);
	SLOT(bn::Compress::square_n);
	const Base b = { Fp::add, Fp::addNC, Fp::sub, Fp::subNC, Fp::mul, Fp::neg, FpDbl::addNC, FpDbl::subNC };
	gBase = b;
	typedef mie::local::PrimitiveFunction F;
	SLOT(F::addN); SLOT(F::add1); SLOT(F::subN); SLOT(F::sub1); SLOT(F::mul1); SLOT(F::div1); SLOT(F::mod1);
#endif
}
static bool gPortable;

static void init(Src *s, const std::string& curve, int mode, bool mulx, bool shortForm)
{
	(void)s;
	if (shortForm && (curve == "bn254" || curve == "snark1")) Param::init(mode, mulx);
	else Param::init(curveOf(curve), mode, mulx);
}

void pt::initLibrary()
{
	slots();
	const std::string& k = pt::cfg.key;
	size_t at = k.rfind('-');
	const std::string label = at == std::string::npos ? "" : k.substr(at + 1);
	if (!label.empty() && label[0] == 'h') {
		// h then triples: curve digit, mode digit (9: automatic), multiplier digit
		for (size_t i = 1; i + 2 < label.size(); i += 3) {
			const std::string curve = pt::cfg.curve == "bn254" ? "bn254" : label[i] == '2' ? "snark2" : "snark1";
			init(0, curve, label[i + 1] == '9' ? -1 : label[i + 1] - '0', label[i + 2] == '1', false);
		}
	}
	refInit(pt::cfg.curve);
	init(0, pt::cfg.curve, pt::cfg.mode, pt::cfg.mulx, label == "s");
	for (size_t i = 0; i < gSlot.size(); i++) gSlot[i].generated = *gSlot[i].where;
	gPortable = label == "p";
	if (gPortable) for (size_t i = 0; i < gSlot.size(); i++) *gSlot[i].where = gSlot[i].portable;
}

// initialisations in the middle of a process
PT_TEST(again, 150, 6000)
{
	const int cost = s.chance(1, 4) ? 2 : 1;
	Script t(s, c, 20, cost);
	Script::Out o, o2;
	t.run(o);
	const size_t n = s.range(1, 4);
	for (size_t i = 0; i < n; i++) {
		std::string curve = pt::cfg.curve;
		if (curve != "bn254") curve = s.flip() ? "snark1" : "snark2";
		const int mode = (int)s.below(4) - 1;
		const bool mulx = s.flip();
		if (c.verbose) c.say("initialise " + curve);
		init(&s, curve, mode, mulx, s.flip());
		if (s.flip()) {
			// work on that curve
			refInit(curve);
			Script u(s, c, 10, 1);
			Script::Out t1, t2;
			u.run(t1);
			u.run(t2);
			const std::string d = Script::difference(u, t1, t2);
			PT_CHECK(d.empty(), "two runs of one script differ " << d);
		}
	}
	refInit(pt::cfg.curve);
	init(&s, pt::cfg.curve, (int)s.below(3) - 1, s.flip(), s.flip());
	c.nontrivial();
	t.run(o2);
	const std::string d = Script::difference(t, o, o2);
	PT_CHECK(d.empty(), "after initialising again the script gives something else " << d);
}

#ifdef PT_INTERNAL
// any subset of the generated code replaced by the portable formulas
struct Swap {
	~Swap() { for (size_t i = 0; i < gSlot.size(); i++) *gSlot[i].where = gPortable ? gSlot[i].portable : gSlot[i].generated; }
};
PT_TEST(portable, 250, 10000)
{
	Script t(s, c, 16, s.chance(1, 4) ? 2 : 1);
	Script::Out o, o2;
	t.run(o);
	Swap swap;
	const u64 how = s.below(3);
	const size_t one = (size_t)s.below(gSlot.size());
	for (size_t i = 0; i < gSlot.size(); i++) {
		const bool p = how == 0 ? i == one : how == 1 ? s.flip() : true;
		*gSlot[i].where = p ? gSlot[i].portable : gSlot[i].generated;
		if (p) { if (c.verbose) c.say(std::string("portable ") + gSlot[i].name); if (how == 0) c.cls(gSlot[i].name); }
	}
	c.nontrivial();
	t.run(o2);
	const std::string d = Script::difference(t, o, o2);
	PT_CHECK(d.empty(), "portable formulas give something else " << d);
}

PT_TEST(portableFp, 4000, 200000)
{
	const Fp x = genFp(s), y = s.flip() ? genFpNear(s, x) : genFp(s);
	NOTE_F(c, x);
	NOTE_F(c, y);
	c.nontrivial(raw(x) > 1 || raw(y) > 1);
	Fp a, b;
#define BOTH(f, g) if (gBase.f) { gBase.f(a, x, y); g(b, x, y); PT_CHECK(memcmp(&a, &b, sizeof(a)) == 0, "portable " #g " gives " << hex(raw(a)) << " instead of " << hex(raw(b))); }
	BOTH(add, Fp::add)
	BOTH(sub, Fp::sub)
	BOTH(mul, Fp::mul)
	if (gBase.neg) { gBase.neg(a, x); Fp::neg(b, x); PT_CHECK(a == b, "portable Fp::neg"); }
	if (raw(x) + raw(y) < ref::C.R) BOTH(addNC, Fp::addNC)
	if (raw(x) >= raw(y)) BOTH(subNC, Fp::subNC)
	FpDbl p, q;
	const FpDbl u = genDbl(s), v = genDbl(s);
	if (gBase.dblAddNC) { gBase.dblAddNC(p, u, v); FpDbl::addNC(q, u, v); PT_CHECK(raw(p) == raw(q), "portable FpDbl::addNC"); }
	if (gBase.dblSubNC && raw(u) >= raw(v)) { gBase.dblSubNC(p, u, v); FpDbl::subNC(q, u, v); PT_CHECK(raw(p) == raw(q), "portable FpDbl::subNC"); }
}
#endif
