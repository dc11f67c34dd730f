// Programs whose results are compared with those of other processes by their digests
#pragma once
#include "script.h"

static void emit(Case& c, const Script& t)
{
	Script::Out o;
	t.run(o);
	pt::digest(o.bytes.data(), o.bytes.size());
	if (c.verbose) {
		std::ostringstream os;
		for (size_t i = 0; i < t.step.size(); i++) {
			u64 h = 0;
			for (size_t j = i ? o.end[i - 1] : 0; j < o.end[i]; j++) h = pt::mix64(h ^ (unsigned char)o.bytes[j]);
			os << "after step " << i << ": " << std::hex << h << std::dec << "\n";
		}
		c.say(os.str());
	}
}

// compared with the other processes by their digests
PT_TEST_F(small, 1500, 60000, pt::kSameInputs)
{
	Script t(s, c, 40, 0);
	c.nontrivial(t.step.size() >= 3);
	emit(c, t);
}
PT_TEST_F(medium, 400, 20000, pt::kSameInputs)
{
	Script t(s, c, 30, 1);
	c.nontrivial(t.step.size() >= 3);
	emit(c, t);
}
PT_TEST_F(large, 150, 8000, pt::kSameInputs)
{
	Script t(s, c, 20, 2);
	c.nontrivial(t.step.size() >= 3);
	emit(c, t);
}
// everything published
PT_TEST_F(parameters, 1, 1, pt::kSameInputs)
{
	(void)s;
	c.nontrivial();
	Script::Out o;
	o.str(Param::z.toString());
	o.str(Param::largest_c.toString());
	o.val(Param::p); o.val(Param::r); o.val(Param::t);
	o.val(Param::Z); o.val(Param::W2p); o.val(Param::W3p);
	for (int i = 0; i < 5; i++) { o.val(Param::gammar[i]); o.val(Param::gammar2[i]); o.val(Param::gammar3[i]); }
	o.val(Param::i0); o.val(Param::i1); o.num((u64)Param::b); o.val(Param::b_invxi); o.val(Param::half);
	o.str(std::string(Param::siTbl.begin(), Param::siTbl.end()));
	o.num(Param::useNAF);
#ifdef BN_SUPPORT_SNARK
	o.str(std::string(Param::zReplTbl.begin(), Param::zReplTbl.end()));
#endif
	o.val(Fp::getModulo());
	o.val(Fp::getMontgomeryR());
	for (int i = 0; i < 7; i++) o.val(Fp::getDirectP(i));
	pt::digest(o.bytes.data(), o.bytes.size());
	c.say(std::string("parameters of the curve"));
}
