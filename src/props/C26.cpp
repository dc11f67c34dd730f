// Malformed text: rejected, or the accepted characters are a numeral of the value
#include "text.h"

static const char kAlphabet[] = "0123456789abcdefABCDEFxX-+ \t\n[],_.g:;'\"\\/%\0\x80\xff";

static std::string genChunk(Src& s)
{
	switch (s.below(8)) {
	case 0: return "";
	case 1: return "0x";
	case 2: return "-";
	case 3: return std::string((size_t)s.below(30), '0');
	case 4: return genNumeral(s, 200).get_str(16);
	case 5: return genNumeral(s, 200).get_str(10);
	case 6: { std::string r; for (size_t n = s.below(6); n; n--) r += kAlphabet[s.below(sizeof(kAlphabet) - 1)]; return r; }
	default: return std::string(1, kAlphabet[s.below(sizeof(kAlphabet) - 1)]);
	}
}
// well-formed text with a few edits
static std::string mutate(Src& s, std::string t, bool *changed)
{
	static const char *const bits[] = { "-", "+", " ", "0x", "x", "0X", "a", "g", "G", "_", ",", "[", "]", "\n", "\t", ".", "--", "0", "9", "e5", "h", "L", "\xb2" };
	size_t n = s.below(4);
	for (; n; n--) {
		const size_t at = s.chance(1, 2) ? (size_t)s.below(t.size() + 1) : (s.flip() ? 0 : t.size());
		const size_t near = t.size() > 8 ? t.size() - (at % 12 < t.size() ? at % 12 : 0) : at; // inside a chunk
		switch (s.below(9)) {
		case 0: t.insert(at, bits[s.below(sizeof(bits) / sizeof(bits[0]))]); break;
		case 1: if (at < t.size()) t.erase(at, 1 + (size_t)s.below(3)); break;
		case 2: if (at < t.size()) t[at] = kAlphabet[s.below(sizeof(kAlphabet) - 1)]; break;
		case 3: t = t.substr(0, at); break; // truncated
		case 4: t.insert(near, bits[s.below(sizeof(bits) / sizeof(bits[0]))]); break;
		case 5: if (at + 1 < t.size()) std::swap(t[at], t[at + 1]); break;
		case 6: t.insert(at, genChunk(s)); break;
		case 7: t += genChunk(s); break;
		default: if (at < t.size()) t.insert(at, t.substr(at, 1 + (size_t)s.below(4))); break;
		}
		*changed = true;
	}
	return t;
}
static std::string genIntText(Src& s, Z X, bool sign)
{
	bool ch;
	std::string t = variant(s, X, s.flip() ? 16 : 10);
	switch (s.below(8)) {
	case 0: { t = ""; for (size_t n = s.below(6); n; n--) t += genChunk(s); return t; }
	case 1: { t = ""; for (size_t n = s.below(12); n; n--) t += kAlphabet[s.below(sizeof(kAlphabet) - 1)]; return t; }
	case 2: return genBlanks(s, 1) + t;
	case 3: return t + genBlanks(s, 1);
	case 4: return (sign ? "--" : "-") + t;
	default: return mutate(s, t, &ch);
	}
}

enum { kThrew = 1, kStreamFailed = 2 };
// what became of one attempt: 0 accepted
template<class F> static int attempt(F f)
{
	try { return f() ? 0 : kStreamFailed; }
	catch (std::exception& e) { return kThrew; }
}
template<class T> struct SetS {
	T& x;
	const std::string& t;
	int base;
	SetS(T& x, const std::string& t, int base = 0) : x(x), t(t), base(base) {}
	bool operator()() { x.set(t, base); return true; }
};
template<class T> struct Set1 {
	T& x;
	const std::string& t;
	Set1(T& x, const std::string& t) : x(x), t(t) {}
	bool operator()() { x.set(t); return true; }
};
template<class T> struct From {
	T& x;
	const std::string& t;
	int base;
	From(T& x, const std::string& t, int base) : x(x), t(t), base(base) {}
	bool operator()() { x.fromStr(t, base); return true; }
};
template<class T> struct Ctor {
	T& x;
	const std::string& t;
	Ctor(T& x, const std::string& t) : x(x), t(t) {}
	bool operator()() { x = T(t); return true; }
};
template<class T> struct Read {
	T& x;
	std::istringstream& is;
	Read(T& x, std::istringstream& is) : x(x), is(is) {}
	bool operator()() { is >> x; return !is.fail(); }
};
static std::string consumed(std::istringstream& is, const std::string& t)
{
	const std::streamoff at = is.rdbuf()->pubseekoff(0, std::ios_base::cur, std::ios_base::in);
	if (at < 0) return t;
	return t.substr(0, (size_t)at);
}

static Z valueOf(const Vuint& x) { return toZ(x); }
static Z valueOf(const Vsint& x) { return toZ(x); }
static Z valueOf(const Fp& x) { return val(x); }
static Z valueOf(const mie::ZmZ<>& x) { return toZ(x.get()); }

// string interface against the grammar
static void judge(Case& c, const std::string& t, bool wellFormed, const Z& want, int got, const Z& value, const char *what)
{
	if (wellFormed) {
		c.cls("well formed");
		PT_CHECK(got == 0, what << " rejects the numeral " << quoted(t));
		PT_CHECK(value == want, what << " reads " << quoted(t) << " as " << hex(value) << " instead of " << hex(want));
	} else {
		c.cls("malformed");
		PT_CHECK(got != 0, what << " accepts " << quoted(t) << " as " << hex(value));
	}
}
// stream interface: what was accepted is a numeral of the value; a whole numeral is accepted
static bool tooLarge(const Z& x) { return mpz_sizeinbase(Z(abs(x)).get_mpz_t(), 2) > kTextBits; }
static void judgeStream(Case& c, const std::string& t, const std::string& used, bool sign, int got, const Z& value, bool residue, const char *what)
{
	Z want;
	if (got == 0) {
		c.cls("stream accepted");
		const std::string u = strip(used);
		PT_CHECK(parseNumeral(want, u, sign), what << " accepts " << quoted(used) << " of " << quoted(t) << " as " << hex(value));
		if (residue) want = ref::mod(want);
		PT_CHECK(value == want, what << " reads " << quoted(used) << " of " << quoted(t) << " as " << hex(value) << " instead of " << hex(want));
		return;
	}
	c.cls("stream refused");
	// the text up to the first blank, or all of it
	const std::string u = strip(t);
	size_t e = 0;
	while (e < u.size() && !blank(u[e])) e++;
	PT_CHECK(!parseNumeral(want, u.substr(0, e), sign) || (residue ? want >= ref::C.p : tooLarge(want)), what << " refuses the numeral in " << quoted(t));
}
// a value that the type cannot hold: refused, or for a residue taken modulo its modulus
static void judgeBig(Case& c, const std::string& t, const Z& want, int got, const Z& value, const char *what, bool residue)
{
	c.cls("too large");
	PT_CHECK(got != 0 || (residue && value == ref::mod(want)), what << " reads " << quoted(t) << " as " << hex(value));
}
static bool belowP(const std::vector<Z>& v) { for (size_t i = 0; i < v.size(); i++) if (v[i] >= ref::C.p) return false; return true; }
static std::vector<Z> residues(std::vector<Z> v) { for (size_t i = 0; i < v.size(); i++) v[i] = ref::mod(v[i]); return v; }
// numerals beyond every limit now and then
static Z genHuge(Src& s) { return genNumeral(s, s.flip() ? 3 * kTextBits : kTextBits + 64); }
static Z genFieldText(Src& s) { return s.chance(1, 12) ? genHuge(s) : s.chance(1, 12) ? Z(ref::C.p + genNumeral(s, 256)) : genText(s); }

template<class T> static void integer(Src& s, Case& c, bool sign, const char *what)
{
	Z X = s.chance(1, 12) ? genHuge(s) : genNumeral(s, s.flip() ? kTextBits : 70);
	if (s.flip() && sign) X = -X;
	const std::string t = genIntText(s, X, sign);
	c.say(quoted(t));
	c.nontrivial(!t.empty());
	Z want;
	T x;
	bool ok = parseNumeral(want, t, sign);
	T before;
	before.set(std::string("77"));
	x = before;
	int got = attempt(SetS<T>(x, t));
	if (ok && tooLarge(want)) judgeBig(c, t, want, got, valueOf(x), what, false); else judge(c, t, ok, want, got, valueOf(x), what);
	x = before;
	got = attempt(Ctor<T>(x, t));
	if (ok && tooLarge(want)) judgeBig(c, t, want, got, valueOf(x), what, false); else judge(c, t, ok, want, got, valueOf(x), what);
	for (int b = 10; b <= 16; b += 6) {
		ok = parseNumeral(want, t, sign, b);
		x = before;
		got = attempt(SetS<T>(x, t, b));
		if (ok && tooLarge(want)) judgeBig(c, t, want, got, valueOf(x), "set with base", false); else judge(c, t, ok, want, got, valueOf(x), "set with base");
		x = before;
		got = attempt(From<T>(x, t, b));
		if (ok && tooLarge(want)) judgeBig(c, t, want, got, valueOf(x), "fromStr", false); else judge(c, t, ok, want, got, valueOf(x), "fromStr");
	}
	std::istringstream is(t);
	x = before;
	got = attempt(Read<T>(x, is));
	judgeStream(c, t, consumed(is, t), sign, got, valueOf(x), false, what);
}
PT_TEST(unsignedIntegers, 25000, 2000000) { integer<Vuint>(s, c, false, "Vuint"); }
PT_TEST(signedIntegers, 25000, 2000000) { integer<Vsint>(s, c, true, "Vsint"); }

template<class T> static void element(Src& s, Case& c, const char *what)
{
	const std::string t = genIntText(s, genFieldText(s), false);
	c.say(quoted(t));
	c.nontrivial(!t.empty());
	Z want;
	const bool ok = parseNumeral(want, t, false);
	const bool big = ok && want >= ref::C.p;
	T x;
	x.set(std::string("77"));
	int got = attempt(Set1<T>(x, t));
	if (big) judgeBig(c, t, want, got, valueOf(x), what, true); else judge(c, t, ok, want, got, valueOf(x), what);
	x.set(std::string("77"));
	got = attempt(Ctor<T>(x, t));
	if (big) judgeBig(c, t, want, got, valueOf(x), what, true); else judge(c, t, ok, want, got, valueOf(x), what);
}
PT_TEST(primeField, 20000, 1000000)
{
	element<Fp>(s, c, "Fp");
	const std::string t = genIntText(s, genFieldText(s), false);
	c.say(quoted(t));
	std::istringstream is(t);
	Fp x = fpOf(Z(77));
	const int got = attempt(Read<Fp>(x, is));
	if (got == 0) PT_CHECK(canon(x), "Fp read is not reduced");
	judgeStream(c, t, consumed(is, t), false, got, valueOf(x), true, "Fp");
}
PT_TEST(residues, 10000, 300000)
{
	mie::ZmZ<>::setModulo(vuintOf(ref::C.p));
	element<mie::ZmZ<> >(s, c, "ZmZ");
}

/////////////////////////////////////////////////////////////////////////////
// composite formats

// grammar of nested tuples: numerals separated by the delimiters of the pattern, '#' is a numeral, white space anywhere between
struct Tuple {
	const std::string& t;
	size_t at;
	std::vector<Z> v;
	Tuple(const std::string& t) : t(t), at(0) {}
	void skip() { while (at < t.size() && blank(t[at])) at++; }
	bool lit(char ch) { skip(); if (at < t.size() && t[at] == ch) { at++; return true; } return false; }
	bool num()
	{
		skip();
		const size_t b = at;
		while (at < t.size() && (isxdigit((unsigned char)t[at]) || (t[at] == 'x' && at == b + 1 && t[b] == '0'))) at++;
		Z z;
		if (!parseNumeral(z, t.substr(b, at - b), false)) return false;
		v.push_back(z);
		return true;
	}
	bool match(const char *pattern)
	{
		for (; *pattern; pattern++) if (!(*pattern == '#' ? num() : lit(*pattern))) return false;
		return true;
	}
	bool end() { skip(); return at == t.size(); }
};
#define P2 "[#,#]"
#define P6 "[" P2 "," P2 "," P2 "]"
#define P12 "[" P6 "," P6 "]"
static std::string genTuple(Src& s, const char *pattern, bool blanks)
{
	std::string t;
	for (; *pattern; pattern++) {
		if (blanks && s.chance(1, 6)) t += genBlanks(s, 1);
		if (*pattern == '#') t += variant(s, s.flip() ? genFieldText(s) : zu(s.below(20)), s.flip() ? 16 : 10);
		else t += *pattern;
	}
	return t;
}
static std::string genTupleText(Src& s, const char *pattern, bool blanks)
{
	bool ch;
	std::string t = genTuple(s, pattern, blanks);
	switch (s.below(10)) {
	case 0: return t + genChunk(s);
	case 1: { // another delimiter
		static const char d[] = "[],;(){} \n_0";
		const size_t at = t.find_first_of("[],", (size_t)s.below(t.size()));
		if (at != std::string::npos) t[at] = d[s.below(sizeof(d) - 1)];
		return t;
	}
	case 2: { // a delimiter less
		const size_t at = t.find_first_of("[],", (size_t)s.below(t.size()));
		if (at != std::string::npos) t.erase(at, 1);
		return t;
	}
	case 3: return t.substr(0, (size_t)s.below(t.size() + 1));
	case 4: return t;
	case 5: { static const char *const o[] = { P2, "[#]", "[#,#,#]", P6, "[" P2 "," P2 "]", "#", "[,]", "[#,]", "[,#]", "" }; return genTuple(s, o[s.below(10)], blanks); }
	default: return mutate(s, t, &ch);
	}
}
static std::vector<Z> coefs(const Fp *p, size_t n) { std::vector<Z> r; for (size_t i = 0; i < n; i++) r.push_back(val(p[i])); return r; }
static std::vector<Z> coefs(const Fp2& x) { return coefs(&x.a_, 2); }
static std::vector<Z> coefs(const Fp6& x) { return coefs(x.get(), 6); }
static std::vector<Z> coefs(const Fp12& x) { return coefs(x.get(), 12); }

template<class T> static void tuple(Src& s, Case& c, const char *pattern, const char *what)
{
	const std::string t = genTupleText(s, pattern, true);
	c.say(quoted(t));
	c.nontrivial(!t.empty());
	std::istringstream is(t);
	T x = gen<T>(s);
	const int got = attempt(Read<T>(x, is));
	Tuple g(t);
	const bool ok = g.match(pattern);
	if (ok) {
		c.cls("well formed");
		if (!belowP(g.v)) { c.cls("not below p"); PT_CHECK(got != 0 || coefs(x) == residues(g.v), what << ": >> reads " << quoted(t) << " as " << rawStr(x)); return; }
		PT_CHECK(got == 0, what << ": >> refuses " << quoted(t));
		PT_CHECK(coefs(x) == g.v, what << ": >> reads " << quoted(t) << " as " << rawStr(x));
		const std::string used = consumed(is, t);
		PT_CHECK(used == t.substr(0, g.at), what << ": >> took " << quoted(used) << " of " << quoted(t));
	} else {
		c.cls("malformed");
		PT_CHECK(got != 0, what << ": >> accepts " << quoted(t) << " as " << rawStr(x));
	}
}
PT_TEST(fp2Stream, 30000, 1000000) { tuple<Fp2>(s, c, P2, "Fp2"); }
PT_TEST(fp6Stream, 15000, 500000) { tuple<Fp6>(s, c, P6, "Fp6"); }
PT_TEST(fp12Stream, 10000, 300000) { tuple<Fp12>(s, c, P12, "Fp12"); }
PT_TEST(fp2String, 20000, 600000)
{
	const std::string t = genTupleText(s, P2, true);
	c.say(quoted(t));
	c.nontrivial(!t.empty());
	Fp2 x = genFp2(s);
	const int got = attempt(Set1<Fp2>(x, t));
	Tuple g(t);
	const bool whole = g.match(P2) && g.end();
	if (whole && !belowP(g.v)) { c.cls("not below p"); PT_CHECK(got != 0 || coefs(x) == residues(g.v), "set reads " << quoted(t) << " as " << rawStr(x)); return; }
	if (whole) {
		c.cls("well formed");
		PT_CHECK(got == 0, "set refuses " << quoted(t));
		PT_CHECK(coefs(x) == g.v, "set reads " << quoted(t) << " as " << rawStr(x));
	} else {
		c.cls("malformed");
		PT_CHECK(got != 0, "set accepts " << quoted(t) << " as " << rawStr(x));
	}
}

// points: "0" or two coordinates joined by '_', ended by white space
static bool coord(std::vector<Z>& v, const std::string& t, const Fp *)
{
	Z z;
	if (!parseNumeral(z, t, false)) return false;
	v.push_back(z);
	return true;
}
static bool coord(std::vector<Z>& v, const std::string& t, const Fp2 *)
{
	Tuple g(t);
	if (!g.match(P2) || !g.end()) return false;
	v.insert(v.end(), g.v.begin(), g.v.end());
	return true;
}
static std::vector<Z> coordsOf(const Ec1& e) { return coefs(e.p, 2); }
static std::vector<Z> coordsOf(const Ec2& e) { return coefs(&e.p[0].a_, 4); }
template<class FF> static void point(Src& s, Case& c, const char *what)
{
	typedef typename Grp<FF>::Ec Ec;
	typedef typename Grp<FF>::P P;
	const P p = Gen<FF>::point(s, c);
	const Ec e = Gen<FF>::rep(s, p);
	std::ostringstream os;
	os << e;
	bool ch;
	std::string t = mutate(s, os.str(), &ch);
	switch (s.below(8)) {
	case 0: t = genTuple(s, sizeof(FF) == sizeof(Fp) ? "#_#" : P2 "_" P2, s.chance(1, 4)); break;
	case 1: t = t + "_" + t; break;
	case 2: t = s.flip() ? "0" : s.flip() ? "00" : s.flip() ? "0x0" : "-0"; break;
	default: break;
	}
	t = genBlanks(s, 0) + t + (s.flip() ? genBlanks(s, 1) + genChunk(s) : "");
	c.say(quoted(t));
	c.nontrivial();
	size_t b = 0;
	while (b < t.size() && blank(t[b])) b++;
	size_t end = b;
	while (end < t.size() && !blank(t[end])) end++;
	const std::string u = t.substr(b, end - b);
	std::istringstream is(t);
	Ec r = e;
	const int got = attempt(Read<Ec>(r, is));
	if (u == "0") {
		c.cls("infinity");
		PT_CHECK(got == 0 && r.isZero(), what << ": >> of " << quoted(t) << " is not the point at infinity");
		return;
	}
	const size_t at = u.find('_');
	std::vector<Z> v;
	const bool ok = at != std::string::npos && coord(v, u.substr(0, at), e.p) && coord(v, u.substr(at + 1), e.p);
	if (!ok) {
		c.cls("malformed");
		PT_CHECK(got != 0, what << ": >> accepts " << quoted(t) << " as " << rawPt(r.p));
		return;
	}
	if (!belowP(v)) { c.cls("not below p"); PT_CHECK(got != 0 || coordsOf(r) == residues(v), what << ": >> reads " << quoted(t) << " as " << rawPt(r.p)); return; }
	// coordinates of a point of the curve or not: another question
	const bool same = v == coordsOf(Gen<FF>::rep(s, p)) || (!p.inf && v == coordsOf(e));
	(void)same;
	P q;
	q.inf = false;
	Ec w;
	FF *wp = w.p;
	for (size_t i = 0; i < v.size(); i++) ((Fp*)wp)[i] = fpOf(v[i]);
	w.p[2] = Model<FF>::make(typename Grp<FF>::R(1));
	const bool on = w.isValid();
	if (on) PT_CHECK(got == 0, what << ": >> refuses " << quoted(t));
	if (got == 0) {
		c.cls(on ? "well formed" : "not on the curve");
		PT_CHECK(coordsOf(r) == v && r.p[2] == w.p[2], what << ": >> reads " << quoted(t) << " as " << rawPt(r.p));
	}
}
PT_TEST(pointsG1, 20000, 600000) { point<Fp>(s, c, "Ec1"); }
PT_TEST(pointsG2, 10000, 300000) { point<Fp2>(s, c, "Ec2"); }
