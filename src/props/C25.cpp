// Text written and read back
#include "text.h"

template<class T> static std::string shown(const T& x, int base)
{
	std::ostringstream os;
	if (base == 16) os << std::hex;
	os << x;
	return os.str();
}
#define EXPECT_TEXT(got, want, what) do { const std::string pt_g = (got), pt_w = (want); \
	PT_CHECK(pt_g == pt_w, what << ": " << quoted(pt_g) << ", expected " << quoted(pt_w)); } while (0)

PT_TEST(unsignedIntegers, 20000, 600000)
{
	const Z X = genNumeral(s, kTextBits);
	NOTE_Z(c, X);
	c.nontrivial(X > 9);
	const Vuint x = vuintOf(X);
	EXPECT_TEXT(x.toString(), numeral(X, 10), "toString()");
	EXPECT_TEXT(x.toString(10), numeral(X, 10), "toString(10)");
	EXPECT_TEXT(x.toString(16), numeral(X, 16), "toString(16)");
	EXPECT_TEXT(x.toStr(16), numeral(X, 16), "toStr(16)");
	EXPECT_TEXT(x.toStr(), numeral(X, 10), "toStr()");
	EXPECT_TEXT(shown(x, 10), numeral(X, 10), "<<");
	EXPECT_TEXT(shown(x, 16), numeral(X, 16), "<< hex");
	for (int b = 10; b <= 16; b += 6) {
		Vuint y = vuintOf(genUint(s, kTextBits));
		y.set(x.toString(b));
		PT_CHECK(y == x && toZ(y) == X && y.size() == x.size(), "set of the text in base " << b << " gives " << hex(toZ(y)));
		PT_CHECK(Vuint(x.toString(b)) == x, "construction from the text in base " << b);
		y = vuintOf(genUint(s, kTextBits));
		y.fromStr(x.toStr(b), b);
		PT_CHECK(y == x, "fromStr of the text in base " << b);
		std::istringstream is(shown(x, b));
		y = vuintOf(genUint(s, kTextBits));
		is >> y;
		PT_CHECK(!is.fail() && y == x, ">> of the text in base " << b << " gives " << hex(toZ(y)));
		PT_CHECK(is.peek() == EOF, "text left over");
	}
	const int b = s.flip() ? 16 : 10;
	const std::string t = variant(s, X, b);
	c.say(quoted(t));
	Vuint y;
	y.set(t);
	PT_CHECK(y == x, "another numeral of the same value gives " << hex(toZ(y)));
	if (b == 16) {
		y.set(t.substr(2), 16);
		PT_CHECK(y == x, "hexadecimal digits without prefix give " << hex(toZ(y)));
	}
}

PT_TEST(signedIntegers, 20000, 600000)
{
	Z X = genNumeral(s, kTextBits);
	if (s.flip()) X = -X;
	NOTE_Z(c, X);
	c.nontrivial(abs(X) > 9);
	c.cls(X < 0 ? "negative" : "not negative");
	Vsint x(vuintOf(abs(X)));
	if (X < 0 || (X == 0 && s.flip())) x = -x;
	EXPECT_TEXT(x.toString(), numeral(X, 10), "toString()");
	EXPECT_TEXT(x.toString(16), numeral(X, 16), "toString(16)");
	EXPECT_TEXT(x.toStr(16), numeral(X, 16), "toStr(16)");
	EXPECT_TEXT(shown(x, 10), numeral(X, 10), "<<");
	EXPECT_TEXT(shown(x, 16), numeral(X, 16), "<< hex");
	for (int b = 10; b <= 16; b += 6) {
		Vsint y(vuintOf(genUint(s, kTextBits)));
		if (s.flip()) y = -y;
		const Vsint before = y;
		y.set(x.toString(b));
		PT_CHECK(y == x && toZ(y) == X, "set of the text in base " << b << " gives " << hex(toZ(y)));
		PT_CHECK(Vsint(x.toString(b)) == x, "construction from the text in base " << b);
		y = before;
		y.fromStr(x.toStr(b), b);
		PT_CHECK(y == x, "fromStr of the text in base " << b);
		std::istringstream is(shown(x, b));
		y = before;
		is >> y;
		PT_CHECK(!is.fail() && y == x && toZ(y) == X, ">> of the text in base " << b << " gives " << hex(toZ(y)));
		PT_CHECK(is.peek() == EOF, "text left over");
	}
	const std::string t = variant(s, X, s.flip() ? 16 : 10);
	c.say(quoted(t));
	Vsint y(-5);
	y.set(t);
	PT_CHECK(y == x && toZ(y) == X, "another numeral of the same value gives " << hex(toZ(y)));
}

PT_TEST(primeField, 10000, 300000)
{
	const Z X = genText(s);
	NOTE_Z(c, X);
	c.nontrivial(X > 9);
	const Fp x = fpOf(X);
	EXPECT_TEXT(x.toString(), numeral(X, 10), "toString()");
	EXPECT_TEXT(x.toString(16), numeral(X, 16), "toString(16)");
	EXPECT_TEXT(shown(x, 10), numeral(X, 10), "<<");
	EXPECT_TEXT(shown(x, 16), numeral(X, 16), "<< hex");
	PT_CHECK(toZ(x.get()) == X, "get");
	const int b = s.flip() ? 16 : 10;
	Fp y = genFp(s);
	y.set(x.toString(b));
	PT_CHECK(y == x && canon(y), "set of the text in base " << b << " gives " << rawStr(y));
	PT_CHECK(Fp(x.toString(b)) == x, "construction from the text in base " << b);
	std::istringstream is(shown(x, b));
	y = genFp(s);
	is >> y;
	PT_CHECK(!is.fail() && y == x, ">> of the text in base " << b << " gives " << rawStr(y));
	PT_CHECK(is.peek() == EOF, "text left over");
	const std::string t = variant(s, X, b);
	c.say(quoted(t));
	y.set(t);
	PT_CHECK(y == x, "another numeral of the same value gives " << rawStr(y));
	// residues
	mie::ZmZ<> z;
	mie::ZmZ<>::setModulo(vuintOf(ref::C.p));
	z.set(x.toString(b));
	PT_CHECK(toZ(z.get()) == X, "ZmZ set of the text gives " << hex(toZ(z.get())));
	EXPECT_TEXT(shown(z, b), numeral(X, b), "<< of ZmZ");
}

template<class T> static std::string textOf(const Fp& x, int b) { return x.toString(b); }
static std::string num(const Fp& x, int b) { return numeral(val(x), b); }
static std::string num(const Fp2& x, int b) { return "[" + num(x.a_, b) + "," + num(x.b_, b) + "]"; }

template<class T> static void roundTrip(Src& s, Case& c, const T& x, const char *what)
{
	const int b = s.flip() ? 16 : 10;
	const std::string t = shown(x, b);
	c.say(quoted(t));
	std::istringstream is(t);
	T y = gen<T>(s);
	is >> y;
	PT_CHECK(!is.fail() && y == x, what << " read back in base " << b << " is " << rawStr(y) << ", text " << quoted(t));
	PT_CHECK(canon(y), what << " read back is not reduced: " << rawStr(y));
	PT_CHECK(is.peek() == EOF, what << ": text left over");
}
static Fp2 genFp2Text(Src& s) { return s.flip() ? genFp2(s) : Fp2(fpOf(genText(s)), fpOf(genText(s))); }

PT_TEST(extensions, 8000, 200000)
{
	const Fp2 x = genFp2Text(s);
	NOTE_F(c, x);
	c.nontrivial(!x.isZero());
	EXPECT_TEXT(x.toString(), num(x, 10), "toString() of Fp2");
	EXPECT_TEXT(x.toString(16), num(x, 16), "toString(16) of Fp2");
	EXPECT_TEXT(shown(x, 10), num(x, 10), "<< of Fp2");
	EXPECT_TEXT(shown(x, 16), num(x, 16), "<< hex of Fp2");
	roundTrip(s, c, x, "Fp2");
	Fp2 y = genFp2(s);
	y.set(x.toString(s.flip() ? 16 : 10));
	PT_CHECK(y == x, "set of the text of Fp2 gives " << rawStr(y));
	// white space between the parts
	std::string t = genBlanks(s, 0) + "[" + genBlanks(s, 0) + num(x.a_, s.flip() ? 16 : 10) + genBlanks(s, 0) + "," + genBlanks(s, 0) + num(x.b_, s.flip() ? 16 : 10) + genBlanks(s, 0) + "]";
	c.say(quoted(t));
	y = genFp2(s);
	std::istringstream is(t);
	is >> y;
	PT_CHECK(!is.fail() && y == x, ">> of Fp2 with white space gives " << rawStr(y));
	const Fp6 u = s.flip() ? genFp6(s) : Fp6(x, genFp2Text(s), genFp2Text(s));
	NOTE_F(c, u);
	roundTrip(s, c, u, "Fp6");
	if (s.flip()) {
		const Fp12 v = s.flip() ? genFp12(s) : Fp12(u, genFp6(s));
		NOTE_F(c, v);
		roundTrip(s, c, v, "Fp12");
	}
}

// the numeral of a double-width element, and of a compressed one
PT_TEST(otherText, 4000, 100000)
{
	const Z R = s.flip() ? genNumeral(s, 512) : raw(genFp(s)) * raw(genFp(s));
	FpDbl d;
	zToWords((u64*)&d, 8, R);
	NOTE_Z(c, R);
	c.nontrivial(R > 9);
	for (int b = 10; b <= 16; b += 6) {
		PT_CHECK(d.toString(b).find(numeral(R, b)) != std::string::npos, "text of FpDbl in base " << b << ": " << d.toString(b));
		PT_CHECK(shown(d, b).find(numeral(R, b)) != std::string::npos, "<< of FpDbl in base " << b << ": " << shown(d, b));
		FpDbl e(numeral(R, b));
		PT_CHECK(zFromWords((const u64*)&e, 8) == R, "FpDbl from the numeral in base " << b);
	}
	const Fp2 x = genFp2Text(s);
	Fp12 f = genFp12(s);
	bn::Compress k(f, f);
	k.g2_ = x;
	std::string t = shown(k, 16);
	PT_CHECK(t.find(num(x, 16)) != std::string::npos, "text of Compress: " << t);
}

template<class FF> static void points(Src& s, Case& c, const char *what)
{
	typedef typename Grp<FF>::Ec Ec;
	typedef typename Grp<FF>::P P;
	const P p = Gen<FF>::point(s, c);
	const Ec e = Gen<FF>::rep(s, p);
	sayPt<FF>(c, what, e);
	c.nontrivial(!p.inf);
	const bool hexFlag = s.flip();
	const std::string t = shown(e, hexFlag ? 16 : 10);
	c.say(quoted(t));
	std::string want = "0";
	if (!p.inf) want = num(Model<FF>::make(p.x), 16) + "_" + num(Model<FF>::make(p.y), 16);
	PT_CHECK(t == want, "text of " << what << ": " << quoted(t) << ", expected " << quoted(want));
	PT_CHECK(Gen<FF>::get(e) == p && e.isZero() == p.inf, what << ": writing changed the point");
	std::istringstream is(t);
	Ec r = Gen<FF>::rep(s, Gen<FF>::point(s, c));
	is >> r;
	PT_CHECK(!is.fail(), what << ": reading back failed");
	PT_CHECK(Gen<FF>::get(r) == p && r.isZero() == p.inf && canonPt(r.p), what << " read back is " << rawPt(r.p));
	PT_CHECK(r == e && r.isValid() && e.isValid(), what << " read back differs");
	PT_CHECK(is.peek() == EOF, what << ": text left over");
}
PT_TEST(pointsG1, 3000, 100000) { points<Fp>(s, c, "Ec1"); }
PT_TEST(pointsG2, 1500, 50000) { points<Fp2>(s, c, "Ec2"); }

// values of mixed type in one stream
namespace {
struct Item {
	int kind;
	Z v;
	Fp2 x2;
	Fp6 x6;
	Fp12 x12;
	ref::P1 p1;
	ref::P2 p2;
};
}
PT_TEST(mixedStream, 4000, 120000)
{
	const size_t n = 1 + (size_t)s.below(8);
	std::vector<Item> item(n);
	std::vector<std::string> sep(n);
	std::ostringstream os;
	os << genBlanks(s, 0);
	static const char *const name[] = { "Vuint", "Vsint", "Fp", "Fp2", "Fp6", "Fp12", "Ec1", "Ec2" };
	for (size_t i = 0; i < n; i++) {
		Item& t = item[i];
		t.kind = (int)s.below(8);
		if (s.flip()) { if (s.flip()) os << std::hex; else os << std::dec; }
		const std::ios::fmtflags was = os.flags();
		switch (t.kind) {
		case 0: t.v = genNumeral(s, kTextBits); os << vuintOf(t.v); break;
		case 1: {
			t.v = genNumeral(s, kTextBits);
			Vsint x(vuintOf(t.v));
			if (s.flip()) { t.v = -t.v; x = -x; }
			os << x;
			break;
		}
		case 2: t.v = genText(s); os << fpOf(t.v); break;
		case 3: t.x2 = genFp2Text(s); os << t.x2; break;
		case 4: t.x6 = genFp6(s); os << t.x6; break;
		case 5: t.x12 = genFp12(s); os << t.x12; break;
		case 6: t.p1 = Gen<Fp>::point(s, c); os << Gen<Fp>::rep(s, t.p1); break;
		case 7: t.p2 = Gen<Fp2>::point(s, c); os << Gen<Fp2>::rep(s, t.p2); break;
		}
		PT_CHECK(os.flags() == was && os.fill() == ' ' && os.precision() == 6, "writing value " << i << ", " << name[t.kind] << ", changed the format of the stream");
		const bool last = i + 1 == n;
		// a point ends at white space; the others at any character that cannot belong to a numeral
		if (t.kind < 6 && s.flip()) sep[i] = std::string(1, ",;:)|/_=+"[s.below(9)]);
		sep[i] = sep[i].empty() ? genBlanks(s, last ? 0 : 1) : sep[i] + genBlanks(s, 0);
		os << sep[i];
	}
	c.nontrivial(n >= 2);
	c.say(quoted(os.str()));
	std::istringstream is(os.str());
	if (s.flip()) is >> std::hex; // no effect on reading
	for (size_t i = 0; i < n; i++) {
		const Item& t = item[i];
		const char *const what = name[t.kind];
		c.cls(what);
		const std::ios::fmtflags was = is.flags();
		switch (t.kind) {
		case 0: { Vuint x = vuintOf(genUint(s, 300)); is >> x; PT_CHECK(toZ(x) == t.v, "value " << i << ", " << what << ": " << hex(toZ(x)) << " instead of " << hex(t.v)); break; }
		case 1: { Vsint x(-7); is >> x; PT_CHECK(toZ(x) == t.v, "value " << i << ", " << what << ": " << hex(toZ(x)) << " instead of " << hex(t.v)); break; }
		case 2: { Fp x = genFp(s); is >> x; PT_CHECK(val(x) == t.v, "value " << i << ", " << what << ": " << rawStr(x) << " instead of " << hex(t.v)); break; }
		case 3: { Fp2 x = genFp2(s); is >> x; PT_CHECK(x == t.x2, "value " << i << ", " << what << ": " << rawStr(x)); break; }
		case 4: { Fp6 x = genFp6(s); is >> x; PT_CHECK(x == t.x6, "value " << i << ", " << what << ": " << rawStr(x)); break; }
		case 5: { Fp12 x = genFp12(s); is >> x; PT_CHECK(x == t.x12, "value " << i << ", " << what << ": " << rawStr(x)); break; }
		case 6: { Ec1 x = Gen<Fp>::rep(s, ref::P1()); is >> x; PT_CHECK(Gen<Fp>::get(x) == t.p1, "value " << i << ", " << what << ": " << rawPt(x.p)); break; }
		case 7: { Ec2 x = Gen<Fp2>::rep(s, ref::P2()); is >> x; PT_CHECK(Gen<Fp2>::get(x) == t.p2, "value " << i << ", " << what << ": " << rawPt(x.p)); break; }
		}
		PT_CHECK(!is.fail() && !is.bad(), "value " << i << ", " << what << ": the stream failed");
		PT_CHECK(is.flags() == was, "reading value " << i << ", " << what << ", changed the format of the stream");
		// right after the value
		for (size_t k = 0; k < sep[i].size(); k++) {
			const int ch = is.get();
			PT_CHECK(ch == (unsigned char)sep[i][k], "after value " << i << ", " << what << ": character " << ch << " instead of " << (int)sep[i][k]);
		}
		if (i + 1 == n) { PT_CHECK(is.peek() == EOF, "text left after the last value"); }
	}
}
