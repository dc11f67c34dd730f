// Shifts, bit length, bits, recodings
#include "wordinit.h"

static size_t bits(const Z& x) { return x == 0 ? 0 : mpz_sizeinbase(x.get_mpz_t(), 2); }

PT_TEST(left, 100000, 4000000)
{
	Z X = genUint(s, kBits);
	if (s.flip()) X = genUint(s, 1 + s.below(200));
	const size_t len = bits(X);
	// zero keeps its one word while it is shifted
	const size_t room = X == 0 ? kBits - 64 : kBits - len;
	size_t n = s.flip() ? (size_t)s.below(room + 1) : (size_t)(64 * s.below(room / 64 + 1));
	if (s.chance(1, 6)) n = room;
	NOTE_Z(c, X);
	PT_NOTE(c, n);
	c.nontrivial(X != 0 && n != 0);
	const Z want = X << n;
	const Vuint x = vuintOf(X);
	Vuint z = vuintOf(genUint(s, kBits));
	Vuint::shl(z, x, n);
	expectU(z, want, "shl");
	expectU(x << n, want, "<<");
	z = x;
	z <<= n;
	expectU(z, want, "<<=");
	z = x;
	Vuint::shl(z, z, n);
	expectU(z, want, "shl in place");
	expectU(x, X, "operand");
	expectU((x << n) >> n, X, "<< then >>");
#ifdef PT_INTERNAL
	if (n && n % 64 == 0) { Vuint::shlUnit(z, x, n / 64); expectU(z, want, "shlUnit"); }
	else if (n && n < 64) { Vuint::shlBit(z, x, n); expectU(z, want, "shlBit"); }
#endif
}

PT_TEST(right, 100000, 4000000)
{
	const Z X = genUint(s, kBits);
	size_t n = s.flip() ? (size_t)s.below(kBits + 10) : (size_t)(64 * s.below(kBits / 64 + 2));
	if (s.chance(1, 6)) n = bits(X) + s.below(3) - (bits(X) ? 1 : 0);
	if (s.chance(1, 20)) n = (size_t)s.below(100000);
	NOTE_Z(c, X);
	PT_NOTE(c, n);
	c.nontrivial(X != 0 && n != 0);
	const Z want = X >> n;
	const Vuint x = vuintOf(X);
	Vuint z = vuintOf(genUint(s, kBits));
	Vuint::shr(z, x, n);
	expectU(z, want, "shr");
	expectU(x >> n, want, ">>");
	z = x;
	z >>= n;
	expectU(z, want, ">>=");
	z = x;
	Vuint::shr(z, z, n);
	expectU(z, want, "shr in place");
	expectU(x, X, "operand");
#ifdef PT_INTERNAL
	if (n && n % 64 == 0) { Vuint::shrUnit(z, x, n / 64); expectU(z, want, "shrUnit"); }
	else if (n && n < 64) { Vuint::shrBit(z, x, n); expectU(z, want, "shrBit"); }
#endif
}

PT_TEST(bitsOf, 60000, 2000000)
{
	Z X = genUint(s, kBits);
	if (s.chance(1, 3)) X = ref::pow2(1 + (unsigned)s.below(kBits)) - 1 - (s.flip() ? Z(0) : zu(genWord(s) >> 40)); // runs of ones
	if (X < 0) X = -X;
	NOTE_Z(c, X);
	c.nontrivial(X > 1);
	Vuint x = vuintOf(genUint(s, kBits)); // stale words behind the value
	x = vuintOf(X);
	if (s.flip()) { Vuint t = vuintOf(genUint(s, kBits)); t %= Vuint(1); t += x; x = t; }
	PT_CHECK(x.bitLen() == bits(X), "bitLen " << x.bitLen() << ", expected " << bits(X));
	for (int k = 0; k < 24; k++) {
		size_t i = s.flip() ? (size_t)s.below(kBits + 130) : bits(X) + (size_t)s.below(5);
		if (s.chance(1, 3)) i = 64 * (size_t)s.below(kBits / 64 + 1) + (s.flip() ? 63 : 0);
		const bool want = mpz_tstbit(X.get_mpz_t(), i) != 0;
		if (x.testBit(i) != want) PT_CHECK(false, "bit " << i << " is " << !want);
	}
	// the bits rebuild the number
	if (s.chance(1, 8)) {
		Z r;
		for (size_t i = 0; i < kBits; i++) if (x.testBit(i)) mpz_setbit(r.get_mpz_t(), i);
		PT_CHECK(r == X, "bits rebuild " << hex(r));
	}
}

// bits after operations that shorten the number (stale words)
PT_TEST(history_, 20000, 600000)
{
	Z X = genUint(s, kBits);
	Vuint x = vuintOf(X);
	NOTE_Z(c, X);
	const size_t len = s.range(1, 12);
	for (size_t k = 0; k < len; k++) {
		const size_t o = s.below(6), n = (size_t)s.below(s.flip() ? 64 : 300);
		if (c.verbose) { std::ostringstream os; os << "op" << o << " " << n; c.say(os.str()); }
		switch (o) {
		case 0: if (bits(X) + n > kBits || X == 0) continue; X <<= n; x <<= n; break;
		case 1: X >>= n; x >>= n; break;
		case 2: { Z m = genDivisor(s, kBits); X %= m; x %= vuintOf(m); break; }
		case 3: { Z m = genBelow(s, X + 1); X -= m; x -= vuintOf(m); break; }
		case 4: { Z m = genDivisor(s, 128); X /= m; x /= vuintOf(m); break; }
		default: { u64 w = genWord(s); if (!fits(Z(X + zu(w)))) continue; X += zu(w); x += w; break; }
		}
		expectU(x, X, "value");
		PT_CHECK(x.bitLen() == bits(X), "bitLen");
		for (size_t i = bits(X) < 2 ? 0 : bits(X) - 2; i < bits(X) + 200; i += 1 + i % 7)
			if (x.testBit(i) != (mpz_tstbit(X.get_mpz_t(), i) != 0)) PT_CHECK(false, "bit " << i);
	}
	c.nontrivial(len >= 3);
}

#ifdef PT_INTERNAL
// signed-digit recodings, highest digit first
static Z rebuild(const std::vector<signed char>& v)
{
	Z r;
	for (size_t i = 0; i < v.size(); i++) {
		PT_CHECK(v[i] >= -1 && v[i] <= 1, "digit " << (int)v[i]);
		r = 2 * r + (int)v[i];
	}
	return r;
}
PT_TEST(recode, 60000, 2000000)
{
	Z X = genUint(s, kBits);
	if (s.flip()) X = genUint(s, 2 + s.below(90));
	if (s.chance(1, 4)) { // runs of ones and isolated zeros
		X = 1;
		for (size_t k = 0, n = s.range(1, 12); k < n; k++) {
			const size_t l = s.range(1, 12);
			X = (X << l) + (s.flip() ? Z(ref::pow2((unsigned)l) - 1) : Z(0));
		}
	}
	if (X < 2) X += 2;
	NOTE_Z(c, X);
	c.nontrivial(X > 3);
	const Vuint x = vuintOf(X);
	std::vector<signed char> bin(s.below(5), (signed char)3), naf, best(s.below(5), (signed char)2);
	bn::util::convertToBinary(bin, x);
	PT_CHECK(rebuild(bin) == X && bin.size() == bits(X), "binary digits");
	size_t ones = 0;
	for (size_t i = 0; i < bin.size(); i++) { PT_CHECK(bin[i] >= 0, "negative digit"); ones += bin[i]; }
	bn::util::convertToNAF(naf, bin);
	PT_CHECK(rebuild(naf) == X, "signed digits rebuild " << hex(rebuild(naf)));
	const bool isNaf = bn::util::getGoodRepl(best, x);
	PT_CHECK(rebuild(best) == X, "chosen digits rebuild " << hex(rebuild(best)));
	size_t w = 0, m = 0;
	for (size_t i = 0; i < best.size(); i++) w += best[i] != 0, m += best[i] < 0;
	PT_CHECK(w <= ones, "heavier than the binary digits");
	PT_CHECK(isNaf == (w < ones) && (isNaf || m == 0), "which representation was chosen");
	PT_CHECK(bn::util::getNumOfNonZeroElement(best) == w, "weight");
}
#endif
