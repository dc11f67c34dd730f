// Numerals and the text formats of the composite types, written independently of the library.
#pragma once
#include "curve.h"
#include <iomanip>

const size_t kTextBits = MIE_ZM_VUINT_BIT_LEN;

// integers whose decimal or hexadecimal chunks are zero, one or full
inline Z genNumeral(Src& s, size_t bits)
{
	Z r;
	const Z chunk("1000000000");
	switch (s.below(5)) {
	case 0: r = genUint(s, bits); break;
	case 1: // decimal chunks
	case 2: {
		const size_t n = 1 + (size_t)s.below(bits / 30 + 1);
		for (size_t i = 0; i < n; i++) {
			Z d;
			switch (s.below(5)) {
			case 0: d = 0; break;
			case 1: d = chunk - 1; break;
			case 2: { d = 1; for (size_t k = s.below(9); k; k--) d *= 10; break; }
			case 3: d = zu(s.below(1000)); break;
			default: d = zu(s.below(1000000000)); break;
			}
			r = r * chunk + d;
		}
		break;
	}
	case 3: { // power of ten and neighbours
		r = 1;
		for (size_t k = s.below(bits * 3 / 10); k; k--) r *= 10;
		r += zi((int64_t)s.below(3) - 1);
		break;
	}
	default: { // hexadecimal digits with runs of zeros
		const size_t n = 1 + (size_t)s.below(bits / 4);
		size_t left = 0;
		u64 d = 0;
		for (size_t i = 0; i < n; i++) {
			if (!left) { left = 1 + (size_t)s.below(20); d = s.flip() ? 0 : s.below(17); }
			left--;
			r = r * 16 + zu(d == 16 ? s.below(16) : d);
		}
		break;
	}
	}
	if (mpz_sizeinbase(r.get_mpz_t(), 2) > bits) r &= ref::pow2((unsigned)bits) - 1;
	return r;
}
// numeral the library is to write
inline std::string numeral(const Z& x, int base)
{
	const Z a = abs(x);
	return std::string(x < 0 ? "-" : "") + (base == 16 ? "0x" : "") + a.get_str(base);
}
// another numeral of the same value: leading zeros, capital digits
inline std::string variant(Src& s, const Z& x, int base)
{
	const Z a = abs(x);
	std::string d = a.get_str(base);
	if (s.flip()) d = std::string((size_t)s.below(s.chance(1, 8) ? 400 : 24), '0') + d;
	if (base == 16) {
		for (size_t i = 0; i < d.size(); i++) if (d[i] >= 'a' && s.flip()) d[i] = (char)(d[i] - 'a' + 'A');
	}
	return std::string(x < 0 ? "-" : "") + (base == 16 ? "0x" : "") + d;
}
// [-] (digit+ | "0x" xdigit+); base 0: as the prefix says
inline bool parseNumeral(Z& out, const std::string& str, bool sign, int base = 0)
{
	size_t i = 0;
	bool neg = false;
	if (sign && !str.empty() && str[0] == '-') { neg = true; i = 1; }
	if (str.size() >= i + 2 && str[i] == '0' && str[i + 1] == 'x') {
		if (base != 0 && base != 16) return false;
		base = 16;
		i += 2;
	}
	if (base == 0) base = 10;
	if (i >= str.size()) return false;
	Z r;
	for (; i < str.size(); i++) {
		const char ch = str[i];
		int d;
		if (ch >= '0' && ch <= '9') d = ch - '0';
		else if (base == 16 && ch >= 'a' && ch <= 'f') d = ch - 'a' + 10;
		else if (base == 16 && ch >= 'A' && ch <= 'F') d = ch - 'A' + 10;
		else return false;
		r = r * base + d;
	}
	out = neg ? Z(-r) : r;
	return true;
}
inline bool blank(char ch) { return ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r' || ch == '\v' || ch == '\f'; }
inline std::string strip(const std::string& str)
{
	size_t a = 0, b = str.size();
	while (a < b && blank(str[a])) a++;
	while (b > a && blank(str[b - 1])) b--;
	return str.substr(a, b - a);
}
inline std::string quoted(const std::string& str)
{
	std::ostringstream os;
	os << '"';
	for (size_t i = 0; i < str.size(); i++) {
		const unsigned char ch = (unsigned char)str[i];
		if (ch < 32 || ch > 126 || ch == '"') { os << "\\x" << std::hex << std::setw(2) << std::setfill('0') << (unsigned)ch << std::dec; }
		else os << str[i];
	}
	os << '"';
	return os.str();
}
inline std::string genBlanks(Src& s, size_t least)
{
	static const char ch[] = " \n\t\r\v\f";
	std::string r;
	for (size_t n = least + (s.chance(1, 3) ? (size_t)s.below(4) : 0); n; n--) r += ch[s.below(s.flip() ? 2 : 6)];
	return r;
}
// prime-field value with an interesting numeral
inline Z genText(Src& s) { return s.flip() ? val(genFp(s)) : ref::mod(genNumeral(s, 254)); }
