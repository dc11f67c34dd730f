// Configurations of code that does not depend on the curve: with the portable word kernels
// (odd workers) or with the generated ones (even workers).
#pragma once
#define PT_CUSTOM_INIT
#include "lib.h"

inline bool portableKernels() { return !pt::cfg.key.empty() && ((pt::cfg.key[pt::cfg.key.size() - 1] - '0') & 1); }

void pt::initLibrary()
{
	refInit(pt::cfg.curve);
	if (!portableKernels()) mie::zmInit();
}

const size_t kBits = MIE_ZM_VUINT_BIT_LEN;

// exact value, canonical length
inline void expectU(const Vuint& got, const Z& want, const char *what)
{
	const size_t n = want == 0 ? 1 : mpz_size(want.get_mpz_t());
	if (toZ(got) != want) pt::fail(std::string(what) + ": got " + hex(toZ(got)) + ", expected " + hex(want));
	if (got.size() != n) { std::ostringstream os; os << what << ": " << got.size() << " words instead of " << n << " for " << hex(want); pt::fail(os.str()); }
}
inline bool fits(const Z& x) { return mpz_sizeinbase(x.get_mpz_t(), 2) <= kBits; }
