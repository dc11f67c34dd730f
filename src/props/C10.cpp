// Base curve: the group law in any representation
#include "groupprop.h"

PT_TEST(law, 1500, 80000) { groupLaw<Fp>(s, c); }
PT_TEST(axioms, 4000, 200000) { groupAxioms<Fp>(s, c); }
PT_TEST(history_, 500, 25000) { groupHistory<Fp>(s, c); }
