// Twist curve: the group law in any representation
#include "groupprop.h"

PT_TEST(law, 600, 30000) { groupLaw<Fp2>(s, c); }
PT_TEST(axioms, 1500, 80000) { groupAxioms<Fp2>(s, c); }
PT_TEST(history_, 250, 12000) { groupHistory<Fp2>(s, c); }
