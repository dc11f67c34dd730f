"""What each check runs. matrix: which library configurations; rule: what makes a case non-trivial."""

BN254 = [("default", "bn254", m, x) for m in (0, 1) for x in (1, 0)]
SNARK = [("snark", c, m, x) for c in ("snark1", "snark2") for m in (0, 1) for x in (1, 0)]
FULL = BN254 + SNARK
# one configuration per curve and code-generation mode / multiplier at least once
LIGHT = [("default", "bn254", 0, 1), ("default", "bn254", 1, 0), ("snark", "snark1", 0, 1), ("snark", "snark2", 1, 0),
         ("default", "bn254", 1, 1), ("default", "bn254", 0, 0), ("snark", "snark1", 1, 0), ("snark", "snark2", 0, 1)]
# code that does not depend on the configuration: the same tests with different seeds
SPLIT = [("default", "bn254", 0, 1, "w%d" % i) for i in range(6)] + [
    (v, "bn254", 0, 1, v) for v in ("v512", "v1024", "v2048")]

# code that uses big integers on the way: two more capacities
CAP = [("v512", "bn254", 0, 1, "v512"), ("v512snark", "snark2", 1, 0, "v512"), ("v2048", "bn254", 1, 1, "v2048")]

PROPS = {}


def prop(pid, matrix, rule, **kw):
    kw.update(id=pid, matrix=matrix, rule=rule)
    PROPS[pid] = kw


prop("C01", FULL, "random prime-field operands, biased to the edges of the value and of its Montgomery image, second operand often "
     "derived from the first so that carries, borrows and final subtractions are at their limits; non-trivial: an operand other than 0 and 1")
prop("C02", FULL, "histories of operations on small pools of elements of each field level, conversions of single elements, the same value "
     "computed in two ways, and pairs of elements one bit apart; non-trivial: at least three operations, or operands other than 0 and 1")
prop("C03", FULL, "operands in the documented range of each lazily reduced or double-width operation (below 2^256, 6p, p*2^256 or 2^512), edge "
     "biased and related to each other; products of reduced and of unreduced sums; histories of wide operations reduced at the end; non-trivial: operands other than 0 and 1")
_OPS = "edge-biased and related operands (corners of the coefficient cube included) for every operation of the level, against the definition of the field; "
prop("C04", FULL, _OPS + "field laws on triples; non-trivial: nonzero operands")
prop("C05", FULL, _OPS + "double-width product then reduction; non-trivial: nonzero operands")
prop("C06", FULL, _OPS + "sparse products against the dense one; non-trivial: nonzero operands")
prop("C07", FULL, "field elements (sparse, subfield and dense) through each Frobenius map, in place and not, against coefficient-wise conjugation and "
     "against powering; random compositions of total degree 12; non-trivial: nonzero elements")
prop("C08", FULL, "members of the cyclotomic subgroup: random ones made from the definition, one, members with a vanishing compressed coordinate made by "
     "solving the subgroup equations and members with one prescribed coordinate found by roots; histories of compressed squarings (generated code and portable formula mixed) with copies; non-trivial: members other than one")
prop("C09", FULL, "nonzero field elements (dense, sparse, members of each subfield) against the definition of the exponent by plain powering, and the "
     "consequences of being one fixed power on the library alone; non-trivial: the image is not one")
_GRP = ("finite points and infinity in generated Jacobian representatives (third coordinate one, minus one, random, related between operands; arbitrary "
        "coordinates for infinity), second point often equal, opposite, double or of the same ordinate; all forms of each operation; histories of operations on three points; non-trivial: finite points, or at least three operations")
prop("C10", FULL, _GRP)
prop("C11", FULL, _GRP + "; half of the twist points lie outside the subgroup of prime order")
prop("C12", FULL + CAP, "points of both groups (infinity and points outside the subgroup included) in generated representatives, scalars of every type: small, "
     "next to powers of two, word boundaries and multiples of the order, up to 1200 bits, negative ones where the type has them; non-trivial: finite point and scalar other than 0, 1")
prop("C13", FULL, "coordinate triples on and off the curves: points with one coordinate disturbed, negated, swapped or replaced, homogeneous "
     "representatives, infinity with arbitrary other coordinates, random triples, through every constructor and predicate; non-trivial: third coordinate not zero")
prop("C14", FULL, "two generated representatives of one point and a third related point through random sequences of read-only operations; coordinate "
     "arrays through both normalisations; non-trivial: finite points")
prop("C15", FULL, "points of both groups (infinity, equal, opposite, double and Frobenius images included) in generated representatives, scalars of either "
     "sign next to powers of two, multiples of the order and the prime; the equations of bilinearity on the library alone; non-trivial: finite points and scalars other than 0, 1",
     technique="property-based testing: metamorphic relations (bilinearity) over generated points and scalars")
prop("C16", FULL, "pairs of points in generated representatives through every entry point, outputs holding other values before; sequences of pairings with other "
     "work in between; values at Frobenius images; non-trivial: the expected value is not one")
prop("C17", FULL, "twist points in generated representatives, tables reused for several base points and rebuilt over used vectors; two-pair loops with equal, "
     "opposite and cancelling pairs; non-trivial: all points finite")
prop("C18", FULL, "running points in generated homogeneous representatives on the whole twist, addends other than plus or minus the running point, any base "
     "point; runs of mixed steps; endomorphisms in place and not; non-trivial: every case")
prop("C20", SPLIT, "integers up to the capacity with words of zeros, ones, single bits, sums that carry into the next word, products that just fit, quotients and "
     "remainders at their edges and divisors with hard leading words; word kernels of every length, portable (half of the runs) and generated; non-trivial: operands above one")
prop("C21", SPLIT, "integers with runs of ones, shifts by multiples of the word size, to the last bit and beyond the length; bits after operations that shorten the "
     "number; digit recodings of generated runs; non-trivial: value and shift not zero")
prop("C22", SPLIT, "signed integers (zeros of both signs included), sums that cancel, all sign combinations of division, every way of assignment over used objects; "
     "histories; non-trivial: operands not zero")
prop("C23", SPLIT, "moduli of every kind (one, small, powers of two and their neighbours, primes, random up to half of the capacity), residues at the edges, every way "
     "of construction; interleaved histories under three tags; non-trivial: residues above one")
prop("C24", FULL + CAP, "bases of every algebraic type (zero, one, minus one included), exponents of every type with zero words, extreme leading words and neighbours of "
     "the orders; non-trivial: exponent above one and base other than zero and one")
prop("C25", LIGHT + CAP, "integers with zero, one and full chunks in base 10^9 and runs of hexadecimal digits, field values with such numerals, points in generated "
     "representatives, destinations holding other values; streams of values of mixed type with generated separators; numerals written by GMP are the "
     "oracle of the text; non-trivial: values above nine, finite points, at least two values in a stream")
prop("C26", LIGHT[:4], "well-formed numerals, tuples and point texts with up to three edits (inserted signs, blanks, prefixes, letters, delimiters; deletions, "
     "truncations, repetitions), concatenated fragments and raw strings; a separate grammar says which are well formed and their values; non-trivial: text not empty", scale_quick=0.7, flags=["-fsanitize=address"], link=["-fsanitize=address"])
prop("C27", FULL, "for every three-operand, two-operand and compound operation of every type the result with distinct objects and with every partition of output and "
     "inputs into shared objects; edge-biased and related operands; non-trivial: operands other than zero",
     technique="property-based testing: differential between distinct and shared objects over generated operands")
prop("C28", FULL, "every entry point of generated code and the operations built on it, called with operands right after, right before or away from inaccessible pages, "
     "read-only operands in read-only pages, random callee-saved and scratch registers, vector registers, flags, stack and output contents, against a plain call; "
     "each case counts as non-trivial: every one makes a checked call",
     technique="property-based testing: fault injection by guard pages, read-only pages and register snapshots around calls with generated operands")
prop("C31", FULL + CAP, "squares, minus squares, neighbours of squares, small and edge-biased field elements, runs of consecutive ones; abscissas with and without a point; "
     "residuosity by the Legendre symbol of GMP and by multiplicativity; non-trivial: elements other than 0 and 1")
prop("C30", FULL + CAP, "the parameters right after initialisation, random points of both curves times the orders, and sequences of initialisations (other curve over the same prime, every option) "
     "mixed with field, group, pairing, integer and text work, after which every parameter is compared with its definition; non-trivial: a sequence with an initialisation or two pieces of work")
prop("C19", FULL, "programs over pools of values of all types (three sizes, the largest with pairings), run twice in one process and, with the same inputs, in one process per "
     "option and per generated history of earlier initialisations (other curve, other options, portable formulas); the digests of all results are compared; "
     "each portable formula against the generated code; non-trivial: every program", custom="configurations", replay="replay_configurations",
     technique="property-based testing: differential between configurations, histories of initialisation and implementations over generated programs")
prop("C33", [c for c in FULL if c[2:] == (0, 1)], "programs over pools of values of all types (three sizes, the largest with pairings), the same inputs in processes built in ten ways: with assertions, "
     "optimised for size, speed and this machine, by another compiler, without the GMP interface, with another capacity, as C++17; the digests of all results are compared; non-trivial: programs of at least three steps",
     custom="configurations", groups="builds", replay="replay_configurations", all_variants=[a + b for a in "bs" for b in (
         "debug", "debugO2", "native", "clang", "clangdebug", "nogmp", "size", "wide", "cxx17")],
     technique="property-based testing: differential between differently built processes over generated programs")
# the harnesses of the other properties under AddressSanitizer and UndefinedBehaviorSanitizer (portable code) and valgrind (all code)
_SAN = ["C01", "C02", "C03", "C08", "C12", "C13", "C14", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C27", "C30", "C31", "C32"]
prop("C34", [("sancov", "bn254", 0, 1, p + ".guided") for p in ("C12", "C17", "C20", "C22", "C23", "C25")] + [("san", "bn254", i % 2, i // 2 % 2, p + ".san") for i, p in enumerate(_SAN)]
     + [("sansnark", "snark2", 0, 1, p + ".san") for p in ("C02", "C08", "C18", "C19", "C30")]
     + [("default", "bn254", i % 2, i // 2 % 2, p + ".vg") for i, p in enumerate(_SAN)]
     + [("snark", "snark1", 1, 1, p + ".vg") for p in ("C02", "C08", "C12", "C18", "C19", "C30")],
     "the generated cases of the properties named in the configurations, run with AddressSanitizer and UndefinedBehaviorSanitizer (.san; .guided: choices mutated by coverage feedback) and under valgrind memcheck (.vg); non-trivial: by the rules of those properties",
     multi=True, scale_of={"san": 0.08, "vg": 0.002}, time_quick=90,
     technique="property-based testing: generated operations and histories run under memory and undefined-behaviour checkers")
prop("C29", FULL + [("tsan", "bn254", 0, 1, "t"), ("snarktsan", "snark2", 1, 0, "t")], "programs over own objects of all types alone, after other programs, in two to four threads started together, and "
     "interrupted by a signal handler that runs another program: at every instruction of one operation, at chosen instructions of a program (by single steps, so that "
     "the point replays), and by a timer in pairings; two configurations watch the threads with ThreadSanitizer; non-trivial: at least one interruption, or two threads or programs",
     technique="property-based testing: differential between programs run alone and interleaved at generated points of interruption and in threads")
prop("C32", [("default", "bn254", 0, 1, "j%d" % i) for i in range(6)] + [("snark", "snark1", 0, 1, "j%d" % i) for i in range(2)],
     "histories over three objects of each class of the binding (set, arithmetic, powers, group operations, pairings, copies, changes through coordinate references), "
     "seen through text, comparisons and coordinates and compared with a model; edited texts and disturbed coordinates for every class; non-trivial: at least three operations, or any text",
     technique="property-based testing: stateful model-based histories of the binding classes, generated malformed text")
# how much more than the counts in the harnesses the quick tier generates
for _p, _k in dict(C01=8, C02=8, C03=3, C04=3, C05=5, C06=6, C07=5, C08=3, C09=4, C10=15, C11=12, C12=3, C13=6, C14=10, C15=3, C16=4, C17=3,
                   C20=3, C21=4, C22=3, C23=1.5, C24=3, C25=2, C27=3, C28=6, C30=6, C31=15, C32=2, C33=6, C34=1.5).items():
    PROPS[_p]["scale_quick"] = _k

# coverage-guided search on top: tapes that reach new edges or comparisons of the library are kept and mutated
GUIDED = [("cov", "bn254", 0, 1, "g"), ("covsnark", "snark1", 1, 1, "g")]
for _p in PROPS:
    if _p in ("C19", "C28", "C29", "C33", "C34"):
        continue  # several processes, no comparisons to see in generated code, or their own instrumentation
    PROPS[_p]["matrix"] = (GUIDED if any(c[0] == "snark" for c in PROPS[_p]["matrix"]) else GUIDED[:1]) + list(PROPS[_p]["matrix"])
    PROPS[_p]["rule"] += "; configurations ending in -g: choices mutated by coverage feedback"

_TODO = [i for i in ["C%02d" % k for k in range(1, 35)] if i not in PROPS]
NOT_APPLICABLE = [{"property": i, "reason": "the check is not built yet"} for i in _TODO]
