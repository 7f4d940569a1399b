#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only so that the text stays readable)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

LIB, RAT, HOM, COM, SUP, CON, CMP, PRO, MAIN = ("src/lib.rs", "src/strategy/ratio.rs", "src/strategy/homographic.rs",
    "src/strategy/combine.rs", "src/strategy/support.rs", "src/strategy/consume.rs", "src/compare.rs", "src/protocol.rs", "src/main.rs")

p("C01", "Every ratio of machine integers is represented exactly",
  "For every pair of signed machine integers, and every sign and pair of unsigned machine integers, with a nonzero denominator, constructing the ratio succeeds and yields the documented representation of exactly that rational: the special value or primer for its range, followed by the unique finite Amplify/Uncover sequence of the remaining fraction. This includes the largest and smallest machine integers, either sign on either term, and fractions that are not in lowest terms.",
  ["inputs"], "all (num, den) in isize x isize and (sign, num, den) in bool x usize x usize with den != 0",
  "2^128 inputs and sequences up to about 2000 symbols; tests look at a dozen ratios, exhaustively compare terms within +-25, and pull one symbol of one extreme ratio.",
  [LIB, RAT, PRO], [("head selection by sign and magnitude", RAT+": new, new_i"), ("overflow-free halving/doubling and reciprocal steps", RAT+": Ratio::egest"), ("signed to unsigned terms", LIB+": Number::ratio")],
  [("num, den", "remaining fraction, strictly between zero and one", RAT+": Ratio")], ["Number::ratio, Number::ratio_u, Clog::egest"])

p("C02", "Homographic transformations deliver the exact value",
  "Transforming any number x with coefficients (nx, n, dx, d) yields the representation of exactly (nx*x+n)/(dx*x+d): the right special value or primer and, symbol by symbol, the unique sequence of that rational. This holds for every operand however it was produced (ratio, result of other operations, partly read number) and for results that hit or approach -1, 0, 1, one half or infinity. The only permitted failures are a loud panic for a zero denominator or for exhausted machine integer range; a symbol already delivered is never wrong.",
  ["inputs", "programs"], "all operands (programs over the public API) and all isize coefficients",
  "Tests cover coefficients within +-6 and operands with terms within +-6; nothing covers larger coefficients, long operand sequences, operands that are results of other operations, degenerate forms with common roots at large terms.",
  [HOM, SUP, LIB], [("emit only when the image of the whole domain is on one side", HOM+": primer_egest, reduction_egest, image_extremes"), ("ingest/egest coefficient updates", HOM+": ingest_*, amplify, uncover, ground, reflect, turn"), ("final value at one half", HOM+": value_at_one_half")],
  [("nx, n, dx, d", "current transformation of the unread operand", HOM+": Homographic")], ["Number::homographic, Clog::egest"])

p("C03", "Two-operand combinations deliver the exact value",
  "Combining any two numbers x and y with eight coefficients yields the representation of exactly (nxy*xy+nx*x+ny*y+n)/(dxy*xy+dx*x+dy*y+d): right special value or primer and the unique symbol sequence. This holds for all operand kinds and lengths, whichever operand ends first, for degenerate forms, and hence for sums, differences, products and quotients. The only permitted failures are a loud panic for a zero denominator or for exhausted machine integer range; a symbol already delivered is never wrong.",
  ["inputs", "programs"], "all pairs of operands (programs over the public API) and all isize coefficients",
  "Tests use coefficients -1..2 and eleven operands whose sequences have at most two symbols, so the two-operand streaming phase is barely entered; long or composite operands and larger coefficients are never run.",
  [COM, HOM, SUP, LIB], [("corner evaluation of the image over the unit square", COM+": image_extremes, is_domain_amenable"), ("ingestion of x and y", COM+": amplify_x/y, uncover_x/y"), ("hand-over to one-operand form", COM+": value_at_end_of_x/y, shutdown_x/y")],
  [("a..h", "current transformation of both unread operands", COM+": Combine")], ["Number::combine, Clog::egest"])

p("C04", "Comparison agrees with the numeric order",
  "Comparing any two numbers returns Less, Equal or Greater exactly as their exact values compare, whatever operations produced them and however long their common symbol prefix is; hence comparison is a total order that is antisymmetric and transitive. When special values or primers already decide, the outcome does not depend on being able to read the symbols.",
  ["inputs", "programs"], "all pairs and triples of numbers produced by programs over the public API",
  "Tests compare ratios with terms within +-25, whose sequences are short; numbers that first differ after dozens or hundreds of symbols, composite numbers and operands that overflow later are not compared.",
  [CMP, LIB], [("lexicographic comparison with polarity flipping at each Uncover", CMP+": compare_clogs"), ("primer and special ordering", CMP+": compare_primers, compare_hybrid, compare_specials")],
  [], ["Number::compare"])

p("C05", "Consume splits a number without losing or inventing information",
  "For every number x, consume returns coefficients and a remainder such that (ny*y+n)/(dy*y+d) equals x exactly, where y is the returned remainder, or one half when none is returned (for special values any y). It never overflows, always returns after finitely many reads, even on endless operands, and stops before the operand is used up only when some coefficient is within three bits of the machine integer limit. A returned remainder lies strictly between zero and one and is itself a fully usable number.",
  ["inputs", "programs"], "all numbers produced by programs over the public API, including ratios with terms beyond the signed range, and endless symbol sources",
  "One test consumes one short ratio completely; the test for a partial split is ignored. No test reaches the overflow guard.",
  [CON, LIB], [("coefficient guard at a quarter of the range", CON+": is_state_unsafe"), ("ingestion", CON+": amplify_x, uncover_x"), ("primer to initial coefficients", CON+": new")],
  [("nx, n, dx, d", "information extracted so far", CON+": Consume")], ["Number::consume"], "symbol source for endless operands (cfg clarith_verif)")

p("C06", "Division by zero is reported always and only for zero denominators",
  "Constructing a ratio, homographic transformation or combination whose exact denominator value is zero (also 0/0, and also when all denominator coefficients are zero) panics during construction with a message containing 'division by zero'; it never returns a number. The message never appears when the exact denominator is nonzero.",
  ["inputs", "programs"], "all operands and coefficients, with the pole placed exactly on the operand, next to it, or identically zero",
  "Tests check poles only at operands -1, 0 and -1/2 and skip all other zero denominators; poles at generic operands or curves of poles for two operands are never exercised.",
  [RAT, HOM, COM], [("zero denominator check", RAT+": new"), ("null denominator check", HOM+": new"), ("poles inside the domain keep ingestion going until the exact value is known", HOM+": is_pole_outside_domain; "+COM+": is_pole_outside_domain")],
  [], ["panic message of Number::ratio, ratio_u, homographic, combine"])

p("C07", "Exhausted integer range never produces a wrong symbol",
  "Whatever the coefficients and operands, up to the extremes of the machine integers, and whether or not the build checks arithmetic overflow (debug or release), an operation either delivers the exact head and symbols or panics. It never wraps, saturates or truncates into a wrong head, wrong symbol, premature end, endless sequence or wrong comparison.",
  ["inputs", "configurations"], "all coefficients and operands with emphasis on magnitudes near 2^31, 2^32, 2^62, 2^63 and 2^64; build profiles with and without overflow checks",
  "Tests run in one profile where plain arithmetic panics anyway, and the few large-value tests only check that nothing panics, never what the symbols are.",
  [HOM, COM, SUP, CON, RAT, LIB], [("checked arithmetic at every step that can overflow", HOM+", "+COM+", "+SUP+": checked_add/sub/mul/neg"), ("headroom guard", CON+": is_state_unsafe")],
  [], ["Clog::egest, Number::compare, panics; both profiles"])

p("C08", "Operations within the working range never fail",
  "A homographic transformation never panics for a nonzero denominator when its coefficients are at most 1000 and its operand's lowest terms at most 63 in magnitude (or at most 10 and 127), nor does a combination with coefficients at most 1000 and operand terms at most 15 (or 2 and 31); identity, negation, reciprocal and negated reciprocal (coefficients 1, 0 and -1) of any machine ratio never fail. More generally, no operation fails for lack of integer range while all working coefficients of Gosper's algorithm (even factors cancelled as symbols are exchanged) and the cross products needed to compare image bounds stay below 2^60. Each operation also terminates with a finite symbol sequence.",
  ["inputs", "programs"], "all coefficients and operands inside the stated envelope, directly or as results of other operations inside it",
  "Tests show no failure at coefficients up to 6 (2 for combinations) with tiny operands and at twelve hand-picked large ones; internal consistency panics and premature overflow elsewhere go unnoticed.",
  [HOM, COM, SUP], [("halving instead of doubling when even", HOM+": ingest_amplify, amplify; "+COM+": amplify_x/y, amplify"), ("emit as soon as possible to keep coefficients small", HOM+": egest; "+COM+": egest")],
  [], ["absence of panics in Number::homographic, Number::combine, Clog::egest"])

p("C09", "One value, one representation",
  "Two numbers with equal values have identical representations, whatever sequence of operations produced them: same special value or same primer, and the same symbols to the end; numbers with different values have different representations. In particular -1, 0 and 1 are always special, values beyond 1 in magnitude always carry Turn or Ground, negative ones Reflect or Ground, and values in (0,1) no primer.",
  ["programs", "histories"], "all pairs of API histories leading to the same exact value: unreduced ratios, inverse operations that cancel, algebraically equal forms, consume and rebuild, re-priming, results next to or exactly at special values",
  "Tests only ask compare for equality with a ratio, never look at the symbols or primers of computed numbers, and use single operations rather than histories.",
  [RAT, HOM, COM, CON, PRO], [("emission rule is the representation's own case split", HOM+": primer_egest, reduction_egest; "+COM+": same; "+RAT+": new, egest"), ("degenerate transformations are kept open until the exact value is known", HOM+": primer_egest are_same/is_special")],
  [], ["Number variants, Clog::egest"])

p("C10", "A finished sequence stays finished and a partly read one stays usable",
  "Once a number's symbol sequence has ended, every further read reports the end again and never panics, for numbers of every origin. At any point of reading, the unread rest is itself a valid number: used as operand, compared, consumed or given another primer, it behaves exactly like the value that remains.",
  ["histories"], "all numbers, all cut points, any number of reads past the end, all subsequent uses",
  "One test reads an exhausted ratio again; no test does so for computed numbers, during the switch between internal forms, or reuses a partly read number.",
  [LIB, RAT, HOM, COM], [("exhausted ratio restores its state", RAT+": Ratio::egest"), ("constant one half detected without changing state", HOM+": reduction_egest"), ("replacement of the internal form", LIB+": Clog::egest")],
  [("strategy", "current internal form of the number", LIB+": Clog")], ["Clog::egest, Number::Other"])

p("C11", "Operations have no effect besides their result",
  "No library operation writes to standard output or standard error, opens files or sockets, or otherwise acts on the environment; results do not depend on whether the standard streams are usable, full or closed. Operations behave the same in every process and thread.",
  ["inputs", "fault_sequences"], "all operations on all inputs, with standard streams intact, full or closed",
  "Tests capture output and ignore it; none runs with unusable standard streams.",
  [HOM, COM, LIB], [("pure computation on owned state", LIB)], [], ["file descriptors 1 and 2, system calls"])

p("C12", "Symbols are delivered as soon as the input determines them",
  "A homographic transformation whose value depends on its operand reads no further operand symbol once the symbols already read determine its primer or next symbol for every continuation; a combination reads at most one more symbol, to complete a pair, once they determine it with room to spare at the bounds. Comparison reads no symbol when primers or special values decide, and otherwise no symbol after the first difference; consume reads nothing after its last returned coefficient update. Building a transformation does not read its operand to the end unless its head depends on it.",
  ["inputs", "histories"], "all operand symbol sequences (finite and endless), coefficients and read patterns",
  "No test observes what an operation reads; endless operands cannot be built through the public constructors, so a version that exhausts its operands first passes every test.",
  [HOM, COM, CMP, CON], [("try to emit before each ingestion", HOM+": prime, egest; "+COM+": prime, egest"), ("stop at the first difference", CMP+": compare_clogs")],
  [], ["reads of instrumented operands interleaved with delivered symbols"], "symbol source that records reads (cfg clarith_verif)")

p("C13", "Every delivered symbol is justified by what has been read",
  "At every moment, each primer and symbol already delivered is correct for every possible continuation of the operand symbols read so far, so results are right for endless (irrational) operands too, where no final value is ever available. Identity, negation and reciprocals stream indefinitely without failure, and any other transformation only stops by a loud overflow panic.",
  ["inputs", "histories"], "all operand symbol sequences, endless ones included, all coefficients, all read patterns",
  "Every test operand is rational with a short sequence; a symbol guessed too early is invisible if the rational happens to agree.",
  [HOM, COM, SUP], [("image bounds over the whole remaining domain, singularities excluded", HOM+": are_singularities_outside_domain, image_extremes; "+COM+": same"), ("range update with infinite bounds", SUP+": updated_range")],
  [("nx, n, dx, d / a..h", "transformation of unread operands to undelivered result", HOM+", "+COM)], ["reads and deliveries of instrumented operands"], "symbol source that records reads (cfg clarith_verif)")

p("C14", "Working memory stays bounded and is released",
  "A number's heap use depends only on the operations it was built from, not on how many symbols have been read from it or its operands; dropping a number at any point, also after a failed operation, releases everything. No operation reads or writes invalid memory.",
  ["inputs", "histories"], "all programs, all cut points, long and endless sequences, failing operations",
  "Tests never measure memory; a retained history, a reference cycle or an unsound shortcut leaves all results intact.",
  [COM, HOM, LIB], [("exclusive shared handles, swapped out before promotion", COM+": shutdown_x/y, promote_clog, simple_clog"), ("owned boxed strategies replaced in place", LIB+": Clog::egest")],
  [("x, y", "operands held behind shared handles", COM+": Combine")], ["allocator calls; address sanitizer reports"])

p("C15", "The demonstration program prints correct representations",
  "The clarith program terminates successfully and prints one line for each integer and half-integer from 0 to 16.5, for the largest machine integer, for its reciprocal and for -2. In each line the symbols after the label are exactly the representation of the labelled number (Z, P, N for specials; T, R, G for primers; A, U for symbols; H at the end).",
  ["configurations"], "every line, in debug and release builds, with output to pipe or file",
  "No test runs the program at all.",
  [MAIN, LIB, RAT], [("printing of specials, primers and symbols", MAIN+": logn, logs, logp, logc, logr")], [], ["standard output and exit status of the program"])

p("C16", "Numbers are independent of each other",
  "Any number of numbers can be built, read in any interleaving, dropped early or abandoned after a failure, in one or many threads, and each still delivers exactly the symbols of its own value. No operation leaves behind state that influences another number.",
  ["schedules", "histories"], "all interleavings of construction, reading, dropping and failing operations over many live numbers and threads",
  "Every test uses one expression at a time and reads it to the end at once.",
  [LIB, RAT, HOM, COM], [("all state is owned by the number", LIB+": Clog; "+COM+": Combine")], [], ["Clog::egest of many live numbers"])

p("C17", "A failed read is never followed by a wrong symbol",
  "When reading a number panics (its integer range is exhausted, or an operand's read failed), every later read of that number and every operation on it either panics as well or continues with exactly the symbols and value that were due before the failed read. A failure never turns into a wrong symbol, a premature end, a wrong comparison or wrong coefficients later on.",
  ["inputs", "histories"], "all programs whose reading fails at some symbol, all ways to go on with the number afterwards",
  "Tests never touch a number again after a panic; half updated coefficients are invisible until somebody does.",
  [LIB, HOM, COM], [("a failed read leaves a state behind that refuses to be read", LIB+": Clog::egest, Failed")],
  [("strategy", "what produces the symbols, replaced when a read fails", LIB+": Clog")], ["Clog::egest after a caught panic"])

p("C18", "Stack depth does not grow with the number of symbols",
  "Building, reading and comparing numbers needs call stack only in proportion to the number of operations they were built from, in debug and release builds alike. However many operand symbols are read before the next delivery (as in the quotient of two tiny numbers) or in total, the process never overflows its stack.",
  ["inputs", "histories", "configurations"], "all programs over operands with thousands of symbols, with and without optimisation",
  "Tests read a few dozen symbols at most, which fit on the stack whatever recursion there is.",
  [HOM, COM, CMP, LIB], [("reading in a loop until something can be delivered", HOM+": prime, egest; "+COM+": prime, egest"), ("comparison in a loop", CMP+": compare_clogs")],
  [], ["stack memory touched during an operation"])

p("C19", "The cost of a symbol does not grow with the symbols before it",
  "The time needed to read the next symbol depends on the operations a number was built from and on the symbols they have to read for it, not on how many symbols were read before. Comparing numbers and reading through a long stretch without delivery takes time in proportion to the symbols read, and stacking operations costs time in proportion to their number.",
  ["inputs", "histories"], "all programs over long and endless symbol sequences",
  "Tests have no sequences long enough for a per-symbol cost that grows with the history to be noticed, and measure no time.",
  [HOM, COM, CMP, LIB], [("constant size state, updated in place", HOM+": Homographic; "+COM+": Combine")], [], ["processor time of reads"])

p("C20", "Taking a number apart hands over its exact content or fails loudly",
  "Unwrapping the special value of a special number, or primer and symbols of any other number, returns exactly the content, without reading or losing a symbol; unwrapping the wrong kind panics. Primer and symbols put together again are the same number.",
  ["inputs"], "all numbers, special or not, whatever operations produced them",
  "Tests only unwrap numbers whose kind they know.",
  [LIB], [("kind test before content", LIB+": unwrap_special, unwrap_other")], [], ["unwrap_special, unwrap_other"])

p("C21", "Debug and release builds behave alike",
  "For every sequence of operations, a build with overflow checks and debug assertions and an optimised build without them deliver the same heads, symbols, comparison results and coefficients, and fail at the same point in the same way (division by zero or exhausted range). Running the same operations again gives the same outcome each time.",
  ["configurations", "inputs", "programs"], "all programs over the public API, up to the extremes of the machine integers, in builds with and without overflow checks, debug assertions and optimisation",
  "Tests run in the debug profile only and compare nothing between profiles or between runs.",
  [LIB, RAT, HOM, COM, SUP, CON, CMP], [("arithmetic that is checked in every profile", HOM+", "+COM+", "+SUP+": checked_*"), ("no dependence on profile, addresses, time or history", LIB+", src/strategy")],
  [], ["Number::ratio, ratio_u, homographic, combine, compare, consume, Clog::egest"])

with open("/verif/properties.jsonl", "w") as f:
    for q in P:
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P))
