"""Properties of bellframe and the symbolic harness runs which decide them.

prop(...) opens a property; every following J(harness, params...) is one symbolic run of it (all inputs within the
bounds the parameters give), T(...) the same for the thorough tier only.  gen.py writes properties.jsonl and
MANIFEST.json from this file."""
ASSUMPTIONS = [
    "rustc 1.99.1 lowers the sources to LLVM IR faithfully (dev profile: overflow checks and debug assertions on); later "
    "native code generation is not examined",
    "the symbolic executor in /verif/engine gives LLVM IR its semantics correctly (cross-checked on every run by native "
    "re-execution of sampled models of explored paths) and Z3's verdicts are right",
    "allocation never fails; hash values of std's SipHash are abstracted to a constant (every key collides), which the "
    "HashMap/HashSet interface permits",
]
CHECKS = {}
_cur = None


def J(h, *p, covers=(), tier="q", timeout=500, cost=1, hash0=True, samples=8, steps=200_000_000, deep=False):
    """deep: a run which only deepens the bound of a sibling run; running out of time there narrows the reported bound
    instead of making the check inconclusive."""
    _cur["jobs"].append(dict(h=h, p=list(p), covers=list(covers), tier=tier, timeout=timeout, cost=cost, hash0=hash0,
                             samples=samples, steps=steps, deep=deep))


def T(h, *p, **kw):
    kw.setdefault("timeout", 3000)
    kw.setdefault("deep", True)
    J(h, *p, tier="t", **kw)


def prop(pid, title, statement, text, why, files, mech, over=("inputs",), outside="", bounds=None, assumptions=(),
         observe=()):
    global _cur
    _cur = CHECKS[pid] = dict(jobs=[], bounds=bounds or {}, outside=outside, assumptions=list(assumptions), title=title,
                              statement=statement, text=text, why=why, files=files, mech=mech, over=list(over),
                              observe=list(observe))


ROW = ["src/row/borrowed.rs", "src/row/owned.rs"]

# ------------------------------------------------------------------------------------------------- rows
prop("R01", "Every row built through the checked API is a permutation of its bells",
     "Building a row from a sequence of bells succeeds exactly when every bell of the stage occurs exactly once (for the "
     "form with an explicit stage: when the bells are a complete permutation no larger than the stage, cover bells being "
     "appended in order), and then the row holds precisely those bells in that order. Otherwise an error is returned, "
     "whose named bell really is duplicated, missing or out of the stage as it says.",
     "all sequences of up to 6 bells with arbitrary indices (64-bit up to 5 bells), with and without an explicit stage (cover bells up to 20); on stages to 130, rows with four bells replaced by arbitrary ones",
     "unit tests try a dozen literal rows; the guarantee that no invalid row can ever come out is over all bell sequences",
     ROW, [("duplicate/range checklist", "src/row/owned.rs: RowBuf::from_vec"),
           ("checklist with stage, cover bells", "src/row/owned.rs: RowBuf::from_vec_with_stage"),
           ("iterator constructor", "src/row/owned.rs: RowBuf::from_bell_iter")],
     outside="sequences of more than 6 bells (7 in the thorough tier) in which all bells vary; from_vec_unchecked (unsafe by contract)",
     bounds={"h_from_vec": "params = bells, bits of each bell's index (arbitrary), 1 = iterator constructor",
             "h_from_vec_stage": "params = bells given, stage, bits of each bell's index"})
J("h_from_vec", 0, 8, 0)
J("h_from_vec", 0, 8, 1)
for n in (1, 2, 3, 4, 5):
    J("h_from_vec", n, 64, 0, covers=(1, 2))
    J("h_from_vec", n, 64 if n < 4 else 8, 1, covers=(1, 2))
J("h_from_vec", 6, 8, 0, covers=(1, 2), cost=3)
for k, n in ((1, 1), (1, 4), (2, 2), (3, 3), (3, 5), (2, 12), (4, 4), (4, 9), (3, 20), (5, 5), (5, 8)):
    J("h_from_vec_stage", k, n, 64 if k < 4 else 8, covers=(1, 2))
J("h_from_vec_stage", 4, 3, 8, covers=(2,))
J("h_from_vec_stage", 3, 2, 64, covers=(2,))
J("h_from_vec_stage", 0, 3, 8)
T("h_from_vec", 7, 8, 0, covers=(1, 2), cost=9)
T("h_from_vec", 7, 8, 1, covers=(1, 2), cost=9)
T("h_from_vec_stage", 6, 6, 8, covers=(1, 2), cost=9)
T("h_from_vec_stage", 6, 9, 8, covers=(1, 2), cost=9)
T("h_from_vec_stage", 6, 4, 8, covers=(2,), cost=9)

prop("R02", "Rows are parsed and written faithfully and never wrongly accepted",
     "Parsing any text as a row reads its bell names in order, ignoring every other character, and succeeds exactly when "
     "those bells form a row (of the requested stage, with cover bells appended, when one is given); otherwise the "
     "returned error names a bell which really is duplicated, missing or too large. Writing a row and parsing it back "
     "gives the same row (if all its bells have names; others are written as numbers in angle brackets).",
     "all ASCII strings of up to 3 characters (4 thorough); all strings of 5 bell names; one arbitrary Unicode character among bells; rows of up to 12 bells with any one character replaced or inserted; texts of up to 400 characters with an arbitrary bell at an arbitrary end or middle place; all rows of up to 8 bells and restricted ones up to 102 for writing",
     "the tests parse about twenty literals; a parser's accept set and error reports are about every string",
     ["src/row/owned.rs", "src/bell.rs", "src/row/borrowed.rs"],
     [("parse", "src/row/owned.rs: RowBuf::parse, parse_with_stage, FromStr"), ("bell names", "src/bell.rs: Bell::from_name"),
      ("display", "src/row/borrowed.rs: Display for Row")],
     outside="longer strings in which everything varies; more than one non-ASCII character that varies",
     bounds={"h_row_parse": "params = length of an arbitrary ASCII string, 1 = through FromStr",
             "h_row_parse_bells": "params = number of bell names, how many different bells they may name",
             "h_row_parse_stage": "params = length of an arbitrary ASCII string, stage",
             "h_row_display": "params = bells; every row (written only, above 33 bells)", "h_row_parse_char": "one arbitrary Unicode scalar value"})
for k in (0, 1, 2, 3):
    J("h_row_parse", k, 0, covers=(1, 2) if k else (2,), cost=2)
J("h_row_parse", 3, 1, covers=(1, 2), cost=2)
for k, m in ((4, 16), (5, 6)):
    J("h_row_parse_bells", k, m, covers=(1, 2), cost=3)
T("h_row_parse_bells", 6, 6, covers=(1, 2), cost=9)
T("h_row_parse_bells", 5, 16, covers=(1, 2), cost=9)
for k, n in ((1, 1), (2, 4), (3, 3), (3, 12)):
    J("h_row_parse_stage", k, n, covers=(1, 2), cost=2)
J("h_row_parse_stage", 3, 2, covers=(1, 2), cost=2)
for n in (1, 2, 4, 5, 6):
    J("h_row_display", n, cost=2)
J("h_row_parse_char", covers=(1, 2))
T("h_row_parse", 4, 0, covers=(1, 2), cost=9)
T("h_row_parse_stage", 4, 4, covers=(1, 2), cost=9)
T("h_row_parse_stage", 4, 6, covers=(1, 2), cost=9)
T("h_row_display", 8, cost=9)

prop("R03", "Multiplying rows composes them as permutations, in every form",
     "The product of two rows of one stage has, in each place, the left row's bell at the place given by the right row's "
     "bell there; every way of multiplying (operator, checked, into an existing buffer of any previous size, into an "
     "existing row) gives that same valid row and leaves the operands alone. Rows of different stages are never "
     "multiplied: every checked form reports both stages and leaves its output unchanged, and the operators panic.",
     "all pairs of rows of one stage up to 8 bells and of 12; output buffers of smaller, equal and larger previous stage; pairs of different stages; every stage from 9 to 40 and those around powers of two up to 258",
     "the tests multiply a few literal rows; composition must be right for all pairs and all output-buffer states",
     ROW, [("mul family", "src/row/borrowed.rs: mul_result, mul_unchecked, mul_into, mul_into_row, Mul impls")],
     outside="validity of products is decided up to 6 bells directly",
     bounds={"h_mul": "params = bells; both rows arbitrary", "h_mul_into": "params = bells, stage of the buffer's old contents",
             "h_mul_stage": "params = stage, other stage, 0 = checked forms / 1 = operators"})
for n in (1, 2, 3, 4, 5, 6, 8, 12):
    J("h_mul", n, cost=n / 4)
for n, m in ((1, 3), (3, 1), (4, 4), (4, 7), (7, 4), (6, 2), (12, 1)):
    J("h_mul_into", n, m)
for n, m in ((1, 2), (2, 1), (4, 5), (5, 4), (3, 8), (8, 3)):
    J("h_mul_stage", n, m, 0)
    J("h_mul_stage", n, m, 1)
T("h_mul", 16, cost=9)
T("h_mul_into", 16, 8)
T("h_mul_into", 8, 16)

prop("R04", "Inverses and transpositions solve the equations they promise",
     "The inverse of a row, however it is obtained and whatever its output held before, puts place p at the bell which "
     "the row has in place p, so row and inverse multiply to rounds both ways. The two equation solvers and the "
     "transposition from one row to another return a row x satisfying a·x = b (respectively x·a = b), and report "
     "mismatched stages.",
     "all rows and pairs of rows up to 6 bells (8 for inverses), output buffers of any previous stage; every stage from 9 to 40 and those around powers of two up to 258",
     "tests use a handful of literal rows", ROW,
     [("inverse", "src/row/borrowed.rs: inv, inv_into, inv_into_buf, Not impls"),
      ("solvers", "src/row/borrowed.rs: solve_ax_equals_b, solve_xa_equals_b, tranposition_to")],
     outside="stages above 258",
     bounds={"h_inv": "params = bells, stage of the buffer's old contents", "h_solve": "params = bells; both rows arbitrary"})
for n, m in ((1, 1), (2, 5), (3, 3), (4, 2), (5, 8), (6, 6), (8, 8), (8, 3)):
    J("h_inv", n, m, cost=n / 3)
for n in (1, 2, 3, 4, 5, 6):
    J("h_solve", n, cost=n / 2)
T("h_inv", 12, 12, cost=9)
T("h_inv", 12, 5, cost=9)
T("h_solve", 7, cost=9)
T("h_solve", 8, cost=9)

prop("R05", "Powers of a row and its closure follow its order",
     "A row raised to a power is that many factors of it multiplied, negative powers being powers of the inverse and the "
     "zeroth power rounds. The closure of a row lists its successive powers, each once, ending at rounds (or starting at "
     "rounds for the other form), and so has as many entries as the row's order.",
     "all rows of up to 4 bells with exponents to 64, up to 6 bells with small ones; rows of many cycle types, with arbitrarily labelled cycles, with every exponent of up to 70 or (in steps) 270; closures of all rows of up to 4 bells and of rows of given cycle types up to 34 bells",
     "tests take a few powers of literal rows", ROW,
     [("powers", "src/row/borrowed.rs: pow_i, pow_u"), ("closure", "src/row/borrowed.rs: closure, closure_from_rounds")],
     outside="other cycle types on more than 5 bells; larger exponents",
     bounds={"h_pow": "params = bells, |exponent|; both signs", "h_closure": "params = bells; every row",
             "h_pow_cycles": "params = bells labelled arbitrarily, top exponent, its step, cycle lengths (99 ends): every exponent up to the top, both signs",
             "h_closure_cycles": "params = bells labelled arbitrarily, cycle lengths (99 ends)"})
for n in (1, 2, 3, 4):
    for e in (0, 1, 2, 3, 5):
        J("h_pow", n, e)
J("h_pow", 5, 2)
J("h_pow", 5, 4, cost=2)
J("h_pow", 5, 7, cost=2)
J("h_pow", 6, 3, cost=2)
J("h_pow", 8, 2, cost=2)
for n in (1, 2, 3, 4):
    J("h_closure", n, cost=n)
T("h_closure", 5, cost=9)
T("h_pow", 6, 6, cost=9)
T("h_pow", 5, 9, cost=9)
T("h_pow", 5, 12, cost=9)

prop("R06", "Row parity is the sign of the permutation",
     "Rounds is even, swapping two bells flips a row's parity, and the parity of a product is the product of the parities. "
     "The numeric, sign and boolean views of a parity agree with each other.",
     "all pairs of rows of up to 4 bells as a homomorphism, all rows of up to 5 (6 thorough) against an inversion count; every stage from 9 to 40 and those around powers of two",
     "one literal table in the tests; parity is a statement about all n! rows",
     ["src/row/borrowed.rs", "src/parity.rs"], [("cycle counting", "src/row/borrowed.rs: Row::parity"), ("parity algebra", "src/parity.rs")],
     outside="stages above 257",
     bounds={"h_parity": "params = bells; two arbitrary rows", "h_parity_one": "params = bells; every row against its number of inversions"})
for n in (1, 2, 3, 4):
    J("h_parity", n, cost=n)
for n in (1, 2, 3, 4, 5):
    J("h_parity_one", n, cost=n)
T("h_parity_one", 6, cost=9)

prop("R07", "Accessors and predicates of a row say exactly what its bells are",
     "The stage, effective stage, rounds and backrounds tests, place of a bell, fixed bells, iteration, indexing, slices "
     "and conversions of a row all agree with its sequence of bells, for bells inside and outside the stage. The named "
     "constructors give rounds, backrounds and queens on every stage; swapping two places exchanges exactly these, and "
     "extending a row appends cover bells, both refusing arguments which do not fit.",
     "all rows of up to 8 bells and of 12, arbitrary 64-bit bells and arbitrary places; every stage from 9 to 40 and those around powers of two up to 300",
     "the tests look at a few literal rows", ROW,
     [("accessors", "src/row/borrowed.rs: stage, place_of, is_rounds, is_backrounds, effective_stage, fixed_bells, swap"),
      ("constructors", "src/row/owned.rs: rounds, backrounds, queens, extend_to_stage, overwrite_from")],
     outside="stages above 300",
     bounds={"h_predicates": "params = bells; every row", "h_place_of": "params = bells; every row, any 64-bit bell",
             "h_fixed_bells": "params = bells; every row", "h_extend": "params = bells, new stage", "h_convert": "params = bells",
             "h_swap": "params = bells; two arbitrary places below 256", "h_constructors": "params = bells; every place"})
for n in (1, 2, 3, 4, 6, 8, 12):
    J("h_predicates", n)
    J("h_place_of", n)
    J("h_swap", n)
for n in (1, 2, 3, 4, 5):
    J("h_fixed_bells", n)
for n, m in ((1, 1), (1, 5), (3, 4), (4, 4), (5, 3), (8, 12), (12, 8), (6, 24)):
    J("h_extend", n, m)
for n in (1, 3, 6, 12):
    J("h_convert", n)
for n in (1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 16, 22, 33):
    J("h_constructors", n)
T("h_fixed_bells", 6, cost=9)
T("h_predicates", 16)
T("h_place_of", 20)

prop("R08", "The fast row hash never collides on rows of one stage",
     "Two different rows of the same stage of up to sixteen bells always have different fast hashes, equal rows have equal "
     "fast hashes, and computing it never panics on any stage.",
     "all pairs of rows of each stage up to 8 and of 16; absence of panics on every stage to 40 and around powers of two up to 257",
     "no test covers the collision claim; it is about all pairs of rows", ["src/row/borrowed.rs"],
     [("positional hash", "src/row/borrowed.rs: Row::fast_hash")],
     outside="collision freedom on 9-15 bells (the multiplications are out of the solver's reach)",
     bounds={"h_fast_hash": "params = bells; both rows arbitrary"})
for n in (1, 2, 3, 4, 5, 6, 7, 8, 16):
    J("h_fast_hash", n, cost=n / 3)
J("h_fast_hash", 20, cost=3)

prop("R09", "Equality, ordering and hashing of rows agree with their bells",
     "Two rows compare equal exactly when they have the same bells in the same order, order lexicographically with a "
     "shorter prefix first, and feed equal data to a hasher exactly when equal. Owned and borrowed rows behave identically "
     "in all three, so either can be used to look the other up in a map or set.",
     "all pairs of rows of stages up to 6, equal and unequal stages; every stage from 9 to 40 and those around powers of two up to 258", "tests never compare orderings or hashes across forms", ROW,
     [("derived traits", "src/row/borrowed.rs: Row"), ("cross-form comparison", "src/row/owned.rs: PartialEq, Borrow")],
     outside="stages of 7 bells and more in which everything varies (8 thorough)", bounds={"h_eq_ord": "params = bells of one row, of the other", "h_hash": "params = bells of one row, of the other"})
for n, m in ((1, 1), (2, 2), (3, 3), (4, 4), (6, 6), (2, 3), (4, 3), (1, 5), (6, 4)):
    J("h_eq_ord", n, m)
    J("h_hash", n, m)
T("h_eq_ord", 8, 8)
T("h_hash", 8, 8)

prop("R10", "The Cartesian product of sets of rows holds every product once",
     "Multiplying together several sets of rows yields exactly the products of one row from each set, in order of the "
     "sets, each as often as it can be formed; with an empty set among them there are none. A row of another stage "
     "anywhere among the sets is reported as a stage mismatch.",
     "all choices of up to 3 sets of up to 3 arbitrary rows (4 sets of 2) of up to 5 bells; a stranger row in every position; every stage from 9 to 40 and those around powers of two",
     "one literal example exists in the documentation", ["src/row/borrowed.rs"],
     [("product", "src/row/borrowed.rs: multi_cartesian_product")], outside="more than 4 sets or 3 rows each",
     bounds={"h_cartesian": "params = bells, number of sets, rows in each set", "h_cartesian_stage": "params = stage, other stage, position"})
for p in ((4, 0), (4, 1, 2), (3, 2, 2, 2), (3, 2, 1, 3), (4, 2, 2, 1), (3, 3, 2, 1, 2), (3, 2, 0, 2), (3, 2, 2, 0), (5, 2, 2, 2), (3, 3, 2, 2, 2)):
    J("h_cartesian", *p, cost=2)
for pos in range(4):
    J("h_cartesian_stage", 4, 5, pos)
    J("h_cartesian_stage", 3, 2, pos)
T("h_cartesian", 4, 2, 3, 3, cost=9)

prop("R11", "Group recognition and group generation are exact",
     "A set of rows is recognised as a group exactly when it is non-empty and closed under multiplication, whatever order "
     "and repetitions it is given in. The least group containing some rows contains them, is closed under multiplication, "
     "has no repeats and nothing more than the products of the given rows.",
     "all lists of up to 4 rows on 3 bells and 3 rows on 4 bells for recognition; all lists of up to 2 generators on 3 bells for generation; two rows on every stage to 40; sets in which the stages differ in any position",
     "tests check two literal groups", ["src/row/borrowed.rs"],
     [("is_group", "src/row/borrowed.rs: is_group"), ("closure under generators", "src/row/borrowed.rs: least_group_containing")],
     outside="larger sets and generators of more than 3 bells", bounds={"h_is_group": "params = bells, rows", "h_least_group": "params = bells, generators, saturation rounds of the reference"})
for n, k in ((1, 1), (2, 1), (2, 2), (3, 0), (3, 1), (3, 2), (3, 3), (3, 4), (4, 2), (4, 3)):
    J("h_is_group", n, k, cost=k)
for n, k in ((1, 1), (2, 1), (2, 2), (3, 1), (3, 2)):
    J("h_least_group", n, k, 6, cost=2 * k)
T("h_is_group", 3, 6, cost=9)
T("h_is_group", 4, 4, cost=9)
T("h_is_group", 3, 5, cost=9)
T("h_least_group", 3, 3, 6, cost=9)

prop("R12", "A row accumulator always holds the product of what it was given",
     "After any sequence of accumulating a row on either side, multiplying in place and setting, the accumulator's total is "
     "the product these operations describe, whichever internal buffer holds it. Rows of another stage are refused and "
     "leave the total alone.",
     "all histories of up to 4 operations with arbitrary rows of 3 bells and 3 of 4 bells (8 on 2 bells); two operations on every stage to 40 and around powers of two",
     "no test exercises sequences of operations on it", ["src/row/accumulator.rs"],
     [("double buffering", "src/row/accumulator.rs: accumulate, pre_accumulate, set")], over=("inputs", "histories"),
     outside="longer histories", bounds={"h_accumulator": "params = bells, operations (each operation and row symbolic)"})
for n, k in ((1, 2), (2, 3), (3, 3), (3, 4), (4, 3), (6, 2)):
    J("h_accumulator", n, k, cost=k)
T("h_accumulator", 3, 5, cost=9)
T("h_accumulator", 6, 4, cost=9)

# ------------------------------------------------------------------------------------------------- bells, stages
prop("B01", "Bell names, numbers and arithmetic are consistent",
     "A character names a bell exactly when it is one of the sixteen-plus standard bell names, in their standard order, and "
     "every bell's name, number and index agree with each other; converting any bell to its name and back is the identity. "
     "Adding to and subtracting from a bell moves its index by exactly that amount, never wrapping around silently to "
     "another bell.",
     "all Unicode characters, all 64-bit bell indices and offsets", "tests sample a few characters and bells",
     ["src/bell.rs"], [("name table", "src/bell.rs: BELL_NAMES, from_name, to_char, name"), ("arithmetic", "src/bell.rs: Add, Sub")],
     outside="decimal expansion of numbers is compared for indices below 10000",
     bounds={"h_bell_from_name": "every Unicode scalar value", "h_bell_to_char": "every 64-bit index", "h_bell_name": "params = kind",
             "h_bell_arith": "params = 0 add / 1 subtract; any 64-bit bell and offset"})
J("h_bell_from_name", covers=(1, 2))
J("h_bell_to_char")
J("h_bell_name", 0)
J("h_bell_name", 1)
J("h_bell_arith", 0)
J("h_bell_arith", 1)

prop("B02", "Stage names and sizes are consistent",
     "A stage exists for every positive number of bells and for none other, knows its parity, tenor and bells, and prints "
     "its standard name or its number when it has none. Looking a stage up by lower-case name finds exactly the standard "
     "names, each giving the stage with that name, and stage-mismatch tests report exactly real mismatches.",
     "all 64-bit numbers of bells; all ASCII strings of up to 10 (14 thorough) characters as names; up to 6 stages tested one after another", "tests sample a few stages",
     ["src/stage.rs"], [("names", "src/stage.rs: from_lower_case_name, name, Display"), ("construction", "src/stage.rs: TryFrom, new")],
     outside="longer names (none is a stage's)",
     bounds={"h_stage": "every 64-bit number", "h_stage_name": "params = stage", "h_stage_from_name": "params = length of an arbitrary ASCII string"})
J("h_stage")
for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 100):
    J("h_stage_name", n)
for n in (0, 1, 3, 4, 5, 6, 7, 8, 9, 10):
    J("h_stage_from_name", n)
T("h_stage_from_name", 11)
T("h_stage_from_name", 12)
T("h_stage_from_name", 14)

prop("E01", "Error messages and debug forms say exactly what they carry",
     "The text of every error (of rows, place notations, blocks of them, lists of rows and blocks, mismatched stages) names "
     "precisely the bells, places, stages, line and position the error carries, in their own roles, so that different "
     "faults never read alike. The debug forms of bells, stages, rows, masks, patterns, place notations, lists and blocks "
     "show their whole contents in order, and the named stage constants are the stages they name.",
     "all errors with any named bells and twelve numbers for lines, positions and stages; debug forms of all rows of up to 8 bells and lists of up to 4 rows; all stages below 256",
     "tests look at two messages; which bell, stage or number lands in which place of the message depends on all of them being different",
     ["src/row/errors.rs", "src/place_not.rs", "src/row/same_stage_vec.rs", "src/stage.rs", "src/block.rs", "src/bell.rs", "src/mask.rs", "src/music.rs"],
     [("row errors", "src/row/errors.rs: Display for InvalidRowError, MulIntoError"),
      ("place notation errors", "src/place_not.rs: Display for ParseError, PnBlockParseError, InvalidPnBlockError"),
      ("list errors", "src/row/same_stage_vec.rs: Display for ParseError"), ("debug forms", "src/stage.rs, src/block.rs, src/row/*.rs, src/mask.rs, src/music.rs: Debug")],
     outside="bells without names in messages; other numbers; text widths and flags of the formatter; library errors",
     bounds={"h_msg_row": "params = which error; any named bell", "h_msg_pn": "params = which error; any two named places", "h_msg_pnblock": "params = kind, error inside",
             "h_msg_rows": "params = kind, error inside", "h_msg_stages": "params = stage, other stage, position of the other stage (0: any of 1 to 3)", "h_debug_row": "params = bells", "h_debug_rows": "params = bells, rows",
             "h_debug_pn": "params = places, stage", "h_stage_constants": "every stage below 256"})
for k in range(4):
    J("h_msg_row", k)
    J("h_msg_rows", 1, k)
for k in range(5):
    J("h_msg_pn", k, cost=1 + 5 * (k == 2))
for k in (0, 1, 3, 4):
    J("h_msg_pnblock", 2, k)
T("h_msg_pnblock", 2, 2)
J("h_msg_pnblock", 0, 0)
J("h_msg_pnblock", 1, 0)
J("h_msg_rows", 0, 0)
J("h_msg_rows", 2, 0)
for n, m in ((4, 6), (8, 5), (33, 22), (3, 12), (1, 16), (17, 23)):
    J("h_msg_stages", n, m)
for at in (9, 10, 11, 12, 60, 99, 100, 255, 256, 257, 300):
    J("h_msg_stages", 4, 6, at)
for n in (1, 2, 3, 5, 6, 8, 10, 12, 14, 26, 33):
    J("h_debug_row", n)
for n, k in ((1, 1), (3, 0), (4, 3), (5, 2), (3, 4), (12, 2), (2, 12)):
    J("h_debug_rows", n, k)
for k, n in ((1, 4), (1, 7), (2, 6), (2, 8), (3, 6), (4, 12)):
    J("h_debug_pn", k, n)
J("h_stage_constants", cost=2)

prop("B03", "Serialised bells and stages deserialise to themselves",
     "Serialising a bell or a stage and deserialising the result gives the same bell or stage. Deserialising any number or "
     "text gives the bell or stage it denotes or an error, never a panic and never another bell or stage.",
     "bell and stage numbers below 2^16 through JSON text; every integer type's full range for visitors (decimal texts bounded); all ASCII strings of up to 3 characters",
     "tests round-trip a few values", ["src/bell.rs", "src/stage.rs"],
     [("Bell serde", "src/bell.rs: Serialize, BellVisitor"), ("Stage serde", "src/stage.rs: Serialize, StageVisitor")],
     outside="JSON documents of more than 3 characters; formats other than serde_json's and serde's value deserialisers",
     bounds={"h_bell_serde_roundtrip": "params = bits of the index", "h_bell_de_int": "params = which integer type (0, 8 and 9 u64: 0 below 2^63 or in the top 1024; 8 ten free bits at that offset above 2^63; 9 all)", "h_stage_de_int": "params as h_bell_de_int",
             "h_serde_json_text": "params = length of an arbitrary ASCII document, 0 bell / 1 stage"})
J("h_bell_serde_roundtrip", 16, cost=3)
J("h_stage_serde_roundtrip", 16, cost=3)
J("h_bell_serde_string")
for k in range(8):
    J("h_bell_de_int", k, cost=2)
    J("h_stage_de_int", k, cost=2)
for k in (0, 30, 53):
    J("h_bell_de_int", 8, k, cost=2)
    J("h_stage_de_int", 8, k, cost=2)
J("h_bell_de_int", 9, deep=True, timeout=60)
J("h_stage_de_int", 9, deep=True, timeout=60)
J("h_bell_de_char")
for k in (0, 1, 2, 3):
    J("h_bell_de_str", k)
for k in (1, 2):
    J("h_serde_json_text", k, 0, cost=3)
    J("h_serde_json_text", k, 1, cost=3)
T("h_serde_json_text", 3, 0, cost=9)
T("h_serde_json_text", 3, 1, cost=9)

# ------------------------------------------------------------------------------------------------- place notation
prop("P01", "Place notation is parsed to exactly the places it denotes",
     "Parsing a place notation for a stage either yields exactly the given places plus the implied external ones, or an "
     "error which is true of the text: a place outside the stage, an odd gap between places, a cross on an odd stage or no "
     "places. The order in which places are written does not matter, and writing a place notation and parsing it back "
     "gives the same one.",
     "all lists of up to 3 places of up to 8 bits on stages up to 12; all ASCII strings of up to 2 characters (3 thorough); all orders of 3 places; lists of 12 to 33 places on up to 33 bells with arbitrary ones at the ends and in the middle, forwards and backwards",
     "tests parse fixed tables; which places are implied or ambiguous depends on every combination of given places and stage",
     ["src/place_not.rs"], [("parse and validation", "src/place_not.rs: PlaceNot::parse, from_sorted_slice"), ("display", "src/place_not.rs: Display for PlaceNot"),
                            ("cross", "src/place_not.rs: PlaceNot::cross")],
     outside="longer lists in which everything varies",
     bounds={"h_pn_sorted": "params = places given, stage, bits of each place", "h_pn_parse": "params = length of an arbitrary ASCII string, stage",
             "h_pn_order": "params = places, stage, bits", "h_pn_display": "params = stage, bits of the place set"})
for k, n in ((0, 4), (1, 1), (1, 4), (1, 5), (2, 2), (2, 5), (2, 6), (3, 6), (3, 7), (2, 12)):
    J("h_pn_sorted", k, n, 8, cost=k)
for k, n in ((0, 4), (1, 1), (1, 4), (1, 5), (2, 4), (2, 5), (2, 8)):
    J("h_pn_parse", k, n, cost=2)
for k, n, b in ((2, 4, 3), (3, 5, 3), (3, 6, 3)):
    J("h_pn_order", k, n, b, cost=3)
for n, b in ((1, 1), (2, 2), (4, 3), (5, 3), (6, 4), (7, 4)):
    J("h_pn_display", n, b, cost=2)
J("h_pn_cross")
T("h_pn_parse", 3, 6, cost=9)
T("h_pn_parse", 3, 5, cost=9)
T("h_pn_sorted", 4, 8, 8, cost=9)
T("h_pn_order", 4, 8, 3, cost=9)
T("h_pn_display", 8, 5, cost=9)

prop("P02", "Applying a place notation swaps exactly the pairs it leaves",
     "Applying a place notation to a row, in place or into a new row, keeps the bells in the named places and swaps each "
     "remaining adjacent pair; this agrees with multiplying by its transposition row, undoes itself when repeated, and is "
     "refused for a row of another stage. The place notation between two rows is found exactly when one exists, and then "
     "leads from the first to the second; containment and internal-place tests agree with the set of places.",
     "all place notations and rows of up to 7 bells (8 thorough); all pairs of rows of up to 7 bells; every stage from 9 to 40 and those around powers of two up to 257, with up to four places that vary", "tests use a few literal rows",
     ["src/place_not.rs"], [("permute", "src/place_not.rs: permute, permute_new, transposition"), ("pn_between", "src/place_not.rs: pn_between")],
     outside="larger stages", bounds={"h_pn_permute": "params = stage, bits of the place set", "h_pn_between": "params = stage; two arbitrary rows"})
for n, b in ((1, 1), (2, 2), (3, 2), (4, 3), (5, 3), (6, 4), (7, 4)):
    J("h_pn_permute", n, b, cost=n / 3)
for n in (1, 2, 3, 4, 5, 6):
    J("h_pn_between", n, cost=n / 2)
T("h_pn_permute", 8, 5, cost=9)
T("h_pn_between", 7, cost=9)

prop("P03", "Place notation blocks expand exactly as written, errors in position",
     "Parsing a block of place notation gives the changes written: dots and crosses separate, spaces are ignored, a leading "
     "plus gives an asymmetric part, otherwise every comma-separated part of a comma-containing text is made palindromic. "
     "Invalid blocks are refused with an error whose position and kind are true of the text; no text makes parsing panic.",
     "all sequences of up to 3 (4 thorough) tokens of any class on small stages; ten layouts with every place symbolic; all ASCII strings of up to 2 (3) characters; eight longer texts with any one character replaced by or followed by any other; blocks of 9 to 20 comma-separated parts; changes of up to 33 places",
     "tests parse a table of literals, none of which checks error positions", ["src/place_not.rs"],
     [("block parser", "src/place_not.rs: PnBlock::parse, parse_asym_block"), ("character classes", "src/place_not.rs: CharMeaning")],
     outside="longer texts in which everything varies",
     bounds={"h_pnblock_parse": "params = tokens, stage, class of the first token (9 = any)", "h_pnblock_layout": "params = layout, stage",
             "h_pnblock_ascii": "params = length of an arbitrary ASCII string, stage"})
for k, n in ((0, 4), (1, 4), (1, 5), (2, 4), (2, 5), (3, 4)):
    J("h_pnblock_parse", k, n, 9, cost=1 + 4 * (k == 3))
for l in range(10):
    J("h_pnblock_layout", l, 4, cost=2)
    J("h_pnblock_layout", l, 6, cost=3)
for k, n in ((1, 4), (2, 4), (2, 5)):
    J("h_pnblock_ascii", k, n, cost=3)
J("h_pnblock_parse", 3, 5, 9, cost=6)
for f in range(9):
    T("h_pnblock_parse", 4, 4, f, cost=9)
    T("h_pnblock_parse", 4, 5, f, cost=9)
T("h_pnblock_ascii", 3, 4, cost=9)

prop("P04", "The rows of a place notation block follow its changes one by one",
     "Turning a block of place notation into rows from any start gives that start followed by the effect of each change in "
     "turn, in every form (plain rows or annotated block), the last row being the left-over one. A block is never empty, "
     "never mixes stages, and refuses a start row of another stage.",
     "all start rows and all blocks of up to 3 arbitrary changes on up to 6 bells, up to 7 with fewer places; all stage mixtures of 3 changes; blocks of 70 and 300 changes of which the first, middle and last vary; every stage to 40 and around powers of two",
     "tests expand two literal methods", ["src/place_not.rs"],
     [("to_rows/to_block", "src/place_not.rs: PnBlock::to_rows, to_block, to_block_from_rounds"), ("construction", "src/place_not.rs: PnBlock::from_vec, from_iter")],
     outside="longer blocks in which everything varies", bounds={"h_pnblock_rows": "params = stage, changes, bits per change, constructor", "h_pnblock_mixed": "params = count, stage of each change", "h_pnblock_stranger": "params = stage, other stage, changes, one of which (any) is of the other stage"})
for n, k, b, c in ((1, 2, 1, 0), (2, 2, 2, 0), (3, 2, 2, 1), (4, 2, 3, 0), (4, 3, 3, 1), (5, 2, 3, 0), (6, 2, 4, 1)):
    J("h_pnblock_rows", n, k, b, c, cost=k)
for st in ((0,), (1, 4), (2, 4, 4), (2, 4, 5), (3, 4, 4, 5), (3, 5, 4, 4), (3, 4, 5, 4), (3, 6, 6, 6)):
    J("h_pnblock_mixed", *st)
for n, m, k in ((4, 5, 2), (5, 4, 9), (6, 8, 33), (8, 6, 70)):
    J("h_pnblock_stranger", n, m, k)
T("h_pnblock_rows", 4, 4, 3, 0, cost=9)
T("h_pnblock_rows", 6, 3, 4, 0, cost=9)

# ------------------------------------------------------------------------------------------------- vectors of rows
prop("V01", "A same-stage vector of rows behaves as a plain list of rows",
     "Every operation on a same-stage vector (push, pop, extend in all forms and ranges, permute, split, index, iterate from "
     "either end, path of a bell) has the effect it would have on an ordinary list of the rows, for all indices and ranges, "
     "and leaves every row valid. Out-of-range accesses give nothing or panic, never another row.",
     "all vectors of up to 4 rows of up to 5 bells, all 64-bit indices, all ranges (also with excluded starts), all sequences of up to 4 operations; every stage to 40 and around powers of two; lists of up to 1500 rows of which those at the ends and in the middle vary, with ranges and indices at the ends, in the middle and around powers of two",
     "no tests exercise most operations and none a sequence of them; the flat storage makes each index calculation matter for all stages and lengths",
     ["src/row/same_stage_vec.rs"], [("flat storage", "src/row/same_stage_vec.rs: SameStageVec"), ("iterator", "src/row/same_stage_vec.rs: Iter")],
     over=("inputs", "histories"), outside="other ranges in lists of more than 40 rows; longer histories",
     bounds={"h_ssv_read": "params = stage, rows", "h_ssv_get": "params = stage, rows; any 64-bit index", "h_ssv_path": "params = stage, rows; any 64-bit bell",
             "h_ssv_extend": "params = stage, rows, rows added", "h_ssv_transposed": "params = stage, rows, rows of the source, kind of range; arbitrary range ends",
             "h_ssv_split": "params = stage, rows; any index", "h_ssv_ops": "params = stage, operations"})
for n, k in ((1, 2), (2, 0), (3, 1), (4, 2), (3, 3), (5, 2), (8, 2)):
    J("h_ssv_read", n, k)
    J("h_ssv_path", n, k)
for n, k in ((1, 2), (3, 0), (4, 3), (5, 2)):
    J("h_ssv_get", n, k)
    J("h_ssv_split", n, k)
for n, k, x in ((1, 1, 1), (3, 2, 2), (4, 0, 2), (4, 2, 0), (5, 1, 2)):
    J("h_ssv_extend", n, k, x)
for kind in range(6):
    J("h_ssv_transposed", 3, 2, 3, kind)
    J("h_ssv_transposed", 4, 1, 2, kind)
J("h_ssv_ops", 2, 3, cost=3)
J("h_ssv_ops", 3, 3, cost=5)
T("h_ssv_ops", 4, 3, cost=9)
T("h_ssv_ops", 3, 4, cost=9)

prop("V02", "A same-stage vector never mixes stages and parses only valid rows",
     "Any operation offered a row (or vector) of another stage reports it, or panics where documented, leaving the vector "
     "unchanged. Parsing text accepts exactly non-empty texts whose lines all are valid rows of one stage, and gives those "
     "rows in order; any other text gives an error, never a panic, true of the text.",
     "every operation against a stranger of smaller and larger stages; all texts of up to 4 symbols of bell names, spaces and line breaks; short lists of rows with any one character replaced or inserted; texts of 50 and 300 lines with an arbitrary character in any of eight lines",
     "tests only use well-formed inputs", ["src/row/same_stage_vec.rs", "src/stage.rs"],
     [("stage test", "src/stage.rs: IncompatibleStages::test_err"), ("parse", "src/row/same_stage_vec.rs: SameStageVec::parse")],
     outside="longer texts in which everything varies", bounds={"h_ssv_stage": "params = stage, other stage, operation, 1 = on an empty list", "h_ssv_parse": "params = symbols, different bells"})
for op in range(11):
    J("h_ssv_stage", 4, 3, op)
    J("h_ssv_stage", 3, 5, op)
for op in range(16):
    if op not in (5, 6, 7, 10, 15): J("h_ssv_stage", 4, 3, op, 1)
    if op > 10: J("h_ssv_stage", 3, 4, op); J("h_ssv_stage", 5, 3, op)
for k, c in ((0, ()), (1, (1, 2)), (2, (1, 2)), (3, (1, 2, 3))):
    J("h_ssv_parse", k, 3, cost=k)
J("h_ssv_parse", 4, 3, covers=(1, 2, 3), cost=6)
T("h_ssv_parse", 5, 3, cost=9)

prop("K01", "An annotated block keeps rows and annotations in step",
     "In every block reachable through the API there is one annotation per row before the left-over one, the left-over row "
     "of the first part is the first row of the second when blocks are joined or split, and extending by a block or any "
     "range of it (or of itself) appends precisely those rows, transposed to follow on, with their own annotations. Reading "
     "through any accessor gives these rows and annotations; other stages are refused without effect.",
     "all blocks of up to 4 rows of up to 4 bells with distinct annotations, all ranges (also with excluded starts) and indices, all sequences of up to 3 operations; every stage to 40 and around powers of two; blocks of up to 300 rows of which those at the ends and in the middle vary",
     "a single doc test; alignment depends on every history and range", ["src/block.rs", "src/row/same_stage_vec.rs"],
     [("block invariant", "src/block.rs: AnnotBlock"), ("extend/split", "src/block.rs: extend, extend_range, extend_from_within, split")],
     over=("inputs", "histories"), outside="other ranges in blocks of more than 40 rows; longer histories",
     bounds={"h_block_read": "params = stage, rows", "h_block_path": "params = stage, rows", "h_block_extend": "params = stage, rows, rows of the other",
             "h_block_extend_range": "params = stage, rows, rows of the other, kind of range; arbitrary range ends", "h_block_split": "params = stage, rows; any index",
             "h_block_premul": "params = stage, rows", "h_block_stage": "params = stage, other stage", "h_block_ops": "params = stage, operations"})
for n, k in ((1, 1), (2, 2), (3, 3), (4, 2), (3, 4), (5, 2)):
    J("h_block_read", n, k)
    J("h_block_path", n, k)
for n, k in ((2, 2), (3, 3), (4, 2), (3, 1)):
    J("h_block_split", n, k)
    J("h_block_premul", n, k)
for n, k, x in ((3, 2, 2), (3, 1, 3), (4, 3, 1), (4, 2, 3)):
    J("h_block_extend", n, k, x)
for kind in range(6):
    J("h_block_extend_range", 3, 2, 3, kind, cost=2)
for n, m in ((3, 4), (4, 3), (2, 6)):
    J("h_block_stage", n, m)
J("h_block_ops", 3, 2, cost=4)
J("h_block_ops", 2, 3, cost=4)
T("h_block_ops", 3, 3, cost=9)
T("h_block_ops", 4, 2, cost=9)
T("h_block_ops", 3, 4, cost=9)
for kind in range(6):
    T("h_block_extend_range", 4, 3, 3, kind)

prop("K02", "Repeating a block continues it for ever from any row",
     "Iterating a block repeatedly from any row gives that row multiplied by the block's rows in order, with their annotations "
     "and indices, each further lap being multiplied by the block's left-over row too (so that, for a block from rounds, it "
     "starts where the previous one ended), for ever. Both ways of advancing agree, and a row of another stage is refused.",
     "all start rows, all blocks of up to 4 rows of up to 4 bells, up to 7 steps; blocks of up to 8 rows of 3 bells for 20 steps; blocks of 50 to 300 rows, varying at the ends and in the middle, for 2 to 4 laps; every stage to 40 and around powers of two", "no test iterates past one lap",
     ["src/block.rs"], [("RepeatIter", "src/block.rs: RepeatIter")], over=("inputs", "histories"), outside="more steps",
     bounds={"h_block_repeat": "params = stage, rows, steps, rows to skip (0: none), after how many"})
for n, k, s in ((2, 2, 3), (3, 2, 5), (3, 3, 5), (4, 2, 4), (4, 3, 5), (3, 4, 7)):
    J("h_block_repeat", n, k, s, cost=s / 2)
J("h_block_repeat", 3, 1, 2)
T("h_block_repeat", 5, 4, 7, cost=9)

# ------------------------------------------------------------------------------------------------- equality
prop("Q01", "Equality, hashing and copying of lists, blocks, masks, patterns and changes follow their contents",
     "Two lists of rows, annotated blocks, annotated rows, masks, music patterns, changes, blocks of changes, classes, bells, "
     "stages or parities are equal exactly when everything that can be read from them is the same (stage, rows in order, left-over "
     "row, annotations; the normal form of a pattern), whichever side is asked and however each was built. Equal values hash alike. "
     "A copy is equal to its original, and changing the copy leaves the original as it was. Bells and stages order by number.",
     "all pairs of lists and blocks of up to 4 rows of up to 4 bells with arbitrary annotations, also of different lengths and stages; all pairs of masks to 6 places, "
     "of patterns to 4 elements, of changes to 7 bells and of blocks of 1 to 3 changes on 3 or 4; all pairs of classes, bells and stages; every stage from 9 to 40 and around powers of two, lists of 50 to 300 rows",
     "the tests compare only values built alike; hashing and unequal values are never tested", ["src/row/same_stage_vec.rs", "src/block.rs", "src/mask.rs", "src/music.rs", "src/place_not.rs", "src/method/class.rs", "src/stage.rs", "src/bell.rs", "src/parity.rs"],
     [("lists", "src/row/same_stage_vec.rs: SameStageVec"), ("blocks", "src/block.rs: AnnotBlock, AnnotRow"), ("masks", "src/mask.rs: Mask"), ("patterns", "src/music.rs: Regex"),
      ("changes", "src/place_not.rs: PlaceNot, PnBlock"), ("classes", "src/method/class.rs: FullClass")],
     over=("inputs", "histories"), outside="annotation types other than numbers and (); larger pairs in which everything varies",
     bounds={"h_eq_ssv": "params = stage, rows of each list, capacity to spare in one", "h_eq_block": "params = stage, rows of each block; any annotations", "h_eq_pn": "params = stage, bits to choose among its changes, of each",
             "h_eq_pnblock": "params = stage, bits, changes in each", "h_eq_mask": "params = places of each", "h_eq_regex": "params = elements of each, bells", "h_eq_class": "all pairs", "h_eq_small": "any two numbers of 1 to 255"})
for p in ((1, 2, 1, 2), (2, 3, 2, 3), (3, 2, 3, 2), (4, 1, 4, 1), (4, 3, 4, 3)):
    J("h_eq_ssv", *p, covers=(1, 2) if p[0] > 1 else (1,))
    J("h_eq_block", *p, covers=(1, 2))
for p in ((3, 2, 3, 1), (3, 1, 3, 2), (3, 2, 2, 3), (4, 1, 2, 2), (4, 0, 3, 0), (3, 0, 3, 1), (1, 2, 2, 1), (3, 4, 4, 3)):
    J("h_eq_ssv", *p, covers=(2,))
    J("h_eq_block", *p, covers=(2,))
J("h_eq_ssv", 4, 0, 4, 0)
J("h_eq_block", 3, 0, 3, 0, covers=(1, 2))
for n, b in ((2, 1), (3, 2), (4, 3), (5, 3), (6, 4), (7, 5)):
    J("h_eq_pn", n, b, n, b, covers=(1, 2))
for a, b in (((4, 3), (5, 3)), ((5, 3), (3, 2)), ((6, 4), (2, 1)), ((6, 4), (7, 5))):
    J("h_eq_pn", *a, *b)
for p in ((3, 2, 1, 1), (3, 2, 2, 2), (3, 2, 1, 2), (4, 3, 2, 2), (3, 2, 2, 3), (3, 2, 3, 3)):
    J("h_eq_pnblock", *p)
for n, m in ((1, 1), (2, 2), (3, 3), (4, 4), (5, 5), (3, 4), (5, 2), (4, 5), (1, 2)):
    J("h_eq_mask", n, m, cost=1 + (n == m == 5) * 2)
T("h_eq_mask", 6, 6, cost=6)
for p in ((1, 1, 3), (2, 2, 3), (3, 3, 3), (3, 2, 4), (2, 3, 3), (3, 3, 33), (4, 3, 3), (0 + 1, 3, 3)):
    J("h_eq_regex", *p, cost=1 + sum(p[:2]) / 6)
T("h_eq_regex", 4, 4, 3, cost=6)
J("h_eq_ssv", 3, 2, 3, 2, 5000, covers=(1, 2))
J("h_eq_ssv", 8, 2, 8, 2, 300, covers=(1, 2))
J("h_eq_ssv", 3, 20, 3, 20, 70000, covers=(1, 2))
J("h_eq_class", cost=2)
J("h_eq_small", covers=(1, 2))

prop("Q02", "The unchecked and borrowing forms do what the checked ones do",
     "Given arguments which meet their stated conditions, the unchecked constructors and operations on rows, changes, blocks of changes, masks "
     "and patterns give the same values as the checked ones. A row borrowed in any way is the row, and changing it through a mutable "
     "borrow of any kind (or a mutable slice of bells) changes exactly that row.",
     "all pairs of rows to 6 bells and every stage from 9 to 40 and around powers of two; all changes to 7 bells on all rows, and those making all but four places to 130 (up to 12 bells and from 41 any four, otherwise chosen ones); all masks to 6 places; all patterns to 5 elements",
     "the unchecked forms are used by the library alone, on the values it happens to have", ["src/row/borrowed.rs", "src/row/owned.rs", "src/place_not.rs", "src/mask.rs", "src/music.rs"],
     [("rows", "src/row/borrowed.rs: from_slice_unchecked, from_mut_slice_unchecked, mul_into_row_unchecked"), ("borrows", "src/row/owned.rs: as_mut_row, Borrow, AsMut"),
      ("changes", "src/place_not.rs: permute_unchecked, from_sorted_slice, from_vec_unchecked"), ("masks", "src/mask.rs: set_bell_unchecked, fix_unchecked"), ("patterns", "src/music.rs: from_elems_unchecked")],
     outside="arguments which break the stated conditions (undefined by contract)",
     bounds={"h_unchecked_row": "params = bells", "h_unchecked_pn": "params = stage, bits to choose among its changes (0: those in which at most two pairs change over)", "h_unchecked_mask": "params = places", "h_unchecked_regex": "params = elements, bells"})
for n in (1, 2, 3, 4, 5, 6):
    J("h_unchecked_row", n)
    J("h_unchecked_mask", n)
for n, b in ((2, 1), (3, 2), (4, 3), (5, 3), (6, 4), (7, 5)):
    J("h_unchecked_pn", n, b, covers=(1,))
for k, n in ((1, 3), (2, 3), (3, 3), (4, 3), (5, 3), (3, 33)):
    J("h_unchecked_regex", k, n)
T("h_unchecked_row", 8)

# ------------------------------------------------------------------------------------------------- masks, music
prop("M01", "A mask matches exactly the rows which have its bells in place",
     "A mask matches a row exactly when the stages agree and each specified place has the specified bell, and it converts "
     "to a row exactly when complete. Multiplying a mask or row by the other moves its specified bells so that matching is "
     "preserved.",
     "all masks and rows of up to 6 bells, complete, partial and empty; stages up to 256 with four places and bells varying", "tests use a dozen literal masks", ["src/mask.rs"],
     [("matching", "src/mask.rs: matches, as_row"), ("multiplication", "src/mask.rs: Mul impls")], outside="larger stages in which everything varies",
     bounds={"h_mask_matches": "params = places, row's stage", "h_mask_row": "params = places", "h_mask_raw": "params = characters parsed", "h_mask_mul": "params = places",
             "h_mask_stage": "params = places, other stage, side"})
for n, m in ((1, 1), (2, 2), (3, 3), (4, 4), (5, 5), (6, 6), (3, 4), (4, 3)):
    J("h_mask_matches", n, m)
for n in (1, 2, 3, 4, 5):
    J("h_mask_row", n)
for k in (1, 2, 3):
    J("h_mask_raw", k)
for n in (1, 2, 3, 4):
    J("h_mask_mul", n, cost=n)
for n, m in ((3, 4), (4, 3)):
    J("h_mask_stage", n, m, 0)
    J("h_mask_stage", n, m, 1)
T("h_mask_mul", 5, cost=9)
T("h_mask_matches", 8, 8)
T("h_mask_row", 6)

prop("M02", "Comparing, combining and editing masks respects the rows they match",
     "One mask is a subset of another exactly when every row it matches the other matches too, as far as their specified "
     "bells tell; two masks are compatible and combine exactly when no place or bell is specified differently, the "
     "combination specifying what either does. Setting or fixing a bell specifies just that bell, refuses one already "
     "specified elsewhere, and parsing or displaying a mask keeps every specified place.",
     "all pairs of masks of up to 4 (5) places, all bells set at all places, all texts of up to 3 characters; stages up to 70 with four places varying; longer texts with any one character replaced or inserted", "tests cover a few literal pairs",
     ["src/mask.rs"], [("lattice", "src/mask.rs: is_subset_of, is_compatible_with, combine"), ("editing", "src/mask.rs: set_bell, fix, fix_bells"), ("text", "src/mask.rs: parse, Display")],
     outside="larger masks in which everything varies", bounds={"h_mask_stage": "params = places, other stage, side", "h_mask_pair": "params = places; two arbitrary masks", "h_mask_set": "params = places, operation", "h_mask_fix": "params = places, bells fixed", "h_mask_parse": "params = characters"})
for n in (1, 2, 3, 4):
    J("h_mask_pair", n, cost=n)
for n in (1, 3, 5):
    J("h_mask_set", n, 0)
    J("h_mask_set", n, 1)
for n, k in ((1, 1), (3, 2), (4, 2), (5, 3)):
    J("h_mask_fix", n, k)
for k in (1, 2, 3):
    J("h_mask_parse", k, cost=k)
for n, m in ((3, 4), (4, 3), (1, 5), (6, 2)):
    J("h_mask_stage", n, m, 0)
    J("h_mask_stage", n, m, 1)
T("h_mask_pair", 5, cost=9)

prop("X01", "A music pattern matches exactly the rows its elements describe",
     "A pattern matches a row exactly when the row splits into its elements: a bell for itself, a single wildcard for any "
     "one bell, a star for any number; where it matches, the bells captured by the wildcards are reported at the places "
     "they occupy. Normalising a pattern never changes what it matches, parsing reads exactly these elements, and "
     "text and pattern convert both ways.",
     "all patterns of up to 4 elements against all rows of up to 3 bells (3 elements: 4 bells); all texts of up to 2 characters; patterns of given shapes of up to 70 elements against rows of 2 to 70 bells; longer texts with any one character replaced or inserted",
     "tests match about forty literal pairs", ["src/music.rs"],
     [("matching", "src/music.rs: matches, match_pattern, run_match"), ("normalisation", "src/music.rs: normalise"), ("parse", "src/music.rs: Regex::parse")],
     outside="other patterns of more than 4 elements", bounds={"h_regex_normal": "params = elements, bells", "h_regex_match": "params = elements, stage", "h_regex_ascii": "params = characters, stage"})
for k, b in ((0, 3), (1, 3), (2, 3), (3, 3), (4, 2)):
    J("h_regex_normal", k, b, cost=k)
for k, n in ((0, 2), (1, 1), (1, 3), (2, 3), (3, 3), (3, 4), (4, 3)):
    J("h_regex_match", k, n, cost=k)
for k, n in ((0, 2), (1, 2), (2, 3)):
    J("h_regex_ascii", k, n, cost=k)
T("h_regex_match", 4, 4, cost=9)
T("h_regex_match", 4, 5, cost=9)
T("h_regex_match", 5, 4, cost=9)
T("h_regex_normal", 5, 3, cost=9)
T("h_regex_ascii", 3, 3, cost=9)

prop("X02", "Runs patterns match exactly the rows with a run at that position",
     "The patterns for runs of a given length at the front, back, either or anywhere match a row exactly when it has such "
     "a run there, each front or back run being matched by one pattern. Lengths too long for the stage give no patterns, "
     "and the measured length of the run at the front of a row is that of its longest one.",
     "all rows of up to 8 bells (10-12 bells for some lengths) and all run lengths from 0 to beyond the stage; stages up to 66 with four bells varying", "tests check none of these patterns against rows",
     ["src/music.rs"], [("runs", "src/music.rs: runs_front, runs_back, all_runs, runs_front_or_back, runs"), ("run length", "src/music.rs: run_len")],
     outside="larger stages in which everything varies", bounds={"h_runs": "params = stage, length", "h_run_len": "params = stage"})
for n, l in ((1, 1), (2, 2), (3, 0), (3, 2), (4, 1), (4, 2), (4, 3), (4, 4), (4, 5), (5, 3), (5, 4), (6, 4)):
    J("h_runs", n, l, cost=2)
for n in (1, 2, 3, 4, 6, 8):
    J("h_run_len", n)
T("h_runs", 6, 3, cost=9)
T("h_runs", 7, 4, cost=9)
T("h_runs", 8, 4, cost=9)

prop("X03", "The number of rows matching a pattern is counted exactly",
     "For every pattern with at most one star the count of matching rows of a stage equals the number of rows of that stage "
     "which match, whatever bells (also repeated ones, or ones outside the stage) it names. When a number is not given or "
     "not representable it is absent rather than wrong.",
     "all patterns of up to 4 elements on 3 bells and 3 elements on 3 bells with strangers, by counting all rows; patterns on every stage to 26 bells with any number of bells, wildcards and stars against the closed formula in wide arithmetic (a third of the combinations)",
     "tests count a table of literals; overflow and impossible patterns were wrong", ["src/music.rs"],
     [("count", "src/music.rs: num_matching_rows")], outside="larger patterns by counting",
     bounds={"h_regex_count": "params = elements, stage, bells", "h_regex_count_big": "params = stage, named bells, single wildcards, stars"})
for k, n, b in ((0, 2, 2), (1, 2, 3), (2, 2, 3), (2, 3, 4), (3, 3, 3), (3, 3, 4)):
    J("h_regex_count", k, n, b, cost=k)
for n, f, a, g in ((8, 2, 2, 1), (12, 0, 12, 0), (20, 0, 0, 1), (21, 0, 0, 1), (22, 2, 0, 1), (24, 2, 3, 1), (16, 3, 0, 2), (10, 1, 2, 2), (6, 3, 4, 0), (8, 8, 0, 0), (7, 3, 2, 0)):
    J("h_regex_count_big", n, f, a, g)
T("h_regex_count", 4, 3, 4, cost=9)
T("h_regex_count", 3, 4, 4, cost=9)
T("h_regex_count", 4, 4, 4, cost=9)

# ------------------------------------------------------------------------------------------------- methods
prop("T01", "The plain course is the lead repeated until it comes round",
     "A method's plain course consists of its lead rung over and over, each lead starting where the last ended, and stops "
     "the first time a lead would start at rounds; each row carries its index in the lead and the label given there. Rows "
     "of the plain lead or course looked up by index are these rows, the lead being taken up again cyclically.",
     "all leads of up to 3 arbitrary rows on up to 5 bells, arbitrary labels, arbitrary indices below 16; lead heads of many cycle types; every stage to 40 and around powers of two; leads of up to 300 rows, varying at the ends and in the middle", "tests never compute a plain course",
     ["src/method/mod.rs", "src/block.rs"], [("plain course", "src/method/mod.rs: plain_course, row_in_plain_course, row_in_plain_lead, lead_head")],
     outside="longer leads in which everything varies", bounds={"h_plain_course": "params = stage, rows of the lead, symbolic labels", "h_plain_index": "params = stage, rows of the lead, bits of the index"})
J("h_plain_course", 3, 2, 1, covers=(1, 2), cost=2)
J("h_plain_course", 4, 2, 0, covers=(1, 2), cost=2)
J("h_plain_course", 5, 1, 0, covers=(1, 2), cost=2)
J("h_plain_course", 3, 3, 1, covers=(1, 2), cost=3)
J("h_plain_course", 4, 1, 1, covers=(1, 2), cost=2)
for n, k, b in ((3, 2, 4), (4, 3, 4), (2, 2, 4), (4, 1, 3)):
    J("h_plain_index", n, k, b, cost=2)
T("h_plain_course", 4, 3, 1, covers=(1, 2), cost=9)
T("h_plain_course", 5, 2, 1, covers=(1, 2), cost=9)
T("h_plain_index", 5, 4, 5, cost=9)

prop("T02", "Method labels are stored at and found at their own rows",
     "Setting or clearing the label of a row of the lead changes that row's label only; reading a label gives the last one "
     "set there, and looking for a label finds exactly the rows which carry it. The constructors which place a lead-end "
     "label put it where they say and generate name, class and title from the given changes.",
     "all histories of up to 3 label operations on leads of up to 3 rows; all methods of up to 2 arbitrary changes on 4 bells in each constructor",
     "no test sets labels", ["src/method/mod.rs"], [("labels", "src/method/mod.rs: set_label, get_label, label_indices, set_lead_end_label"), ("constructors", "src/method/mod.rs: with_name, with_lead_end, from_place_not_string")],
     over=("inputs", "histories"), outside="longer leads and histories", bounds={"h_labels": "params = stage, rows, operations", "h_method_new": "params = stage, changes, bits per change, constructor"})
J("h_labels", 3, 2, 2, covers=(1,), cost=5)
J("h_labels", 2, 1, 2, cost=2)
J("h_labels", 2, 3, 1, cost=2)
for c in range(3):
    J("h_method_new", 4, 2, 3, c, cost=4)
    J("h_method_new", 3, 2, 2, c, cost=4)
T("h_labels", 2, 3, 2, cost=9)
T("h_labels", 3, 2, 3, cost=9)

prop("T03", "A method's generated title names it, its class and its stage",
     "The generated title is the name, the class words which belong in titles (with the little and differential markers in "
     "order) and the stage, separated by single spaces with nothing for empty parts. Class names and groupings are the "
     "framework's standard ones.",
     "all names of up to 3 arbitrary characters, all classes and flags, named and unnamed stages", "tests generate no titles",
     ["src/method/mod.rs", "src/method/class.rs"], [("title", "src/method/mod.rs: generate_title"), ("class words", "src/method/class.rs: name_in_title, Display")],
     outside="longer names", bounds={"h_title": "params = name length, stage; every class and flag"})
for p in ((0, 6), (1, 5), (2, 6), (2, 40), (3, 12), (2, 22), (2, 23), (0, 3)):
    J("h_title", *p, cost=2)
J("h_class_display")

prop("T04", "Methods are classified as the framework for method ringing defines",
     "The class assigned to a method's lead, with its little and differential markers, is the one the definitions give for "
     "its hunt bells: principle without any, otherwise by the path of the hunt bells from plain hunting and dodging to "
     "symmetric and asymmetric paths, and by where changes are made when the treble crosses sections.",
     "all legal (non-jump) leads of up to 6 changes on 3 bells and up to 5 on 4 bells; plain-hunting and treble-dodging paths with the other bells free in selected changes on up to 6 bells",
     "two literal tests; there is a network-dependent test against a library not available here", ["src/method/class.rs"],
     [("hunt bells", "src/method/class.rs: Cycle, hunt bell detection"), ("class rules", "src/method/class.rs: FullClass::classify")],
     outside="jump methods (the flag is never set by classification), leads not starting at rounds, longer leads",
     bounds={"h_classify": "params = stage, changes; every legal lead", "h_classify_dodging": "params = stage, dodging cells, mask of free changes",
             "h_classify_hunting": "params = stage, places hunted through, mask of free changes", "h_classify_treble": "params = stage, mask, the treble's path"})
for n, k in ((1, 1), (1, 3), (2, 2), (2, 5), (3, 3), (4, 1), (4, 2), (5, 2)):
    J("h_classify", n, k, cost=k)
J("h_classify", 3, 6, cost=8)
J("h_classify", 5, 3, cost=8)
J("h_classify", 4, 3, cost=5)
J("h_classify_dodging", 4, 1, 255, cost=3)
J("h_classify_dodging", 5, 2, 2056, covers=(3, 4, 5), cost=4)
J("h_classify_dodging", 5, 2, 2572, cost=5)
J("h_classify_dodging", 6, 3, 557192, covers=(3, 4, 5, 11), cost=9)
J("h_classify_hunting", 4, 4, 255, covers=(1, 2), cost=4)
J("h_classify_hunting", 6, 3, 33, cost=3)
J("h_classify_hunting", 5, 3, 63, cost=9)
J("h_classify_treble", 4, 240, 0, 0, 0, 1, 1, 1, 1, 0, 99, cost=3)
J("h_classify_treble", 5, 255, 1, 1, 2, 1, 2, 3, 3, 2, 99, cost=9)
T("h_classify", 4, 4, cost=9)
T("h_classify", 4, 5, cost=9)
T("h_classify", 3, 8, cost=9)

prop("C01", "Calls carry the changes, cover and location they were made with",
     "A call keeps its notation, location and block, its length and cover are those given, and its transposition and stage "
     "are those of its block. The standard lead-end bob and single have the conventional notation and location, and a cover "
     "of as many rows as they have changes.",
     "all calls of up to 4 (9) changes with arbitrary places on up to 8 bells; every stage to 40", "no test builds a call", ["src/call.rs"],
     [("Call", "src/call.rs: Call::new, le_bob, le_single and accessors")], outside="longer calls", bounds={"h_call": "params = stage, changes, bits per change"})
J("h_call", 4, 2, 3, cost=2)
J("h_call", 3, 1, 2)
J("h_call", 5, 1, 3)
T("h_call", 6, 2, 4)

# ------------------------------------------------------------------------------------------------- method library
prop("L01", "Looking a method up by title finds it, whatever the case",
     "Looking up a title gives the method stored under it regardless of letter case, with its own title, name, class and "
     "changes, and anything else is reported as not found; place notation which does not parse is reported as such, never "
     "a panic. Suggestions for an unknown title are the closest titles, closest first, no more than asked for and none if none are asked for.",
     "every case mixture and every single-character edit of library titles, all ASCII queries of up to 5 characters, all short place notations; libraries of 30 methods on six stages",
     "lookup tests need the network; none runs here", ["src/method_lib/mod.rs"],
     [("lookup", "src/method_lib/mod.rs: get_by_title_option"), ("suggestions", "src/method_lib/mod.rs: generate_suggestions")],
     outside="the downloaded library itself",
     bounds={"h_lib_lookup": "params = which method", "h_lib_query": "params = length", "h_lib_suggest": "params = query length, suggestions wanted", "h_lib_bad_pn": "params = length of arbitrary place notation"})
for k in range(5):
    J("h_lib_lookup", k, covers=(1, 2))
J("h_lib_query", 3, covers=(1, 2))
J("h_lib_query", 5, covers=(1, 2), cost=2)
J("h_lib_suggest", 3, 2, covers=(2,), cost=3)
J("h_lib_suggest", 3, 3, covers=(1, 2), cost=3)
J("h_lib_suggest", 3, 0, cost=2)
J("h_lib_suggest", 2, 2, cost=2)
J("h_lib_bad_pn", 1, cost=2)
T("h_lib_bad_pn", 2, covers=(1, 2), cost=9)

prop("L02", "A method library survives being saved as JSON and loaded again",
     "Saving a library as JSON and loading it gives a library in which every title still finds the same method, with the "
     "same title, name, class and changes, however it is named. Loading malformed data is an error, never a panic.",
     "libraries of one method with arbitrary names of up to 2 characters, every class and flag, explicit and generated titles, any case; several groups; up to 40 methods on up to 12 stages; arbitrary stage and class numbers in the file",
     "no offline test serialises a library", ["src/method_lib/lib_serde.rs", "src/method_lib/mod.rs"],
     [("grouping by stage and class", "src/method_lib/lib_serde.rs: From<&MethodLib>"), ("loading", "src/method_lib/lib_serde.rs: TryFrom<MethodLibSerde>")],
     outside="longer arbitrary names", bounds={"h_lib_json": "params = stage, name length, explicit title, class (9 = any)", "h_lib_json_numbers": "arbitrary stage and class numbers"})
J("h_lib_json", 6, 0, 0, 9, cost=3)
J("h_lib_json", 7, 0, 1, 3, cost=9)
for c in range(9):
    J("h_lib_json", 3, 1, 0, c, cost=5)
J("h_lib_json_many", cost=2)
J("h_lib_json_numbers", covers=(1, 2), cost=3)
T("h_lib_json", 3, 2, 0, 0, cost=9)
T("h_lib_json", 3, 2, 0, 8, cost=9)
T("h_lib_json", 6, 2, 1, 1, cost=9)


# ------------------------------------------------------------------------------------------------- large stages
# Above 24 bells a "row" is a fixed row (rotation, rounds or backrounds) with four bells rearranged arbitrarily (see
# sym_perm, sym_mask, all_pns in harness/src): implementations which depend on the size of the stage are told apart.
def wide(pid, *jobs, **kw):
    global _cur
    _cur = CHECKS[pid]
    for j in jobs:
        J(j[0], *j[1:], **kw)
    if "larger stages" not in _cur["outside"]:
        _cur["outside"] += "; on the larger stages (9 bells and more, unless said otherwise) four bells vary and the others are fixed"


wide("R03", ("h_mul", 33), ("h_mul", 70), ("h_mul", 131), ("h_mul", 258), ("h_mul_into", 70, 4), ("h_mul_into", 33, 66), ("h_mul_into", 258, 3),
     ("h_mul_stage", 70, 64, 0), ("h_mul_stage", 33, 34, 1), ("h_mul_stage", 256, 257, 0), ("h_mul_stage", 1, 257, 0))
wide("R04", ("h_inv", 33, 33), ("h_inv", 70, 5), ("h_inv", 71, 130), ("h_inv", 258, 258), ("h_solve", 33), ("h_solve", 70), ("h_solve", 131))
wide("R05", ("h_pow", 70, 3), ("h_pow", 33, 4), ("h_closure", 70))
wide("R06", ("h_parity_one", 33), ("h_parity_one", 34), ("h_parity_one", 65), ("h_parity_one", 70), ("h_parity_one", 131))
wide("R07", *[(h, n) for n in (33, 64, 65, 70, 130, 257, 258) for h in ("h_predicates", "h_swap", "h_fixed_bells", "h_convert", "h_constructors")])
wide("R07", ("h_place_of", 33), ("h_place_of", 70), ("h_extend", 70, 140), ("h_extend", 4, 70), ("h_extend", 64, 65), ("h_extend", 255, 260), ("h_extend", 70, 4),
     ("h_constructors", 64), ("h_constructors", 300))
wide("R08", ("h_fast_hash", 33), ("h_fast_hash", 70))
wide("R09", *[(h, n, m) for n, m in ((33, 33), (70, 70), (70, 71), (258, 258), (71, 33)) for h in ("h_eq_ord", "h_hash")])
wide("R10", ("h_cartesian", 70, 2, 1, 2), ("h_cartesian", 33, 3, 1, 2, 1), ("h_cartesian_stage", 70, 64, 3))
wide("R11", ("h_is_group", 33, 2), ("h_is_group", 70, 2))
wide("R12", ("h_accumulator", 33, 3), ("h_accumulator", 70, 3), ("h_accumulator", 131, 2))
wide("P02", ("h_pn_permute", 11, 3), ("h_pn_permute", 12, 3), ("h_pn_permute", 16, 3), ("h_pn_permute", 33, 3), ("h_pn_permute", 64, 4), ("h_pn_permute", 70, 4),
     ("h_pn_permute", 130, 4), ("h_pn_permute", 131, 3), ("h_pn_between", 7), ("h_pn_between", 33), ("h_pn_between", 70), ("h_pn_between", 131))
wide("P01", ("h_pn_display", 11, 3), ("h_pn_display", 12, 4), ("h_pn_display", 33, 3))
wide("P04", ("h_pnblock_rows", 12, 2, 3, 0), ("h_pnblock_rows", 34, 2, 3, 1), ("h_pnblock_rows", 70, 2, 3, 0))
wide("V01", *[(h, n, 2) for n in (26, 33, 70, 130) for h in ("h_ssv_get", "h_ssv_split")])
wide("V01", ("h_ssv_read", 26, 2), ("h_ssv_path", 33, 2), ("h_ssv_path", 70, 2), ("h_ssv_extend", 70, 1, 1), ("h_ssv_extend", 33, 2, 2), ("h_ssv_ops", 33, 2), ("h_ssv_ops", 70, 2),
     *[("h_ssv_transposed", 70, 2, 2, k) for k in range(6)])
wide("V02", *[("h_ssv_stage", 70, 64, op) for op in range(11)])
wide("K01", ("h_block_read", 33, 2), ("h_block_read", 70, 2), ("h_block_path", 70, 2), ("h_block_extend", 70, 2, 2), ("h_block_split", 70, 2), ("h_block_split", 33, 3),
     ("h_block_premul", 70, 2), ("h_block_ops", 70, 1), ("h_block_stage", 70, 64), *[("h_block_extend_range", 70, 2, 2, k) for k in range(6)])
wide("K02", ("h_block_repeat", 33, 2, 4), ("h_block_repeat", 70, 3, 5))
wide("M01", ("h_mask_matches", 32, 32), ("h_mask_matches", 33, 33), ("h_mask_matches", 70, 70), ("h_mask_matches", 71, 71), ("h_mask_row", 33), ("h_mask_row", 70), ("h_mask_row", 71),
     ("h_mask_mul", 33), ("h_mask_mul", 70))
wide("M02", ("h_mask_pair", 33), ("h_mask_pair", 70), ("h_mask_fix", 26, 1))
wide("X02", ("h_run_len", 12), ("h_run_len", 33), ("h_run_len", 70), ("h_runs", 26, 4), ("h_runs", 33, 5), ("h_runs", 35, 4), ("h_runs", 34, 3))
wide("X01", ("h_regex_match", 2, 26), ("h_regex_match", 3, 26), ("h_regex_match", 2, 33))
wide("R02", ("h_row_display", 26), ("h_row_display", 33), ("h_row_display", 31))
wide("T01", ("h_plain_course", 70, 1, 0), ("h_plain_index", 33, 2, 4), ("h_plain_index", 70, 2, 4))
wide("T02", ("h_method_new", 12, 2, 3, 0), ("h_method_new", 34, 1, 3, 1))
wide("C01", ("h_call", 8, 1, 3), ("h_call", 33, 1, 3))

wide("R01", ("h_from_vec", 33, 8, 0), ("h_from_vec", 65, 8, 0), ("h_from_vec_stage", 33, 40, 8), ("h_from_vec_stage", 65, 66, 8), ("h_from_vec", 33, 8, 1))
wide("R02", ("h_row_parse_edit", 8, 0, 0), ("h_row_parse_edit", 8, 1, 10), ("h_row_parse_edit", 12, 0, 0), ("h_row_parse_edit", 6, 0, 8), covers=(1, 2), cost=4)
T("h_row_parse_edit", 16, 0, 0, covers=(1, 2))
T("h_row_parse_edit", 16, 1, 20, covers=(1, 2))
T("h_row_parse_edit", 33, 0, 0, covers=(1, 2))
wide("P03", *[("h_pnblock_edit", k, m) for k in range(7) for m in (0, 1)], cost=3)
wide("P03", *[("h_pnblock_edit", k, 2) for k in range(8)], cost=1)
T("h_pnblock_edit", 7, 0)
T("h_pnblock_edit", 7, 1)
wide("M02", ("h_mask_parse_edit", 0), ("h_mask_parse_edit", 1), cost=9)
wide("X01", *[("h_regex_edit", k, k % 2) for k in range(5)], cost=5)
for k in range(5):
    T("h_regex_edit", k, 1 - k % 2)
wide("V02", ("h_ssv_parse_edit", 0, 0), ("h_ssv_parse_edit", 1, 1), ("h_ssv_parse_edit", 3, 0), ("h_ssv_parse_edit", 3, 1), covers=(1, 2), cost=8)
T("h_ssv_parse_edit", 0, 1)
T("h_ssv_parse_edit", 1, 0)
T("h_ssv_parse_edit", 2, 0)
T("h_ssv_parse_edit", 2, 1)

# ------------------------------------------------------------------------------------------------- longer lists
wide("V01", ("h_ssv_read", 3, 10), ("h_ssv_read", 2, 33), ("h_ssv_get", 3, 20), ("h_ssv_path", 3, 16), ("h_ssv_split", 3, 12), ("h_ssv_extend", 3, 9, 9),
     ("h_ssv_transposed", 3, 5, 8, 3), ("h_ssv_transposed", 2, 8, 8, 5), ("h_ssv_ops", 2, 4), ("h_ssv_ops", 1, 4), cost=3)
wide("K01", ("h_block_read", 3, 10), ("h_block_path", 3, 12), ("h_block_extend", 3, 8, 8), ("h_block_extend_range", 3, 6, 6, 3), ("h_block_extend_range", 2, 6, 6, 5),
     ("h_block_split", 2, 8), cost=3)
wide("K02", ("h_block_repeat", 3, 8, 20), ("h_block_repeat", 2, 2, 20), ("h_block_repeat", 4, 5, 13), ("h_block_repeat", 70, 2, 12))
wide("P04", ("h_pnblock_rows", 4, 6, 1, 0), ("h_pnblock_rows", 5, 7, 1, 1))
wide("T01", ("h_plain_course", 3, 8, 0), ("h_plain_index", 3, 12, 5), ("h_plain_index", 2, 4, 6))
wide("R12", ("h_accumulator", 2, 8), ("h_accumulator", 3, 5), ("h_accumulator", 5, 4))
wide("R10", ("h_cartesian", 2, 4, 2, 2, 2, 2))
wide("R05", ("h_pow", 3, 40), ("h_pow", 4, 64), ("h_pow", 70, 9))

# ------------------------------------------------------------------------------------------------- rows by cycle type
E = 99
wide("R05", *[("h_pow_cycles", 2, 70, 1, *c, E) for c in ((3, 2), (3, 4), (2, 5, 1))], ("h_pow_cycles", 0, 70, 1, 7, 5, E), ("h_pow_cycles", 3, 12, 11, 5, 3, E),
     ("h_pow_cycles", 0, 9, 33, 5, 4, 3, E), ("h_pow_cycles", 0, 12, 1, 30, 3, E),
     *[("h_closure_cycles", 3, *c, E) for c in ((2, 3), (3, 4), (3, 5), (1, 2, 2, 3), (4, 6), (2, 3, 5, 1), (6,), (12,))], ("h_closure_cycles", 2, 5, 7, E),
     ("h_closure_cycles", 2, 30, 4, E), ("h_closure_cycles", 0, 7, 8, 9, E))
wide("R02", ("h_row_display", 34), ("h_row_display", 35), ("h_row_display", 40), ("h_row_display", 102))

# ------------------------------------------------------------------------------------------------- more
wide("V01", *[("h_ssv_transposed", 3, 2, 3, k) for k in (6, 7, 8)], ("h_ssv_transposed", 4, 1, 2, 7), ("h_ssv_transposed", 70, 2, 2, 8))
wide("K01", *[("h_block_extend_range", 3, 2, 3, k) for k in (6, 7, 8)])
wide("P02", *[("h_pn_queries", n, b) for n, b in ((1, 1), (2, 2), (3, 2), (4, 3), (5, 3), (6, 4), (7, 4), (11, 3), (12, 3), (33, 4), (70, 4), (131, 3))])
wide("X01", ("h_regex_pattern", 5, 1, 1, 1, 1, 1, 1, 2, E), ("h_regex_pattern", 9, *[1] * 9, E), ("h_regex_pattern", 8, 1, 1, 0, 1, 1, 1, 1, 1, E), ("h_regex_pattern", 20, *[1] * 20, E),
     ("h_regex_pattern", 8, 2, 1, 1, 1, 1, 1, 1, 1, E), ("h_regex_pattern", 7, 1, 1, 1, 2, 1, 1, 0, 2, 2, 1, E), ("h_regex_pattern", 6, 0, 2, 0, 2, 0, 2, E), ("h_regex_pattern", 6, 3, 3, 3, 3, 3, 0, E),
     ("h_regex_pattern", 6, *[0] * 6, E), ("h_regex_pattern", 12, 2, 0, 0, 0, 2, E), ("h_regex_pattern", 10, 0, *[1] * 8, 0, E), ("h_regex_pattern", 40, *[1] * 35, 2, E), ("h_regex_pattern", 35, *[1] * 34, 0, E), cost=3)
wide("X02", ("h_runs", 8, 6), ("h_runs", 8, 8), ("h_runs", 8, 7), ("h_runs", 10, 6), ("h_runs", 7, 5), ("h_runs", 12, 10), cost=3)
T("h_runs", 12, 9)
T("h_runs", 12, 6)
T("h_runs", 16, 12)
wide("T01", ("h_plain_cycles", 2, 5, 2, 3, 2, E), ("h_plain_cycles", 1, 7, 0, 3, 4, E), ("h_plain_cycles", 3, 6, 0, 2, 3, 5, E), ("h_plain_cycles", 2, 6, 2, 6, E), ("h_plain_cycles", 2, 5, 3, 1, 2, 2, 3, E),
     ("h_plain_cycles", 1, 5, 0, 12, E), ("h_plain_cycles", 4, 5, 0, 7, 1, E), ("h_plain_cycles", 1, 6, 0, 5, 6, E), ("h_plain_cycles", 2, 4, 0, 30, 4, E))
wide("T04", ("h_classify_cycles", 2, 1, 2, 2, 3, E), ("h_classify_cycles", 0, 1, 2, 3, 4, E), ("h_classify_cycles", 0, 2, 2, 2, 2, E), ("h_classify_cycles", 0, 2, 2, 3, E), ("h_classify_cycles", 2, 1, 1, 2, 3, E),
     ("h_classify_cycles", 0, 1, 2, 2, 2, E), ("h_classify_cycles", 0, 1, 2, 2, 4, E), ("h_classify_cycles", 0, 3, 3, 3, E), ("h_classify_cycles", 2, 3, 3, 1, E), ("h_classify_cycles", 0, 2, 4, 1, E),
     ("h_classify_cycles", 0, 2, 5, 5, E), ("h_classify_cycles", 0, 1, 1, 3, 3, 4, E), cost=3)
wide("L01", ("h_lib_unicode",), ("h_lib_big", 2, 5, 0), ("h_lib_big", 6, 30, 0))
wide("L02", ("h_lib_unicode",), ("h_lib_big", 6, 30, 1), ("h_lib_big", 3, 40, 1), ("h_lib_big", 12, 3, 1), ("h_lib_json_case", 6, 0), ("h_lib_json_case", 7, 3))
T("h_lib_json_case", 6, 2)
T("h_lib_json_case", 8, 4)
T("h_lib_big", 12, 40, 1)

# ------------------------------------------------------------------------------------------------- every stage
MID = tuple(n for n in range(9, 41))
BIG = (48, 63, 64, 65, 66, 67, 96, 127, 128, 129, 192, 255, 256, 257)


def sweep(pid, *jobs, sizes=MID + BIG, **kw):
    """The jobs (functions from a stage to a harness run, or None) on every one of the stages not run yet."""
    have = {(j["h"], tuple(j["p"])) for j in CHECKS[pid]["jobs"]}
    for n in sizes:
        for f in jobs:
            j = f(n)
            if j and (j[0], tuple(j[1:])) not in have:
                wide(pid, j, **kw)


sweep("R01", lambda n: ("h_from_vec", n, 9, 0), lambda n: ("h_from_vec_stage", n, n + n % 5, 9), sizes=(9, 10, 11, 13, 15, 17, 20, 26, 31, 32, 34, 130))
T("h_from_vec", 258, 9, 0)
T("h_from_vec_stage", 257, 258, 10)
T("h_from_vec_stage", 64, 64, 10)
sweep("R03", lambda n: ("h_mul", n), lambda n: ("h_mul_into", n, (n * 7) % (n + 9) + 1), lambda n: ("h_mul_stage", n, n + 1, n % 2))
sweep("R04", lambda n: ("h_inv", n, (n * 5) % (n + 13) + 1) if n not in (12, 16) else None, lambda n: ("h_solve", n))
sweep("R05", lambda n: ("h_pow", n, 3 + n % 3), lambda n: ("h_closure", n) if n % 3 else None)
sweep("R06", lambda n: ("h_parity_one", n))
sweep("R07", *[lambda n, h=h: (h, n) for h in ("h_predicates", "h_fixed_bells", "h_convert", "h_constructors")],
      lambda n: ("h_extend", n, n + n % 4), lambda n: ("h_swap", n) if n <= 67 else None, lambda n: ("h_place_of", n) if n <= 67 else None)
sweep("R08", lambda n: ("h_fast_hash", n))
sweep("R09", lambda n: ("h_eq_ord", n, n), lambda n: ("h_hash", n, n), lambda n: ("h_eq_ord", n, n + 1 - 2 * (n % 2)))
sweep("R10", lambda n: ("h_cartesian", n, 2, 1, 2), lambda n: ("h_cartesian_stage", n, n + 1, n % 4))
sweep("R11", lambda n: ("h_is_group", n, 2), sizes=MID + (48, 64, 65))
sweep("R12", lambda n: ("h_accumulator", n, 2))
sweep("P02", lambda n: ("h_pn_permute", n, 3), lambda n: ("h_pn_queries", n, 3), lambda n: ("h_pn_between", n) if n < 70 else None)
sweep("P04", lambda n: ("h_pnblock_rows", n, 2, 3, n % 2))
sweep("V01", lambda n: ("h_ssv_read", n, 2) if n < 40 else None, lambda n: ("h_ssv_get", n, 2), lambda n: ("h_ssv_split", n, 2), lambda n: ("h_ssv_extend", n, 2, 1),
      lambda n: ("h_ssv_ops", n, 2) if n % 3 == 0 else None, lambda n: ("h_ssv_transposed", n, 2, 2, n % 9) if n < 70 else None)
sweep("K01", lambda n: ("h_block_read", n, 2), lambda n: ("h_block_extend", n, 2, 2), lambda n: ("h_block_split", n, 2), lambda n: ("h_block_premul", n, 2),
      lambda n: ("h_block_extend_range", n, 2, 2, n % 9), lambda n: ("h_block_ops", n, 1) if n % 3 == 0 else None)
sweep("K02", lambda n: ("h_block_repeat", n, 2, 4))
sweep("M01", lambda n: ("h_mask_matches", n, n), lambda n: ("h_mask_row", n) if n < 70 else None, sizes=(9, 11, 13, 16, 17, 20, 24, 26, 31, 40, 64, 65, 128, 256))
sweep("M01", lambda n: ("h_mask_mul", n), sizes=(9, 16, 17, 24, 31, 34, 64))
sweep("M02", lambda n: ("h_mask_pair", n), lambda n: ("h_mask_fix", n, 1), sizes=(9, 12, 16, 17, 20, 24, 31, 32, 40, 64, 65))
sweep("X02", lambda n: ("h_run_len", n), lambda n: ("h_runs", n, 3 + n % 3) if n > 24 else None, sizes=MID + (64, 65, 66))
sweep("R02", lambda n: ("h_row_display", n), sizes=MID)
sweep("T01", lambda n: ("h_plain_course", n, 1, 0) if n % 3 else None, lambda n: ("h_plain_index", n, 2, 3))
sweep("C01", lambda n: ("h_call", n, 1, 3), sizes=MID)

for n in range(1, 27):
    for f in sorted({0, 1, 2, 3}):
        for a in sorted({0, 1, 2, (n - f) // 2, n - f - 1, n - f, n - f + 1}):
            for g in range(0, 4):
                if a >= 0 and g <= f + 1 and f <= n + 1 and (n + f * 7 + a * 3 + g) % 3 == 0:
                    wide("X03", ("h_regex_count_big", n, f, a, g))
wide("X03", ("h_regex_count", 3, 4, 5), ("h_regex_count", 4, 3, 4), cost=3)

# ------------------------------------------------------------------------------------------------- long texts, lists and leads
F = lambda n, k, *t: ("h_regex_pattern", n, *[5] * k, *t, E)
wide("B01", ("h_bell_arith", 2), ("h_bell_arith", 3))
wide("B02", *[("h_stage_test_opt", k) for k in (1, 2, 4, 6)])
wide("R11", *[("h_group_stages", *p) for p in ((2, 4, 5, 1), (2, 5, 4, 1), (2, 4, 5, 2), (3, 4, 4, 3, 2), (3, 3, 4, 4, 1), (3, 4, 3, 4, 2), (3, 4, 4, 5, 3), (4, 3, 3, 3, 2, 2), (2, 12, 6, 1))])
wide("R02", ("h_row_parse_long", 33, 0, 0, 0), ("h_row_parse_long", 16, 1, 9, 0), ("h_row_parse_long", 20, 2, 5, 24), ("h_row_parse_long", 12, 3, 30, 0), covers=(1, 2), cost=8)
T("h_row_parse_long", 16, 2, 40, 0)
T("h_row_parse_long", 30, 3, 12, 40)
wide("P01", *[("h_pn_many", n, b, h) for n, b in ((12, 0), (16, 1), (21, 2), (33, 3), (30, 4)) for h in (0, 1)], cost=2)
wide("P03", *[("h_pn_many", n, b, 2) for n, b in ((12, 0), (16, 1), (33, 2), (30, 3))], ("h_pnblock_parts", 12, 8), ("h_pnblock_parts", 9, 4), ("h_pnblock_parts", 20, 5), cost=4)
wide("P04", ("h_pnblock_rows", 8, 300, 2, 0), ("h_pnblock_rows", 12, 70, 3, 1), cost=9)
T("h_pnblock_rows", 6, 1030, 2, 1)
wide("V01", ("h_ssv_read", 8, 70), ("h_ssv_get", 8, 300), ("h_ssv_path", 8, 140), ("h_ssv_split", 8, 300), ("h_ssv_extend", 8, 260, 70), *[("h_ssv_transposed", 8, 140, 140, k) for k in (0, 1, 3, 5)],
     *[("h_ssv_transposed", 6, 70, 300, k) for k in (2, 4, 8)], ("h_ssv_transposed", 3, 400, 1100, 7), cost=9)
wide("V02", ("h_ssv_parse_long", 8, 50, 0, 0), ("h_ssv_parse_long", 3, 300, 1, 1), covers=(1, 2, 3), cost=20)
wide("K01", ("h_block_read", 8, 300), ("h_block_path", 8, 140), ("h_block_extend", 8, 140, 140), ("h_block_split", 8, 270), ("h_block_premul", 8, 140), *[("h_block_extend_range", 6, 70, 140, k) for k in (0, 1, 3, 5, 7)],
     ("h_block_extend_range", 4, 50, 300, 2), cost=6)
wide("K02", ("h_block_repeat", 6, 70, 300), ("h_block_repeat", 5, 300, 700), ("h_block_repeat", 12, 50, 120))
wide("T01", ("h_plain_index", 6, 70, 9), ("h_plain_index", 5, 300, 9), ("h_plain_course", 8, 130, 0), ("h_plain_course", 4, 300, 0), ("h_plain_course", 10, 65, 0))
wide("C01", ("h_call", 6, 3, 2), ("h_call", 5, 5, 1), ("h_call", 4, 4, 2), ("h_call", 8, 9, 1))
wide("X01", F(22, 20, 4, 4, 4), F(22, 20, 4, 4), F(31, 28, 4, 4, 2), F(34, 31, 4, 4), F(70, 66, 2, 4, 4), F(12, 9, 4, 4, 4), F(16, 14, 4, 4), F(33, 33), F(33, 32, 4), cost=3)
T(*F(24, 20, 4, 4, 4, 4))

# ------------------------------------------------------------------------------------------------- any hunt bell, any start
wide("T04", *[("h_classify_rotated", 5, 0, 2, 0, r, 6) for r in range(16)])
wide("T04", *[("h_classify_rotated", 6, 1, 2, 0, r, 6 if r % 3 else 5) for r in range(16)], cost=5)
wide("T04", *[("h_classify_rotated", 8, 0, 3, 0, r, 1 << r % 3) for r in range(0, 24, 2)], cost=3)
wide("T04", *[("h_classify_rotated", 7, 2, 2, 0, r, 1 << r % 3) for r in range(1, 16, 4)], cost=3)
wide("T04", *[("h_classify_rotated", 6, 0, 0, 6, r, 7) for r in range(12)], cost=3)
wide("T04", *[("h_classify_rotated", 6, 2, 0, 4, r, 3) for r in range(8)], cost=3)
wide("T04", *[("h_classify_rotated", 8, 0, 0, 8, r, 1) for r in (2, 5, 11)], cost=3)
wide("T04", *[("h_classify_rotated", n, 0, n // 2, 0, 4, 0) for n in (10, 12, 14, 16, 20)])
wide("T04", *[("h_classify_rotated", n, 0, 0, n, 3, 0) for n in (10, 12, 15, 16, 20)])
for r in range(0, 24, 3):
    T("h_classify_rotated", 6, 0, 3, 0, r, 6, cost=9)
    T("h_classify_rotated", 8, 0, 4, 0, r, 2, cost=9)
wide("B02", ("h_stage_test_opt", 8))
wide("R10", ("h_cartesian", 3, 1, 7), ("h_cartesian", 3, 2, 6, 1), ("h_cartesian", 3, 2, 1, 6), ("h_cartesian", 4, 1, 9))
wide("X03", ("h_regex_count_big", 12, 2, 9, 1, 1), ("h_regex_count_big", 20, 3, 14, 2, 1), ("h_regex_count_big", 14, 2, 12, 0, 1), ("h_regex_count_big", 20, 4, 9, 1, 1))
wide("P01", *[("h_pn_sorted", 1, n, 8) for n in (8, 16, 33, 40, 64, 65)], *[("h_pn_sorted", 2, n, 8) for n in (20, 33)])
wide("L01", ("h_lib_suggest_many", 10, 50), ("h_lib_suggest_many", 10, 7), ("h_lib_suggest_many", 6, 1), ("h_lib_suggest_many", 12, 24))
wide("T02", ("h_labels", 4, 70, 1), ("h_labels", 3, 45, 2), ("h_labels", 5, 130, 1))
wide("C01", ("h_call", 4, 20, 2), ("h_call", 5, 70, 1))

sweep("Q01", lambda n: ("h_eq_ssv", n, 2, n, 2), lambda n: ("h_eq_block", n, 2, n, 2), lambda n: ("h_eq_ssv", n, 2, n + 1 - 2 * (n % 2), 2) if n % 3 == 0 else None,
      lambda n: ("h_eq_mask", n, n) if n <= 40 and n % 4 == 0 or n in (33, 64, 65, 70) else None)
wide("Q01", *[(h, 3, k, 3, j) for k, j in ((34, 34), (50, 50), (64, 65), (130, 130), (258, 258), (300, 300)) for h in ("h_eq_ssv", "h_eq_block")])

wide("Q02", *[("h_unchecked_pn", n, 0) for n in (8, 9, 10, 12, 16, 17, 33, 64, 70, 130)])
sweep("Q02", lambda n: ("h_unchecked_row", n), lambda n: ("h_unchecked_mask", n) if n < 70 else None)
wide("K02", ("h_block_repeat", 3, 3, 2, 1), *[("h_block_repeat", 3, 4, 2, sk, st) for sk in (1, 2, 3, 4, 5, 8) for st in (1, 2, 3, 4)], ("h_block_repeat", 3, 3, 5, 7), ("h_block_repeat", 4, 4, 2, 50), ("h_block_repeat", 3, 4, 2, 301), ("h_block_repeat", 3, 2, 2, 9), ("h_block_repeat", 33, 3, 2, 5), ("h_block_repeat", 3, 60, 2, 130))

# ------------------------------------------------------------------------------------------------- any number of bells on any stage, any number of stars
have = {(j["h"], tuple(j["p"])) for c in CHECKS.values() for j in c["jobs"]}
for n in range(1, 25):
    for k in (1, 2, 3, 4, 5, 6):
        if k <= n and (n <= 12 or (n + k) % 3 == 0) and ("h_from_vec_stage", (k, n, 8)) not in have:
            wide("R01", ("h_from_vec_stage", k, n, 8))
wide("R01", *[("h_from_vec_stage", k, n, 8) for k, n in ((7, 14), (9, 18), (10, 20), (11, 16), (12, 24), (13, 26), (16, 32), (20, 40), (9, 40), (24, 30), (32, 64), (35, 70), (10, 130), (65, 130))])
for n in range(4, 24):
    for f in range(4, min(n, 13) + 1):
        for g in sorted({4, 5, f, f + 1}):
            a = (n + g) % (n - f + 1)
            if g <= f + 1 and (n + f + g) % 3 == 0:
                wide("X03", ("h_regex_count_big", n, f, a, g))

# ------------------------------------------------------------------------------------------------- pairs of stages
have = {(j["h"], tuple(j["p"])) for c in CHECKS.values() for j in c["jobs"]}
for n in range(1, 25):
    for m in sorted({*range(1, 27), 2 * n}):
        if n == m or not ((n * 5 + m * 3) % 7 == 0 or m in (2 * n, n + 1, n - 1) or n == 2 * m):
            continue
        for pid, *job in [("R03", "h_mul_into", n, m), ("R03", "h_mul_stage", n, m, m % 2), ("R04", "h_inv", n, m) if n != 12 and n != 16 else (None,), ("R07", "h_extend", n, m),
                          ("R09", "h_eq_ord", n, m), ("R09", "h_hash", n, m), ("R10", "h_cartesian_stage", n, m, (n + m) % 4), ("V02", "h_ssv_stage", n, m, (n * 3 + m) % 16),
                          ("K01", "h_block_stage", n, m) if (n + m) % 3 == 0 else (None,), ("M02", "h_mask_stage", n, m) if (n + m) % 2 else (None,),
                          ("M01", "h_mask_matches", n, m) if (n + m) % 5 == 0 and n > 8 else (None,), ("Q01", "h_eq_ssv", n, 2, m, 2), ("Q01", "h_eq_block", n, 1, m, 2) if (n + m) % 2 else (None,)]:
            if pid and (job[0], tuple(job[1:])) not in have:
                wide(pid, tuple(job))

# ------------------------------------------------------------------------------------------------- pairs of lengths
have = {(j["h"], tuple(j["p"])) for c in CHECKS.values() for j in c["jobs"]}
for k in range(1, 14):
    for x in range(1, 14):
        if not ((k * 5 + x * 3) % 4 == 0 or k == 2 * x or x == 2 * k or abs(k - x) < 2):
            continue
        for pid, *job in [("V01", "h_ssv_extend", 3, k, x), ("K01", "h_block_extend", 3, k, x), ("V01", "h_ssv_transposed", 2 + (k + x) % 3, k, x, (k + 2 * x) % 3) if x < 10 else (None,),
                          ("K01", "h_block_extend_range", 2 + (k + x) % 3, k, x + 1, (k + 2 * x) % 3) if x < 9 else (None,), ("Q01", "h_eq_block", 2, k, 2, x) if k < 9 and x < 9 else (None,),
                          ("K02", "h_block_repeat", 3, k + 1, 2, x, (k + x) % 5)]:
            if pid and (job[0], tuple(job[1:])) not in have:
                wide(pid, tuple(job))

NOT_APPLICABLE = [
    ("N01", dict(
        title="The Central Council library is downloaded once and then read from the cache",
        statement="Loading the Central Council method library reads the cached copy when there is one, otherwise downloads, "
        "converts and caches it, and falls back to nothing when neither works.",
        over=["fault_sequences", "configurations"], text="all network and file-system outcomes",
        why="needs the network, so no test runs here", files=["src/method_lib/mod.rs", "src/method_lib/parse_cc_lib.rs"],
        mech=[("cc_lib", "src/method_lib/mod.rs: cc_lib, fetch_cc_lib, load_cc_lib_from_cache")]),
     "the code is made of network requests (reqwest), reads and writes of a cache file in the user's home and an XML decoder "
     "whose crate is not available offline: its behaviour lies in system calls and foreign libraries with no IR within reach, "
     "and exercising it would touch the real home directory"),
]
