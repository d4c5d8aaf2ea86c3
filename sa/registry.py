"""property -> rule parts, and the texts for MANIFEST.json"""
import rules_pool
import rules_step
import rules_dec
import rules_pow
import rules_chain
import rules_sites
import rules_bits

RULES = {}
for mod in (rules_pool, rules_step, rules_dec, rules_pow, rules_chain, rules_sites, rules_bits):
    RULES.update(mod.RULES)

TRUST = ("Trusted: rustc's MIR for the crate, the models of external calls in sa/models.py, sa/decmodels.py and sa/chain.py, "
         "and the abstract interpreter itself. Completed executions only: aborting paths end the operation.")

AI = "abstract interpretation of the compiler's MIR (value-numbered dataflow, no solver): "
POS = "Every completed path, any pool, range and amounts; positions/ticks maps symbolic. Assumes reserves and pots non-negative at entry. "
SWP = "Every completed path and every iteration of the swap loop of both directions (loop closed by a fixpoint, not unrolled). Assumes reserves and pots non-negative at entry. "

DCN = "Every path of the release build, all operand values and scales; the 128/192/256-bit integers are modelled as exact integers with explicit range conditions. "
FRM = "Every completed path; arithmetic read as exact (field) arithmetic, rounding ignored. "
STP = "Every completed path of one swap step, both directions; loop around it is covered by P03/P09. "


def C(technique, note, **kw):
    return dict(technique=AI + technique, note=note + TRUST, **kw)


CHN = ("Every completed path of the entry points as the framework's macros expand them, all account lists, arguments and account contents. Framework, token and system "
       "programs are modelled; pricing functions uninterpreted (P10); stored accounts assumed to carry the fixed scales (kept: C06, C07). ")

CHECKS = {
    "C01": C("address terms, account kinds and equalities that hold on every path through the account checks and the handler", CHN),
    "C02": C("seed terms of every derived address, compared across all instructions", CHN),
    "C03": C("recorded calls into the token program: accounts, authority, signer seeds and amounts", CHN),
    "C04": C("recorded calls into the token program: accounts, authority, signer seeds and amounts", CHN),
    "C05": C("guard facts at the token movements; effect order on rejected paths", CHN),
    "C06": C("before/after comparison of every persisted field", CHN),
    "C07": C("value of every persisted field of a created account; recorded account-creation calls", CHN),
    "C08": C("persisted fee growth against the outside-counter convention on every case split", CHN),
    "C09": C("emitted record fields against recorded call amounts", CHN),
    "C10": C("constant allocation sizes against sizes computed from the types' layouts", CHN),
    "C11": C("effect analysis: every call and write-back of every instruction", CHN),
    "C12": C("sign facts at every magnitude that is stored, paid or taken without its sign", CHN),

    "D01": C("exact integer value of magnitude, sign and scale on every return against the signed sum", DCN),
    "D02": C("truth value of every comparison on every path against the order of the signed numbers", DCN),
    "D03": C("magnitude on every return as floor or ceiling of the exact quotient, with sign and scale", DCN),
    "D04": C("magnitude on every return as floor or ceiling of the rescaled number, with sign and scale", DCN),
    "B01": C("bit-level effect of marking, clearing and testing a tick, and the indices that abort", "Ticks enumerated by remainder modulo eight with the word symbolic over the whole 32-bit range; the stored bytes are unknown bits. "),
    "B02": C("search through the bitmap, its loops closed by a fixpoint carrying the stretch of words known empty", "Ticks enumerated by remainder modulo eight with the word symbolic; any contents of the bitmap. "),
    "D05": C("every integer operation of the release build that is not safe by its types, with arbitrary arguments or in every calling context", "All operand values; release configuration (no implicit overflow checks). Conversions from floating point saturate by the language and are not covered; masks of the bitmap belong to B01. "),
    "D06": C("domain guards and sign of the result on every return path", DCN + "The square root and fractional power are analysed over their own contracts. "),
    "D07": C("shape of the text behind every accepted value (pieces of the input and guards on each path)", "Every path over any text up to 2^63 bytes; integer parsing and slicing of the standard library are modelled. "),
    "D10": C("pieces written on every path against the digits of the number", "Every path, all magnitudes, signs and scales; standard formatting is modelled. "),
    "D11": C("number of factors carried through the multiplication loop as a conserved quantity, and through roots and quotients on every path", "All bases and exponents; scales 0 to 38 enumerated for fractional exponents. Products, quotients and roots are counted, their rounding is D03's. "),
    "D12": C("relation of successive approximations carried around the iteration, and the enclosure of the root it gives when the loop ends", "All magnitudes and scales, by the number of bits of the scaled magnitude (1 to 128). A terminating iteration is assumed. "),
    "D08": C("constant table read from MIR and compared cell by cell; index arithmetic of the lookup", DCN),
    "D09": C("remainder, exponent and table accesses on every path of the reduction, loops closed by a fixpoint", DCN + "Over contracts of bit_length (any integer) and of the table lookup (D08). "),
    "P01": C("effect equalities of pool deposit against the code's own required-amount functions", POS),
    "P02": C("effect equalities of pool withdraw against represented amount times a constant safety factor", POS),
    "P03": C("affine relations carried through the swap loop's fixpoint", SWP),
    "P04": C("guard and order facts carried through the swap loop's fixpoint", SWP),
    "P05": C("per-key before/after comparison of positions, ticks and in-range liquidity", POS),
    "P06": C("effects of one swap iteration on tick cells and liquidity", SWP),
    "P07": C("checkpoint, credit and growth-accrual equalities", POS + SWP),
    "P08": C("fee growth inside a range against the outside-counter convention on every case split", POS),
    "P09": C("price movement and crossing conditions of one swap iteration", SWP),
    "P10": C("symbolic normal form of every pricing function compared with the closed formulas", FRM),
    "P11": C("fee and adjustment formulas of one swap step on every branch of the oracle split", FRM),
    "P12": C("guard facts on every completed swap step", STP),
    "P13": C("order facts between search start, skipped and returned keys of the ordered tick map", STP + "Assumes ticks up to 2^31 and, upward, a start not below the current tick. "),
    "P14": C("end tick and price of one swap step against start, limit and clamps", STP),
}

NA = {
    "N01": "accuracy to the last digit quantifies over numeric error accumulated along chains of rounded operations at every magnitude; no static dataflow argument in reach bounds it (single operations are D03 and D04, the root D12, the logarithm's reduction and table D08 and D09)",
    "N02": "quantifies over whole histories and accumulated rounding of runtime amounts; the per-operation bookkeeping it rests on is decided by P01-P08",
    "N03": "bounding iteration counts needs numeric facts about price and root computations at run time that no sound static argument in reach gives",
}


def parts(pid):
    r = RULES[pid]
    return r if isinstance(r, list) else [("all", r)]
