# ---------------------------------------------------------------- fixed-point decimals
prop("D01", "Decimal addition, subtraction and negation are exact",
 "Adding or subtracting two decimals of the same scale either yields the exact signed sum or difference at that scale or aborts when the magnitude does not fit; it never wraps. Operands of different scales are rejected with an error, and operands of equal scale never are. Negation keeps magnitude and scale and yields exactly the opposite number.",
 ["inputs"], "all pairs of decimals: every value, scale and sign, including the signed zeros and values next to the 128-bit limit",
 "The unit tests sample a few dozen small literals; the sign/magnitude case split and the 128-bit limits range over 2^130 inputs per operand.",
 [DEC], [("Add/Sub/Neg for Decimal", DEC)])
prop("D02", "Decimal comparisons order numbers by signed value",
 "For two decimals of the same scale, equality, less, greater, less-or-equal and greater-or-equal return exactly what the order of the signed numbers they denote says (a zero with a sign equals a zero without), and minimum and maximum return an operand with the smaller respectively larger number. Decimals of different scale are never compared: the comparison returns an error, and minimum and maximum abort. The sign and zero tests agree with the denoted number as well.",
 ["inputs"], "all pairs of decimals, including equal magnitudes with opposite signs and signed zeros",
 "Tests sample literals and never compare a negative zero; the trichotomy has to hold for every pair.",
 [DEC], [("Compare for Decimal", DEC), ("is_positive/is_negative/is_zero", DEC)])
prop("D03", "Decimal products and quotients have the right sign, scale and rounding",
 "A product or quotient of decimals keeps the receiver's scale (or the requested one), has the sign of the exact result, and its magnitude is the exact result rounded down, or rounded up for the rounding-up variants. A division by zero never returns a value. Multiplying by a plain unsigned integer is exact.",
 ["inputs"], "all pairs of decimals (any mix of scales and signs) and all requested result scales",
 "Rounding direction and sign are only observable on particular remainders and sign combinations, of which tests sample a handful.",
 [DEC], [("Mul/MulUp/Div/DivUp/DivScale for Decimal", DEC)])
prop("D04", "Changing a decimal's scale keeps its sign and rounds as documented",
 "Rescaling a decimal keeps its sign, yields the requested scale, is exact when the scale grows and otherwise truncates the magnitude, or rounds the magnitude up in the rounding-up variants. Conversions to an absolute or scaled unsigned amount return that rescaled magnitude or abort if it does not fit; they never truncate bits; a conversion to a floating-point number keeps the sign. Constructors from integers denote exactly the given number.",
 ["inputs"], "all decimals and all target scales",
 "Whether a digit is lost or a sign dropped depends on the remainder, the sign and the width of the value; tests cover a few positive values.",
 [DEC], [("to_scale/to_scale_up/to_scaled_amount/abs/from_*", DEC)])
prop("D05", "No silent wrap-around or narrowing in amount arithmetic",
 "Outside tests, no addition, subtraction, multiplication, shift, power or narrowing conversion in the decimal library, the fixed-point pool engine or the on-chain instructions can silently wrap around or drop high bits: each is either checked, proven to stay in range, or aborts. This must hold in optimised builds, where the language's implicit overflow checks are compiled out.",
 ["inputs", "configurations"], "all operand values at every arithmetic site, in builds with and without overflow checks",
 "Tests run with overflow checks on and small operands, so a silent wrap in the optimised on-chain build is invisible to them.",
 [DEC, POOL, PM, DEP, WD, MF, MT, MP], [("checked_* calls and guards", DEC), ("unchecked arithmetic sites", POOL)])
prop("D06", "Roots, logarithms and powers respect their domain",
 "Square root, natural logarithm and bit length never return a value for a negative number, and the logarithm never returns a value for zero. Any number to the power zero is one, a whole-number power of a non-negative number is never negative, and of a negative number it is negative exactly for odd exponents (unless the magnitude is zero).",
 ["inputs"], "all decimals and all exponents",
 "Tests exercise positive bases only; sign behaviour for negative bases and zero is not sampled.",
 [DEC], [("Sqrt/Ln/Pow/BitLength for Decimal", DEC)])
prop("D07", "Parsing a decimal never aborts and never corrupts the number",
 "Parsing any text returns either a decimal or a parse error: malformed, empty, overlong or out-of-range text is reported as an error and never aborts. An accepted text yields exactly the number it writes, with its sign; in particular the exponent and fraction length are never narrowed in a way that changes it.",
 ["inputs"], "all input strings",
 "Tests parse a couple of dozen well-formed literals; the property ranges over all strings.",
 [DEC], [("FromStr / from_str_radix", DEC)])
prop("D08", "The logarithm's precomputed constants match their defining formula",
 "Every entry of the precomputed logarithm table equals the natural logarithm of its nominal argument (one plus the column number in units of the row's decimal place) to within one unit of the twelfth decimal, every table row and column is addressed by its own index, and the constant used for the logarithm of two equals that logarithm to within one unit of the twelfth decimal.",
 ["inputs"], "all table cells (the table is finite, but the inputs that reach each cell are not sampled)",
 "Each cell only influences a narrow set of inputs; the tests reach a few cells and compare with loose tolerances.",
 [DEC], [("log_table, ln", DEC)])
prop("D09", "The logarithm reduces its argument by the right power of two",
 "The natural logarithm of a positive number writes it as a power of two times a remainder between one and two (one included, two excluded), multiplies the logarithm of two by exactly that exponent (negative below one), and adds table entries looked up at the successive remainders, each being the previous remainder divided by the value of the entry just used. The result has the argument's scale.",
 ["inputs"], "all positive decimals, including numbers next to a power of two and numbers below one",
 "Tests compare some thirty values; numbers just below a power of two, where the floating-point bit length is off by one, are not among them.",
 [DEC], [("Ln for Decimal", DEC)])
prop("D10", "Printing a decimal shows exactly its number",
 "Printing a decimal never aborts and writes exactly the denoted number: a minus sign for negative numbers only, at least one digit before the decimal point, and exactly as many digits after the point as the scale says, with their leading zeros.",
 ["inputs"], "all magnitudes, signs and scales",
 "Tests print a handful of decimals; carries into the whole part, leading zeros of the fraction and scale zero cannot all be sampled.",
 [DEC], [("Display for Decimal", DEC)])
prop("D11", "A power multiplies as many copies of its base as the exponent says",
 "For a non-negative base, a power that returns a value is the product of exactly as many copies of the base as the exponent says: n for a whole exponent n, the reciprocal for a negative one, and for the supported fractional exponents the root that the exponent really denotes (a square root counts as half a copy) at every scale. Rounding of the single operations aside, no exponent is taken for a neighbouring one.",
 ["inputs"], "all bases, all whole exponents, and every accepted fractional exponent at every scale",
 "Tests raise a few numbers to small exponents at the compute scale; exponents with particular bit patterns and scales at which a fraction is rounded are not among them.",
 [DEC], [("Pow<u128>/Pow<Decimal> for Decimal", DEC)])
prop("D12", "A decimal square root is within one unit of its last digit",
 "The square root of a non-negative decimal, when it is returned, keeps the scale and differs from the true root by at most one unit of its last digit, at every scale and magnitude. A root is refused only for a negative number or when the number's digits at twice its scale do not fit 128 bits.",
 ["inputs"], "all magnitudes and scales",
 "Tests take a dozen roots; where the iteration starts and when it stops depends on the bit pattern of the magnitude, and numbers below one or next to a power of two are not among them.",
 [DEC], [("Sqrt for Decimal", DEC)])
# ---------------------------------------------------------------- pool engine
BOTH = [POOL, PM, PC, FPOOL, FPM, FPC]
prop("P01", "A pool deposit books exactly the required amounts and paid-out fees",
 "A deposit that completes raises each token's reserve by exactly the amount that the added liquidity requires at the current price and chosen range, lowers the swap-fee pot and the adjustment-fee pot of each token by exactly the fees credited to that position, and changes neither price nor current tick nor global fee growth. The required amounts never exceed the offered ones, and in the fixed-point pool the pots cover the fees they pay.",
 ["inputs", "histories"], "all pool states, offered amounts and ranges, in the fixed-point and (up to rounding of single operations) the floating-point engine",
 "Tests check balances for a few fixed scenarios; the bookkeeping must hold for every state, including positions with accrued fees in all four fee kinds.",
 BOTH, [("deposit", POOL), ("deposit", FPOOL)], [("x,y / x_fee,y_fee / x_adj,y_adj", "reserves and fee pots", POOL)])
prop("P02", "A pool withdrawal pays out only what its liquidity and fees entitle to",
 "A withdrawal that completes lowers each token's reserve by the amount the removed liquidity represents at the current price and range, scaled by the fixed safety factor, lowers the swap-fee and adjustment-fee pots by exactly the fees credited to that position, and changes neither price nor current tick nor global fee growth. In the fixed-point engine it never completes when a reserve or a pot would be overdrawn.",
 ["inputs", "histories"], "all pool states, liquidity amounts and ranges, in both engines",
 "Tests withdraw in a few scenarios and check totals; which pot pays which fee is only visible when all four fee kinds differ.",
 BOTH, [("withdraw", POOL), ("withdraw", FPOOL)])
prop("P03", "A swap conserves both tokens across reserves and fee pots",
 "Over a whole swap, the input token's reserve plus its swap-fee pot grows by exactly the reported received amount, of which exactly the reported fee goes to the pot; the output token's reserve plus its adjustment pot changes by exactly the reported (non-positive) sent amount, of which exactly the reported adjustment goes to the pot. No other reserve or pot changes, whatever number of price ranges is traversed and however the swap ends.",
 ["inputs", "histories"], "all pool states, amounts, oracle prices and numbers of traversed ranges, both directions, both engines",
 "It is an invariant of a loop with data-dependent trip count; tests run it a few times on fixed ladders of positions.",
 BOTH, [("execute_swap_from_x / execute_swap_from_y", POOL), ("execute_swap_from_x / execute_swap_from_y", FPOOL)])
prop("P04", "A swap never takes more than offered nor drains below zero",
 "A swap that completes reports a received amount that is non-negative and never exceeds the offered amount, a non-positive sent amount, non-negative fee and adjustment, and leaves every reserve that it paid from non-negative. A swap with a non-positive offered amount never completes.",
 ["inputs", "histories"], "all pool states with non-negative reserves, all amounts and oracle prices, both directions, both engines",
 "The guards sit inside a loop with data-dependent trip count; tests only execute the passing side on fixed data.",
 BOTH, [("execute_swap_from_x / execute_swap_from_y, SwapWithinResult::new, SwapOutput::new", POOL)])
prop("P05", "Liquidity bookkeeping agrees between positions, ticks and the pool",
 "A completed deposit or withdrawal changes the position's liquidity, the gross liquidity of both range ends and the net liquidity of the lower end by the same signed amount and the net liquidity of the upper end by its opposite, and changes the in-range liquidity by it exactly when the current tick is at or above the lower and below the upper end. Ends and positions that drop to zero disappear, missing ones are created first, and no other position or tick changes.",
 ["inputs", "histories"], "all pool states (any set of ticks and positions), amounts and ranges, in both engines",
 "Tests use a few positions, and never read the per-tick net/gross values or both range ends at once.",
 BOTH, [("_set_position, update_tick", POOL), ("_set_position, update_tick", FPOOL)])
prop("P06", "Crossing a tick applies its net liquidity and flips every fee counter",
 "Crossing an initialised tick replaces each of its four outside fee counters by the global counter of the same token and kind minus the old value, adds its net liquidity to the in-range liquidity when the price moves up and subtracts it when the price moves down, and leaves its own net and gross liquidity untouched. The current tick becomes the crossed tick when moving up and a tick strictly below it when moving down; an uninitialised tick is never crossed, and a swap step that leaves part of the input unspent crosses the tick it stopped at.",
 ["inputs", "histories"], "all pool states, all crossed ticks, both directions, in both engines",
 "The scenarios cross few ticks and compare aggregate amounts with tolerances, so a wrong counter or sign on one kind stays invisible.",
 BOTH, [("cross_tick", POOL), ("cross_tick", FPOOL)])
prop("P07", "Fees accrue per unit of liquidity and are credited once to positions",
 "Each swap step raises the global fee counter of the input token by the step's fee divided by the in-range liquidity and the adjustment counter of the output token by the step's adjustment divided by it, and no other counter. A deposit or withdrawal credits its position with the liquidity it had before times the growth inside the range since its checkpoint, for each of the four fee kinds separately, and moves each checkpoint to the current growth; a newly opened position starts at the current growth and is credited nothing.",
 ["inputs", "histories"], "all pool states and operation histories, in both engines",
 "Needs particular histories (fees accrued before a position is opened, all four fee kinds distinct) that the tests do not construct.",
 BOTH, [("execute_swap_*: set_fee_glbl", POOL), ("_set_position", POOL), ("_set_position", FPOOL)])
prop("P08", "Fee growth inside a range follows the outside-counter convention",
 "The fee growth attributed to a range is the global growth minus the growth below the lower end and above the upper end, where the growth below an end is its outside counter if the current tick is at or above it and the global growth minus that counter otherwise (and conversely above); an uninitialised end counts all growth as below. A tick created at or below the current tick starts with the global counters, one created above starts with zero, per token and kind.",
 ["inputs", "histories"], "all pool states, ranges, tokens and fee kinds, in both engines",
 "Tests never observe per-range growth directly and rarely with a current tick equal to a range end.",
 BOTH, [("fee_below_above, fee_rng, initialize_tick", POOL), ("fee_below_above, fee_rng, initialize_tick", FPOOL)])
prop("P09", "Swap steps move the price only in the trade's direction, within target",
 "Within one price range a swap that supplies the first token never ends above its starting root price nor below the range's limit, and one that supplies the second never ends below the start nor above the limit. A step that does not use up the offered amount ends exactly at the limit and is the only kind that triggers a crossing.",
 ["inputs"], "all step inputs (start price, limit, liquidity, amount, oracle price), both directions, both engines",
 "Rounding makes individual end prices land on either side; tests cannot sample the interplay of amount, liquidity and rounding.",
 BOTH, [("swap_within_tick_from_x / swap_within_tick_from_y", POOL), ("swap_within_tick_from_x / swap_within_tick_from_y", FPOOL)])
prop("P10", "Pricing formulas are the constant-product formulas of the range",
 "Read as exact arithmetic, the conversions between liquidity, token amounts, root prices and range ends compute the concentrated constant-product formulas (amount of the first token L(1/p-1/q), of the second L(q-p), their inverses, and the price after an exact input), with the current price clamped to the range, on every branch. The oracle-adjusted variants compute the documented adjusted integrals, which tend to zero with the price move and have the opposite sign of the input amount.",
 ["inputs"], "all positive prices, liquidities and amounts, modulo rounding of the individual operations, both engines",
 "The tests check specific values with tolerances; an algebraically wrong but numerically close branch (or a branch for one oracle coefficient) goes unnoticed.",
 [PM, FPM], [("PoolMath", PM), ("PoolMath", FPM)])
prop("P11", "A swap step charges its fee on the input and adjusts only the output",
 "Read as exact arithmetic, the fee of a step that exhausts the input is the fee rate times the offered amount and the rest moves the price; the fee of a step that stops at the limit is the input used divided by one minus the fee rate times the fee rate. The output is the constant-product amount plus a non-negative adjustment that is zero when there is no adjustment coefficient, no oracle price, or the trade moves the price away from the oracle price; otherwise exactly the part of the price move before the oracle price is reached is priced by the adjusted formula.",
 ["inputs"], "all step inputs and oracle prices, both directions, both engines",
 "The oracle and fee branches split the input space along real-valued boundaries that tests sample at a few points.",
 BOTH, [("swap_within_tick_from_x / swap_within_tick_from_y", POOL), ("swap_within_tick_from_x / swap_within_tick_from_y", FPOOL)])
prop("P12", "A fixed-point swap never fills at a better average than its starting price",
 "In the fixed-point engine a swap step that supplies a non-zero amount of the first token for a non-zero output never completes with an average price, fees included and at the working precision, above the starting price; one that supplies the second token never completes with an average price below the starting price.",
 ["inputs"], "all step inputs, both directions, fixed-point engine",
 "The guard fires only for rounding noise on very small trades relative to liquidity, which tests do not construct.",
 BOTH, [("swap_within_tick_from_x / swap_within_tick_from_y: average price guard", POOL)])
prop("P13", "The next-tick search returns the nearest initialised tick on its side",
 "The limit of a downward step is an initialised tick not above the search start or the current tick rounded to spacing, and the limit of an upward step is an initialised tick strictly above the current tick when the search starts there, and not below the search start otherwise. It is the nearest such tick: none lies between it and the position the search starts from. If no limit is reported, no such tick is initialised. An upward search that starts at or above the current tick never aborts.",
 ["inputs", "histories"], "all sets of initialised ticks, current ticks and search starts, both engines",
 "Tests use ladders of a few ticks; boundary cases where price sits exactly on a tick depend on the set of ticks.",
 BOTH, [("get_left_limit_of_swap_within / get_right_limit_of_swap_within", POOL)])
prop("P14", "A swap step keeps the current tick consistent with the ticks it crossed",
 "A swap step that stops at its limit ends at exactly the limit's tick and root price. A step that ends before its limit leaves the current tick on its own side of it: downward, at or above the limit and not above the tick it started from; upward, at or above the tick it started from and strictly below the limit, so that the in-range liquidity always belongs to the range the current tick names.",
 ["inputs", "histories"], "all step inputs, ticks and root prices, including price-to-tick rounding at range ends, both directions, both engines",
 "Only particular amounts end a step within rounding distance of an initialised tick; tests do not hit them.",
 BOTH, [("swap_within_tick_from_x / swap_within_tick_from_y: end tick", POOL), ("swap_within_tick_from_x / swap_within_tick_from_y: end tick", FPOOL)])
# ---------------------------------------------------------------- on-chain program
CH = [DEP, WD]
prop("C01", "Deposit and withdraw act only on accounts bound to the same pool and user",
 "Every completed deposit or withdrawal has used the pool state, tick bitmap, position, both range-end ticks, current tick, vaults and liquidity mint that belong to one and the same pool, a position derived from the signing user and the requested range, range-end ticks derived from the requested ends, token accounts of the signing user with the pool's mints, and a current tick equal to the pool's. Requests with an empty or inverted range, an account of another pool or user, or a wrong program never reach token movement.",
 ["inputs", "histories"], "all account lists and instruction arguments an attacker can submit",
 "No test executes the on-chain entry points; the guarantee quantifies over adversarial account lists.",
 [DEP, WD], [("#[derive(Accounts)] Deposit/Withdraw constraints", DEP), ("constraints", WD)])
prop("C02", "Accounts are created and later found under the same derived addresses",
 "Each account an initialisation instruction creates (pool, vaults, bitmap, tick, position) has an address derived from the same ordered seeds, for the same pool, user and range, as the instructions that later use it check, and distinct kinds of accounts use seeds that cannot coincide. The bump recorded at creation is the one later used.",
 ["inputs", "programs"], "all account kinds and all creating/using instructions",
 "The seed lists are repeated across instructions and no test runs them against each other.",
 [IP, MB, MT, MP, DEP, WD], [("seeds/bump constraints", DEP), ("init constraints", IP)])
prop("C03", "A deposit moves exactly the computed amounts into the pool's vaults",
 "A completed deposit transfers from the user's first-token account to the pool's first-token vault exactly the whole-token floor of the amount the new liquidity requires less the credited fees, likewise for the second token, and mints the whole-token floor of the liquidity to the recipient; nothing else moves. The two transfers are authorised by the user and the mint by the pool; the amounts debited never exceed the amounts offered.",
 ["inputs"], "all account lists and arguments for which the instruction completes",
 "No test executes the instruction; swapped accounts, authorities or amounts compile fine.",
 [DEP], [("deposit handler: mint_to and transfers", DEP)])
prop("C04", "A withdrawal burns what it redeems and pays from the pool's vaults",
 "A completed withdrawal burns exactly the requested liquidity tokens from the user's account under the user's authority, and transfers from each vault to the user's account of that token, under the pool's authority, exactly the whole-token floor of the amount the withdrawn liquidity represents plus the credited fees; nothing else moves.",
 ["inputs"], "all account lists and arguments for which the instruction completes",
 "No test executes the instruction; swapped accounts, authorities or amounts compile fine.",
 [WD], [("withdraw handler: burn and transfers", WD)])
prop("C05", "Tokens move only after every guard of the instruction has passed",
 "In a completed deposit the debited amounts were checked against the offered ones, and in deposits and withdrawals the position, the gross liquidity of both range ends and (when in range) the pool liquidity were checked to stay non-negative before the first token movement. A failed check never leads to a completed instruction.",
 ["inputs"], "all argument values and account states",
 "Requires account states in which exactly one guard fails; no test executes the instruction.",
 [DEP, WD, MP, MT], [("handlers' guards", DEP), ("update_position/update_tick guards", MP)])
prop("C06", "On-chain liquidity of position, ticks and pool changes by the same amount",
 "A completed deposit or withdrawal stores for the position and for the gross liquidity of both range-end ticks the old value plus the signed liquidity change, for the net liquidity (with its sign) of the lower tick the old value plus, and of the upper tick minus that change, and for the pool the old value plus that change exactly when the current tick is at or above the lower and below the upper end. These values are what is persisted at the end, and no other persisted field changes except the position's fee checkpoint and the tick bitmap.",
 ["inputs", "histories"], "all account states and arguments, including a current tick that coincides with a range end",
 "No test executes the instruction; the persisted image depends on account aliasing and field order of the serialised accounts.",
 [DEP, WD, MP, MT], [("update_position", MP), ("update_tick", MT), ("handlers", DEP), ("handlers", WD)])
prop("C07", "Initialisation records the right identities, scales and bumps",
 "Creating a pool, tick, position or bitmap records the signing authority, the given mints and vaults, the requested tick or range, the root price of the requested tick, the fixed scales and the derived bumps in the matching fields, and starts all amounts and counters at zero. The vaults are created for the matching mints under the pool's authority and the accounts are paid for by the payer.",
 ["inputs"], "all account lists and arguments for which the instruction completes",
 "No test executes the on-chain initialisation instructions.",
 [IP, MB, MT, MP], [("initialize_pool handle", IP), ("create_position", MP), ("initialize_tick", MT), ("initialize_bitmap", MB)])
prop("C08", "On-chain fee growth inside a range follows the outside-counter convention",
 "For each token and fee kind, the fee growth computed by deposits and withdrawals is the pool's global growth minus the growth below the lower tick and above the upper tick, with growth below a tick equal to its recorded outside counter when the current tick is at or above it and global minus that counter otherwise (and conversely above), and is stored as the position's checkpoint of the same token and kind.",
 ["inputs", "histories"], "all account states and ticks",
 "No test covers the on-chain fee computation; a mixed-up counter needs all counters distinct to show.",
 [MF, DEP, WD, MP], [("compute_latest_fee, fee_earned_within_range, fee_earned_below_above", MF)])
prop("C09", "Emitted records state the amounts that actually moved",
 "Each completed deposit emits one record whose two token amounts and minted liquidity equal the amounts passed to the two transfers and the mint, and each completed withdrawal one whose two token amounts and burnt liquidity equal those passed to the transfers and the burn. Records are emitted only after the movement they describe.",
 ["inputs"], "all completed deposits and withdrawals",
 "No test reads emitted records; swapped fields compile fine.",
 [DEP, WD, S + "events/mod.rs"], [("emit! in handlers", DEP), ("emit! in handlers", WD)])
prop("C10", "Accounts are allocated large enough for what is stored in them",
 "For every account created by the program, the allocated size is at least the eight-byte type tag plus the serialised size of its contents, so that persisting any reachable state never fails or truncates.",
 ["inputs", "programs"], "all account types created by the program and all values of their fields",
 "No test creates an account; a too small allocation only fails on chain.",
 [IP, MB, MT, MP, ST], [("space = ... constraints", IP), ("state structs", ST + "pool_state.rs")])
prop("C11", "Only deposits and withdrawals touch token balances or liquidity state",
 "Instructions other than deposit and withdraw never move, mint or burn tokens and never persist a change to an account that already existed, apart from paying the rent of what they create. Every instruction that spends from an account requires that account's owner to sign.",
 ["inputs", "programs"], "all instructions of the program and all account lists",
 "It quantifies over every instruction and every account list; no test executes any of them.",
 [LIB, IP, MB, MT, MP, DEP, WD], [("program entry points", LIB)])
prop("C12", "Signed amounts are never stored or paid as unsigned without a sign check",
 "Wherever an on-chain instruction stores, transfers, mints or burns the magnitude of a signed decimal, the decimal has been checked to be non-negative on that path or its sign is stored next to it.",
 ["inputs"], "all values of the signed intermediate amounts at every store or transfer site",
 "It needs account states that make an intermediate amount negative (for instance credited fees above the deposit), which no test builds.",
 [DEP, WD, MP, MT, MF], [("handlers", DEP), ("handlers", WD), ("update_tick", MT)])
# ---------------------------------------------------------------- tick bitmap
prop("B01", "Marking, clearing and testing a tick in the bitmap agree",
 "Marking a tick makes it test as active, clearing it makes it test as inactive, and neither changes what any other tick tests as nor any other stored field. The same holds for every tick in the representable range, and ticks outside of it abort without effect.",
 ["inputs", "histories"], "all ticks of the bitmap's range and all bitmap contents",
 "Tests set and read a few ticks; agreement over 80,000 bits and non-interference cannot be sampled.",
 [BM], [("activate_tick/unset_tick/tick_is_active", BM)])
prop("B02", "The bitmap search returns an active tick on the requested side",
 "A search returns only ticks that test as active and lie strictly on the requested side of the start tick, and returns the nearest such tick; it reports none only if no tick on that side is active.",
 ["inputs", "histories"], "all bitmap contents, start ticks and both directions",
 "Tests search a few sparse bitmaps; byte and word boundaries with arbitrary contents cannot be sampled.",
 [BM], [("get_next_tick, byte_get_next_tick", BM)])
# ---------------------------------------------------------------- expected not applicable
prop("N01", "Logarithm and price results are accurate to the last digits",
 "The logarithm, fractional powers and the prices computed from them return the true value up to a few units in the last digit at the working scale, over the full supported range.",
 ["inputs"], "all supported operands",
 "Tests compare a few dozen values against references with tolerances.",
 [DEC], [("sqrt, ln, pow", DEC)])
prop("N02", "The pool can always pay every position out after any history",
 "After any history of deposits, withdrawals and swaps, withdrawing all positions in any order succeeds and the reserves and fee pots cover everything owed, up to the documented safety margin.",
 ["histories"], "all operation histories",
 "Needs unbounded histories; tests run a few fixed ones.",
 [POOL], [("deposit, withdraw, execute_swap_*", POOL)])
prop("N03", "Swaps and price searches always terminate within the compute budget",
 "Every swap, tick search and price-to-tick search terminates after a number of steps bounded by the number of initialised ticks, respectively the price distance.",
 ["inputs", "histories"], "all pool states and inputs",
 "Termination cannot be sampled.",
 [POOL, PM], [("execute_swap_*, rp_to_tick_loop", POOL)])
