#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so that ids stay in step)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "state": state or [],
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None}})

D, A, C, E, H, N, L, ET = ("src/digital.rs", "src/additive.rs", "src/chinese.rs",
    "src/enumerated.rs", "src/hebrew.rs", "src/nominalstring.rs", "src/lib.rs", "src/ethiopic.rs")

p("C01", "Positional digit systems write every nominal exactly",
  "Every digit collection that has a zero digit (Decimal, the hexadecimal systems, every script's decimal digits and any user-made set of N >= 2 distinct digits) writes a nominal as its base-N positional numeral: reading the digits back gives the nominal, there is no leading zero digit, and 0 is the single zero digit. The symbols are the ones the system is named for, in ascending order. This holds for every value of every unsigned integer type.",
  ["inputs", "configurations"], "all nominals of u8..u128/usize; all built-in positional systems; user digit sets of any size",
  "Tests format about ten small values in Decimal and the two hex systems; no other script's table and no 64/128-bit value is ever formatted.",
  [D], [("generic digit loop: divide by count, push digit to the front", f"{D}: impl NominalSystem<T> for D"), ("symbol tables", f"{D}: impl_digit_set!")],
  ["to_nominal", "try_to_nominal"])
p("C02", "Alphabetic systems enumerate every label once, in order",
  "A zeroless digit collection (LetterLower/Upper, Greek, Hiragana, Katakana, Iroha, Hangeul and any user-made set of N >= 2 symbols) labels the nominals 0, 1, 2, ... with all non-empty strings over its symbols, shortest first and in symbol order within a length, skipping and repeating none (a..z, aa..az, ba..). This holds for every value of every unsigned integer type, including the type's maximum.",
  ["inputs", "configurations"], "all nominals of all types; all zeroless collections of any size",
  "Tests look at 'a', 'aa' and a few neighbours; the carry positions of long labels and the type maxima are never reached.",
  [D], [("bijective base-N: subtract one on every place but the first", f"{D}: impl NominalSystem<T> for D"), ("symbol tables", f"{D}: impl_digit_set!")],
  ["to_nominal", "try_to_nominal"])
p("C03", "one_based shifts counting by exactly one and rejects zero",
  "For a (non-fixed) alphabetic collection that counts from zero, formatting n+1 with its one_based() form gives exactly what the collection gives for n, and formatting 0 gives the NoZeroSymbol error; this is so for every integer type, also when the collection has more symbols than the type has values. one_based() changes nothing for a collection with a zero digit or one that already counts from one, so applying it twice is the same as applying it once.",
  ["inputs", "configurations"], "all nominals of all types; built-in and user-made collections of any size, fixed or not",
  "Tests use LetterLower/LetterUpper.one_based() at 0, 1, 26 and 27 in u8 only.",
  [D], [("OneBased::zero_based() == false", f"{D}: impl DigitCollection for OneBased"), ("NoZeroSymbol check and decrement in the digit loop; single-digit shortcut for collections longer than the type", f"{D}: impl NominalSystem<T> for D")],
  ["try_to_nominal", "DigitCollection accessors"])
p("C04", "Chained and restricted collections act like the flat symbol list",
  "A collection built from non-fixed collections with and()/Chain and Restrict, nested in any way, behaves exactly like one flat collection holding the first part's symbols followed by the second part's, cut to the restricted length (never longer than what it restricts), with the first part's zero-digit and counting rules. Its len, is_empty and digit accessors agree with that list, and so does every formatted nominal.",
  ["inputs", "configurations"], "all trees of Chain/Restrict/OneBased over built-in and user-made collections; all nominals of all types",
  "Only HexUpper/HexLower (one Chain under one Restrict) are formatted, at two values.",
  [D], [("Chain::len/digit split at a.len()", f"{D}: impl DigitCollection for Chain"), ("Restrict::len", f"{D}: impl DigitCollection for Restrict")],
  ["try_to_nominal", "DigitCollection::len", "DigitCollection::digit", "DigitCollection::is_empty"])
p("C05", "Fixed collections give one symbol, then hand over the whole nominal",
  "A fixed collection formats the nominals within its symbol list as exactly that one symbol; every nominal past the end is formatted entirely by its fallback collection (CjkHeavenlyStem and CjkEarthlyBranch: CjkDecimal), or gives the OutOfBounds error carrying that nominal if it has no fallback. A fixed collection never yields more than one of its own symbols, whether it counts from zero or one and whether or not it is wrapped in one_based() or Restrict.",
  ["inputs", "configurations"], "all nominals of all types; both built-in fixed systems; user-made fixed collections with and without fallback (also a fallback that is fixed itself), wrapped or not",
  "No unit test formats a fixed collection at all; only generated documentation shows a dozen values.",
  [D], [("fixed() range check and Fallback::default()", f"{D}: impl NominalSystem<T> for D"), ("symbol arrays", f"{D}: CjkHeavenlyStem, CjkEarthlyBranch")],
  ["try_to_nominal", "to_nominal"])
p("C06", "Additive sets decompose a nominal greedily and exactly, or say they cannot",
  "An AdditiveSet formats a positive nominal as symbols in descending value order, taking each as often as still fits, and the values of the written symbols add up to exactly the nominal; if they cannot, it returns OutOfBounds carrying the nominal. Zero gives the zero-valued symbol if the set has one and NoZeroSymbol otherwise. Symbols worth more than the integer type can hold are simply unused, and the constructor accepts exactly the strictly descending symbol lists.",
  ["inputs", "configurations"], "all symbol lists of any length and weights up to u128; all nominals of all types with a written form of manageable length",
  "Tests only reach the built-in Roman tables; no user-made set, no set without a unit symbol, and no constructor rejection is tested.",
  [A], [("greedy subtraction loop", f"{A}: impl NominalSystem<T> for AdditiveSet"), ("descending-order assertion and zero detection", f"{A}: AdditiveSet::new")],
  ["AdditiveSet::new", "try_to_nominal"])
p("C07", "Roman numerals denote the nominal in subtractive vinculum notation",
  "RomanUpper and RomanLower write every positive nominal in standard subtractive Roman notation, where a bar over a symbol means a thousand times its value: up to three thousands are plain M's, 4,000, 5,000, 9,000 and everything larger use barred symbols (I̅V̅, V̅, I̅X̅, X̅, X̅L̅, X̅C̅, C̅M̅ and so on), and each million is one M̅, so that the numeral's value is the nominal; 0 is N / n. The two systems differ only in letter case.",
  ["inputs"], "all nominals of all types whose numeral has a manageable length (the form grows by one symbol per million)",
  "Tests check 0 to 5, 4,000, 2,000,000 and 63,000,000; most rows of the tables and their combinations are never formatted.",
  [A], [("RomanLower/RomanUpper symbol tables", f"{A}: impl NominalSystem<T> for RomanLower/RomanUpper"), ("greedy loop", f"{A}: AdditiveSet::try_format_nominal")],
  ["to_nominal", "try_to_nominal"])
p("C08", "Armenian, Georgian, Japanese and Korean numerals add up to the nominal",
  "ArmenianUpper/Lower, Georgian, JapaneseFormal/Informal, HangeulFormal and HanjaFormal/Informal write every positive nominal as the symbols of the CSS Counter Styles tables in descending value order, one symbol per decimal digit place up to the table's end and repeating the largest symbol beyond it, so that the values add up to the nominal. Zero is the table's zero symbol (Japanese, Korean) or NoZeroSymbol (Armenian, Georgian), and the two Armenian systems differ only in letter case.",
  ["inputs"], "all nominals of all types whose numeral has a manageable length; eight systems",
  "None of these systems has a unit test; documentation shows ten values of each.",
  [A], [("symbol tables", f"{A}: Armenian*/Georgian/Japanese*/Hangeul*/Hanja*"), ("greedy loop", f"{A}: AdditiveSet::try_format_nominal")],
  ["to_nominal", "try_to_nominal"])
p("C09", "Hebrew numerals add up to the nominal with the 15/16 and marking rules",
  "Hebrew writes every positive nominal with letters in descending value whose values add up to the nominal, except that a remainder of 15 or 16 is written ט״ו / ט״ז instead of yod-he / yod-vav. A numeral that is one single letter, and only such a numeral, is wrapped in the marks as documented (׳א״); 0 is NoZeroSymbol.",
  ["inputs"], "all nominals of all types whose numeral has a manageable length (one tav per 400)",
  "Tests check 1, 15, 16, 997 and 0; nothing above 1,000, no 115/216-like value, no u8 path where 300 and 400 do not fit.",
  [H], [("letter loop with 15/16 special cases and single-symbol marks", f"{H}: impl NominalSystem<T> for Hebrew")],
  ["to_nominal", "try_to_nominal"])
p("C10", "Ethiopic numerals follow the CSS algorithm for every value",
  "Ethiopic writes every positive nominal by the CSS Counter Styles algorithm (pairs of decimal digits, alternating hundred and ten-thousand separators, dropped ones), so the numeral can be read back to the nominal; 0 is NoZeroSymbol.",
  ["inputs"], "all nominals of all types, up to 20 digit pairs in u128",
  "Tests check five values; the rules depend on the position parity, zero pairs and one-valued pairs of up to twenty pairs.",
  [ET], [("pair loop with separators and digit removal", f"{ET}: format_ethiopic")],
  ["to_nominal", "try_to_nominal"])
p("C11", "Chinese myriad, mid and long scales read back to the nominal",
  "Under the myriad, mid and long scales the Chinese systems write every nominal of every type (never an error) in the scale's units (myriad: a new unit every 10^4; mid: 万, 亿, then every 10^8; long: each unit squaring the previous one), such that the numeral reads back to the nominal. Zero digits inside are written as one 零 per run, none at the end, and one also when a later four-digit group has a leading zero; zero itself is 零.",
  ["inputs", "configurations"], "all nominals of all types; 4 types x ordinary/financial x 3 scales",
  "Tests sample 22 values in informal systems only; formal systems are untested and the nested units with zero runs form a space of digit patterns no sample covers.",
  [C], [("scaled rank recursion", f"{C}: format_scaled_rank"), ("four-digit group with zero collapsing", f"{C}: format_chinese_inner"), ("scale tables", f"{C}: MYRIAD_SCALE, MID_SCALE, LONG_SCALE")],
  ["to_nominal", "try_to_nominal"])
p("C12", "The Chinese short scale reads back to the nominal below 10^15",
  "Under the short scale the Chinese systems write every nominal below 10^15 with one unit per power of ten from 10^4 (万) to 10^14 (载), with every inner run of zeros written as one 零 and none at the end, so that the numeral reads back to the nominal. Every nominal of 10^15 or more gives OutOfBounds carrying that nominal.",
  ["inputs", "configurations"], "all nominals of all types; 4 types x ordinary/financial",
  "Tests sample 20 values in one configuration and two out-of-range values, all in u128.",
  [C], [("short rank loop", f"{C}: format_short_rank"), ("SHORT_SCALE", f"{C}: SHORT_SCALE")],
  ["to_nominal", "try_to_nominal"])
p("C13", "Chinese options change only what they name",
  "Simplified and traditional systems, and ordinary and financial variants, write the same numeral up to a fixed one-to-one replacement of characters. Formal and informal systems write the same numeral except that the informal one omits a leading one before ten (十一 for 一十一, 十二万 for 一十二万). Options can be combined in any order and repeated, with the last chosen scale winning, and no scale choice changes numerals below 100,000 (default: ordinary characters, myriad scale).",
  ["inputs", "configurations"], "all nominals of all types; all option sequences on all four systems",
  "Tests use seven fixed configurations, none of them formal, and never combine options in another order.",
  [C], [("character tables", f"{C}: SIMPLIFIED_*/TRADITIONAL_*"), ("omit_digit", f"{C}: format_chinese_inner"), ("option builders", f"{C}: impl_chinese_options!")],
  ["to_nominal", "try_to_nominal"])
p("C14", "Enumerated sets map each nominal to its own symbol or an error",
  "An EnumeratedSet gives the i-th symbol for nominal i (i-1 for a zeroless set) whatever the integer type, NoZeroSymbol for 0 in a zeroless set, and OutOfBounds carrying the nominal for everything past the end, also for values beyond usize. CircledNumber covers exactly 0 to 50 and DoubleCircledNumber exactly 1 to 10 with the matching circled characters.",
  ["inputs", "configurations"], "all nominals of all types; both built-in systems and user-made sets of any length",
  "There is no unit test of enumerated sets; the documentation shows some values inside the range and none outside.",
  [E], [("index with zeroless shift", f"{E}: impl NominalSystem<T> for EnumeratedSet"), ("symbol tables", f"{E}: CircledNumber, DoubleCircledNumber")],
  ["to_nominal", "try_to_nominal"])
p("C15", "Infallible formatting falls back to decimal exactly on error",
  "For every system and nominal, to_nominal and format_nominal give what try_to_nominal / try_format_nominal give, or the nominal in ASCII decimal if that is an error; an error that carries a nominal carries the one that was asked for, and NoZeroSymbol occurs only for 0. into_decimal, unwrap_or_decimal and with_nominal keep to the same rules for any error and any result, and user-made systems inherit them.",
  ["inputs", "configurations"], "all systems (built-in, generated, user-made), all nominals of all types, all error values",
  "One documentation example covers one failing nominal; errors of other systems and types, and the 128-bit decimal fallback, are untested.",
  [L], [("NominalSystem::format_nominal default", f"{L}: trait NominalSystem"), ("Error::into_decimal, UnwrapOrDecimal, WithNominal", f"{L}")],
  ["to_nominal", "format_nominal", "try_to_nominal", "try_format_nominal", "Error::into_decimal", "unwrap_or_decimal", "with_nominal"])
p("C16", "The integer type never changes the result",
  "The same value formatted with the same system gives the same text, or the same kind of error, in every unsigned integer type that can hold it. UnsignedInteger::is_zero and as_usize agree with the value.",
  ["inputs", "configurations"], "all systems; all values; all pairs of types that hold the value",
  "Tests format each value in one type; no test compares types, and narrow types take separate paths (symbols, scales or digit counts that do not fit).",
  [D, A, C, E, H, ET, L], [("T::try_from(...) fallbacks on every symbol value, scale and digit count", f"{D}, {A}, {C}, {H}"), ("impl_positive_integer!", L)],
  ["try_to_nominal", "to_nominal", "UnsignedInteger"])
p("C17", "Boxed and shared systems behave like the system they hold",
  "A Box, Rc or Arc holding any system as a dyn NominalSystem formats every nominal of every type, fallibly and infallibly, exactly as the held system itself does, also when nested and when the held system provides its own infallible formatting.",
  ["inputs", "configurations"], "all systems including user-made ones; Box/Rc/Arc and nestings; all nominals of all types",
  "The test boxes RomanUpper and formats 1; errors and overridden methods are not covered.",
  [L], [("impl NominalSystem for Box/Rc/Arc<dyn NominalSystem>", L)],
  ["to_nominal", "try_to_nominal"])
p("C18", "A system never gives two nominals the same identifier",
  "Within every built-in system and configuration, two different nominals that both format successfully have different identifiers.",
  ["inputs", "configurations"], "all pairs of nominals; all built-in systems and Chinese configurations",
  "Tests compare single values with literals; no test relates the identifiers of two nominals.",
  [D, A, C, E, H, ET], [("every formatting algorithm", f"{D}, {A}, {C}, {E}, {H}, {ET}")],
  ["try_to_nominal"])
p("C19", "Formatting always completes, without panic or runaway",
  "Formatting any nominal of any type with any system that can be built through the public API (also empty, one-symbol, over-restricted and fixed collections) returns an identifier of valid UTF-8 or an error; it does not panic, does not hang and does not exhaust memory.",
  ["inputs", "configurations"], "all systems and degenerate collections; all nominals of all types (giant nominals in purely additive systems are recorded as a known finding)",
  "Tests never format with degenerate collections, rarely above u32, and a hang or overflow needs particular digit counts and magnitudes.",
  [D, A, C, E, H, ET, L], [("termination of the digit, additive and rank loops; checked conversions", f"{D}, {A}, {C}, {H}, {ET}")],
  ["try_to_nominal", "to_nominal"])
p("C20", "NominalString holds exactly the text its history wrote",
  "After any sequence of try_push, try_push_str, try_push_front, in-place edits, clones and conversions from or to char, str and String, a NominalString's text is exactly the text the same operations produce on an ordinary string; with the alloc feature none of them fails. Clones are independent of each other.",
  ["histories", "inputs"], "all operation sequences from every constructor; all chars and strings, with every mix of UTF-8 widths and every length around the inline capacity",
  "Tests run two fixed four-step histories with ASCII; the reverse buffer's overflow is never exercised (the reverse test re-creates a forward string).",
  [N], [("InlineString push/push_str/push_front in forward and reverse layout", f"{N}: impl InlineString"), ("spill to the heap", f"{N}: impl MaybeInline")],
  ["Deref<str>", "DerefMut", "Clone", "From/Into"], [{"name": "length byte (bit 7: reverse layout)", "meaning": "initialised bytes and layout of the inline buffer", "where": f"{N}: InlineString"}])
p("C21", "Storage is unobservable except that it spills exactly past 62 bytes",
  "A string from new() and one from new_reverse() (or from str or char) behave identically under identical push histories, and stay on the stack exactly as long as they have never held more than 62 bytes, whatever the order and kind of pushes. try_into_string succeeds exactly for strings that are not inline and otherwise gives back an equal inline string; INLINE_CAPACITY is 62 and the type is 64 bytes large.",
  ["histories", "inputs"], "all push histories crossing or touching the capacity with 1- to 4-byte characters",
  "Tests overflow with one ASCII character from a full ASCII buffer only.",
  [N], [("new_length <= INLINE_CAPACITY checks", f"{N}: impl MaybeInline"), ("reverse flag", f"{N}: InlineString::is_reverse")],
  ["is_inline", "try_into_string", "INLINE_CAPACITY", "size_of"])
p("C22", "NominalString compares, orders and displays as its text",
  "Equality and ordering between NominalStrings, and between a NominalString and str or String, depend only on the texts and agree with str, whatever the storage (forward, reverse, heap) of either side. Display honours width, fill, alignment and precision as str does, to_string gives the text, and ordering is a total order consistent with equality.",
  ["inputs", "histories"], "all pairs and triples of texts in all storage forms; all format specifications",
  "Tests only compare a result with an equal literal; inequality, ordering, storage mixes and padding are untested.",
  [N], [("PartialEq/PartialOrd/Ord/Display impls", N)],
  ["==", "cmp", "partial_cmp", "Display"])
p("C23", "NominalString never touches memory it must not",
  "No sequence of safe operations on NominalString, and no formatting call, causes undefined behaviour: no read of uninitialised bytes, no out-of-bounds access and no invalid UTF-8 behind the str it hands out.",
  ["histories", "inputs"], "all operation sequences from every constructor, and formatting calls in every system",
  "Undefined behaviour is invisible to an ordinary test run; upstream runs its two fixed histories under Miri, which cover a handful of lengths and no multi-byte character.",
  [N], [("MaybeUninit buffer, from_raw_parts, from_utf8_unchecked, raw copy in push_str", f"{N}: impl InlineString")],
  ["interpreter (Miri) report", "str::from_utf8 of the bytes"])
p("C24", "Without alloc, results are the same or OutOfMemory, never a panic",
  "Built without the alloc feature, every system gives for every nominal of every type exactly the identifier or error of the alloc build if that identifier has at most 62 bytes, and Error::OutOfMemory carrying the nominal if it would be longer. NominalString's pushes then succeed exactly while the text fits 62 bytes and otherwise return OutOfMemoryError leaving the text unchanged, and infallible formatting gives the decimal form; nothing panics or hangs.",
  ["configurations", "inputs", "histories"], "feature configuration without alloc; all systems, nominals and types without any size limit; all push histories",
  "No test runs without alloc: the build only type-checks that configuration.",
  [N, L, D, A, C, E, H, ET], [("cfg(not(feature = \"alloc\")) branches", f"{N}: impl MaybeInline"), ("with_nominal(nominal)?", f"{D}, {A}, {H}, {C}, {ET}")],
  ["try_to_nominal", "to_nominal", "try_push*"])
p("C25", "Formatting does not depend on history or on other threads",
  "Formatting is a pure function of system and nominal: any sequence of calls in any order, repeated, interleaved across systems and types, running in several threads at once on shared systems, or made from within a user-made collection's own methods, gives for each call the result that call gives on its own.",
  ["histories", "schedules"], "all call sequences over all systems and types; concurrent callers",
  "Each test makes isolated calls; none repeats, interleaves or runs concurrently with a comparison.",
  [L, D, A, C, E, H, ET], [("stateless systems over constant tables", f"{D}: static DIGITS; {A}, {C}, {E}")],
  ["try_to_nominal", "to_nominal"])

p("C26", "Text of up to 62 bytes never touches the heap",
  "Formatting any nominal with any system, collection or set whose identifier has at most 62 bytes gives an inline NominalString and requests no heap memory on the way, the decimal fallback included; a longer identifier is not inline. Building a NominalString of at most 62 bytes (from str, String or char, or by pushes on new() or new_reverse()), and cloning, printing and comparing it, requests no heap memory either.",
  ["inputs", "histories"], "all systems, collections and sets with all nominals; all push histories that stay within the capacity",
  "Tests check is_inline nowhere but in two push histories, and none observes the allocator, so a temporary String or Vec on the way stays invisible.",
  [N, L, D, A, C, E, H, ET], [("inline buffer, spill past INLINE_CAPACITY", f"{N}: impl MaybeInline"), ("new_reverse() buffers of the systems", f"{D}, {C}, {ET}")],
  ["calls of the global allocator", "is_inline"])
p("C27", "Identifiers do not depend on pointer width or byte order",
  "On every target, 32-bit and big-endian ones included, each system, collection and set gives for each nominal of each type the same identifier or error as on a 64-bit little-endian one, as far as the target's usize can hold the nominal and the collection's length. NominalString's operations, comparisons and conversions give the same text and order there too.",
  ["configurations", "inputs", "histories"], "targets by pointer width and byte order; all systems, user-made collections and sets, nominals, types and string histories",
  "Tests run on the host only, where usize holds 64 bits and the least significant byte comes first.",
  [L, D, A, C, E, H, ET, N], [("as_usize, TryFrom<usize> and TryInto<usize> of UnsignedInteger", f"{L}: impl_positive_integer!"), ("count and index arithmetic", f"{D}: impl NominalSystem<T> for D"), ("byte buffer", f"{N}: impl InlineString")],
  ["try_to_nominal", "to_nominal", "NominalString"])
p("C28", "Collections and Chinese systems that compare equal format alike",
  "Two chains, restrictions, one-based forms or Chinese systems that compare equal format every nominal alike, and hash alike where they can be hashed. Those made of equal parts and lengths, or of options that come to the same, are equal, and so is every copy and clone to its original; == is symmetric and != its opposite. Default gives the plain form: a chain of defaults, a restriction to nothing, no options.",
  ["inputs", "configurations"], "all pairs of values by their parts, lengths and option histories; all nominals",
  "No test compares, copies or hashes a system or a collection.",
  [D, C], [("derives of Chain, Restrict, OneBased", f"{D}: Chain, Restrict, OneBased"), ("derives of the systems and of ChineseOptions", f"{C}: ChineseOptions, ChineseUsage, ChineseScale")],
  ["==", "Clone", "Hash", "Default", "try_format_nominal"])
p("C29", "Everything that is dropped gives back its heap memory",
  "Once the results of a formatting call, in any system, collection or set and behind any pointers, are dropped, the call has left no heap memory allocated. Neither has any history of a NominalString's operations, spilling, cloning, clone_from, comparing and conversion to and from String included, once the strings are dropped, and no failed operation either: memory does not grow with use.",
  ["histories", "inputs"], "all operation histories from every constructor, all formatting calls, whatever the storage",
  "No test observes the allocator, and upstream's Miri run covers two fixed histories.",
  [N, L], [("spill to the heap, try_into_string", f"{N}: impl MaybeInline"), ("impls for Box, Rc and Arc", f"{L}: NominalSystem for Box, Rc, Arc")],
  ["bytes requested from and returned to the global allocator"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        assert len(x["statement"].replace("..", "").split(". ")) <= 4, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
