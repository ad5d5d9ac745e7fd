#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the long strings stay readable)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, I, C, X, R, T, W = ("include/scn/scan.h", "src/scn/impl.h", "src/scn/impl.cpp",
                      "include/scn/chrono.h", "include/scn/ranges.h",
                      "include/scn/istream.h", "include/scn/xchar.h")
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Scanned integers are exact, complete and never wrapped",
  "For every integer type and every integer presentation (default, d, u, i, b/B, o, x/X), a successful scan yields exactly the mathematical value of the longest prefix of the input (after skipped leading whitespace) that is a valid literal of that base - optional sign, optional base prefix where allowed, digits in either case, any number of leading zeros - and the remaining input starts right after that literal. "
  "A literal whose value lies outside the type's range reports positive or negative overflow, never a wrapped or clamped success, and text with no such literal (including a minus sign for unsigned types) reports an invalid value or, when there is nothing left to read, end of input. "
  "The dedicated integer parsers (integer from text with an explicit base 2 to 36, and the fast path for known-valid decimal text) agree with the same arithmetic.",
  ["inputs"], "all texts, all integer types, all presentations and bases, narrow and wide",
  "The test-suite samples a few dozen literals per type; the digit-by-digit accumulation, SIMD-within-a-register fast path and overflow tests depend on the exact number of digits, base and boundary value.",
  [I, C, S], [("integer scanning and prefix parsing", f"{I}: reader_impl_for_int, parse_integer_value, parse_integer_prefix"),
              ("digit accumulation and overflow", f"{C}: parse_integer_value / int accumulator, scan_int_impl, scan_int_exhaustive_valid_impl")],
  "value, error code and remaining input of scan / scan_int")

p("C02", "Scanned floating-point values are correctly rounded and complete",
  "For float, double and long double and every floating presentation (default, a, e, f, g), a successful scan returns exactly the value the C library's correctly rounded conversion gives for the longest prefix of the input that is a literal of the requested format (decimal fixed, decimal scientific, hexadecimal, infinity, nan with optional payload), bit for bit and with its sign, and the remaining input starts right after that literal. "
  "Magnitudes too large or too small for the type are reported as overflow or underflow with the right sign instead of a silently wrong value, and text with no such literal is an invalid-value error.",
  ["inputs"], "all texts, the three floating types, all presentations, narrow and wide",
  "Correct rounding, long mantissas, exponents at the limits and partial literals (1e, 0x, infin, nan() form an unbounded input space; the tests have a few dozen literals, mostly short.",
  [I, C], [("literal recognition", f"{I}: float_reader / float_reader_base, reader_impl_for_float"),
           ("conversion", f"{C}: impl_parse_float, from_chars / strtod back ends")],
  "bit pattern, error code and remaining input")

p("C03", "The kind and segmentation of the source never changes the outcome",
  "Scanning the same characters with the same format yields the same values, the same success or error code and the same amount of consumed input whether the source is a string view, a string, a character array, a contiguous container, a random-access, bidirectional or forward non-contiguous range, a lazily transformed view, an FILE-backed stream, and wherever segment or buffer boundaries fall. "
  "The only exceptions are the documented ones: views into the source and regular expressions are refused as errors (never dangling results) when the source is not contiguous.",
  ["inputs", "configurations"], "all inputs x formats x argument types x kinds of source range x positions of segment boundaries",
  "Tests run almost everything on contiguous strings; the non-contiguous code paths are separate implementations and are exercised by a handful of short inputs.",
  [S, I, C], [("source adaptors and segmented iteration", f"{S}: basic_scan_buffer, forward_iterator; {I}: read_* algorithms, take_width_view"),
              ("contiguous / non-contiguous dispatch", f"{I}: default_arg_reader, arg_reader, is_segment_contiguous")],
  "values, error code, consumed length over a family of sources")

p("C04", "Narrow and wide scanning are equivalent",
  "For every text and format, scanning the UTF-8 form with a narrow format and scanning the wide form with the wide format succeed or fail together with the same error code, give the same values (strings equal after transcoding) and consume the same code points.",
  ["inputs", "configurations"], "all valid Unicode texts and formats, all built-in argument types",
  "The wide instantiation is covered by a small copy of the narrow tests, none of which compare the two.",
  [I, C, W], [("wide instantiations", f"{C}: vscan_impl for wchar_t; {W}: wide entry points"),
              ("code-unit-type specific branches", f"{I}: if constexpr on char type in readers and fill handling")])

p("C05", "Every scan accounts for each input character exactly once",
  "A successful scan consumes a prefix of its source, and the returned remaining range is exactly the unread suffix, so scanning fields one at a time - each continuing from the previous remaining range - gives the same values and the same final remainder as scanning them all with one format. A source that is gone when the result is used gives the same values and no range to read. "
  "Result values are delivered in argument order for automatic and for explicit argument numbering, the type-erased argument list a scan is driven by refers to exactly those values in that order, scanning is deterministic, the source is never modified, and a failed scan yields an error and no values.",
  ["inputs", "histories"], "all inputs, all formats, all ways of splitting one scan into a chain of scans, all argument permutations",
  "The tests chain at most two scans on fixed text; the law must hold for every split point, kind of source and kind of remaining range.",
  [S, C], [("result range construction", f"{S}: make_vscan_result_range, scan_result, borrowed/dangling tail"),
           ("format-driven advance", f"{C}: format_handler, vscan_parse_format_string")],
  "remaining range identity and chained-scan equality")

p("C06", "File scanning stays in step with the C stream position",
  "Scanning from a FILE* consumes exactly the characters the scan accepted and a failed scan leaves the stream where it was, so any history that interleaves scans through this library with C stdio reads, line reads, character push-back, position queries and further scans observes each character of the file exactly once and in order. "
  "End of file and stream errors surface as scan errors, never as values or an endless loop.",
  ["histories", "inputs", "fault_sequences"], "all file contents, buffering modes and buffer sizes, and interleavings of scans with C stdio operations",
  "Tests scan one or two values from a short temporary file; hand-back of read-ahead characters depends on the stdio buffer state at each point of the history.",
  [S, C], [("file buffer and sync", f"{C}: scan_file_buffer, stdio_file_interface sync/unget; {S}: basic_scan_file_buffer"),
           ("FILE entry points", f"{C}: vscan FILE overloads, input/prompt")],
  "ftell/fgetc/fgets after each scan")

p("C07", "Literal text and whitespace in a format match as documented",
  "A non-whitespace code point in a format string (with {{ and }} standing for single braces) consumes exactly one identical code point or fails with an invalid-literal error, and a whitespace code point consumes any and all consecutive whitespace available, possibly none, including at the end of the input. "
  "Whitespace is exactly the documented set: ASCII whitespace, U+0085, U+200E, U+200F, U+2028 and U+2029.",
  ["inputs"], "all formats with literals and whitespace, all inputs",
  "Tests use a handful of ASCII literals; multi-byte literals, whitespace runs of every kind and end-of-input positions are unbounded.",
  [C, I], [("literal matching", f"{C}: format_handler::on_literal_text"), ("whitespace classification", f"{I}: is_cp_space, read_while_classic_space")])

p("C08", "Invalid format strings are rejected, valid ones accepted",
  "A format string is accepted exactly when it follows the documented grammar, each presentation type is allowed for its argument, and it refers to every argument exactly once with valid, unmixed automatic or explicit numbering; anything else is reported as an invalid-format error at run time before that field yields a value, for any number of arguments. "
  "The compile-time check accepts and rejects the same format strings as the run-time check, chrono formats included (that a format lacks a field which a calendar type needs is reported only when scanning).",
  ["inputs", "programs"], "all format strings and argument lists, of any length, checked at compile time and at run time",
  "Tests list a few invalid strings for one or two arguments; the argument bookkeeping changes representation with the number of arguments.",
  [S, C], [("format parsing", f"{S}: parse_format_string, parse_format_specs, specs_checker, format_string_checker"),
           ("argument accounting", f"{C}: format_handler_base")])

p("C09", "Width, precision, fill and alignment bound what a field consumes",
  "Precision is a hard maximum and width a hard minimum on the display width a field consumes, fill characters included and double-width code points counting two: a field never consumes more than its precision, and consuming less than its width is a length-too-short error. "
  "Alignment removes exactly the fill code points before (>), after (<) or on both sides (^) of the value, and the value itself is what the same scan gives on the text between the fills.",
  ["inputs"], "all inputs x fill code points x alignments x widths x precisions x argument types",
  "The cross product of fill width, value, precision cut-off point and alignment is sampled by a few ASCII tests.",
  [I], [("field framing", f"{I}: arg_reader::impl, impl_prefix, impl_postfix, skip_fill, check_widths_for_arg_reader"),
        ("width-limited view", f"{I}: take_width_view, calculate_text_width")])

p("C10", "Scanned strings are exactly the characters their specifier denotes",
  "A word is the maximal run of non-whitespace after leading whitespace (stopping also at the fill for < and ^ alignment), c copies the next characters up to its precision without skipping any, and a [...] set copies the maximal non-empty run of code points that belong to the (possibly inverted, range-containing) set, for narrow and wide strings and views alike. "
  "A scanned string view refers to the very characters of the source, and strings and views always hold the same text.",
  ["inputs"], "all texts, all set specifications, all string types",
  "Tests use few sets and short ASCII words; set membership has ASCII bitmap and non-ASCII range representations with distinct code.",
  [I, S], [("string readers", f"{I}: reader_impl_for_string, word_reader, custom_word_reader, character_reader, character_set_reader"),
           ("set parsing", f"{S}: parse_presentation_set, specs_setter::on_charset_*")])

p("C11", "Text is transcoded losslessly and invalid encodings are never accepted",
  "For every sequence of Unicode scalar values, scanning between narrow text and wide strings or code points yields exactly the same code points, no matter where a multi-byte sequence falls relative to buffer boundaries. "
  "A string or code point read from ill-formed UTF-8 (overlong, surrogate, out of range, truncated or stray bytes) is reported as an error instead of being returned, decoded or read beyond.",
  ["inputs"], "all valid code point sequences and all byte sequences",
  "Tests contain about twenty encoded samples; UTF-8 validity is a property of every byte sequence, and there are SIMD-free fast paths per length.",
  [I, S, C], [("decoding and validation", f"{I}: get_next_code_point, validate_unicode, transcode_to_string; {S}: utf_code_point_length_by_starting_code_unit"),
              ("code point reader", f"{I}: code_point_reader")])

p("C12", "Regular-expression fields match like the regex engine, anchored",
  "A /regex/flags field on a contiguous source succeeds exactly when the regular expression matches at the current position, consumes exactly that match, and returns as string the matched text and as match results every capture group (with participation, text and, where supported, name), the same as the underlying regex engine reports with the same flags; escaped slashes stand for slashes. "
  "No match is an error that yields no value.",
  ["inputs"], "all regular expressions from a generated grammar, flags, inputs",
  "Tests use about ten fixed patterns; group participation, empty matches, escapes and flags combine freely.",
  [I, "include/scn/regex.h", S], [("regex reader", f"{I}: read_regex_string_impl, read_regex_matches_impl, get_unescaped_regex_pattern"),
                              ("regex spec parsing", f"{S}: parse_presentation_regex")])

p("C13", "Booleans, characters and pointers decode their exact spellings",
  "A bool accepts exactly true/false (text presentation), 0/1 (numeric presentation) or either (default) and consumes only that spelling; a character takes exactly one code unit (code point for a 32-bit character) without skipping whitespace, or with an integer presentation the integer of that type; a pointer takes exactly a hexadecimal number with optional 0x. "
  "Everything else is an error, and printing such a value and scanning it back restores it.",
  ["inputs"], "all inputs, all presentations of the three kinds",
  "The tests check the listed spellings but not their neighbourhood (prefixes, suffixes, case variants, all code units).",
  [I], [("bool reader", f"{I}: bool_reader, reader_impl_for_bool"), ("char readers", f"{I}: reader_impl_for_char, reader_impl_for_wchar, reader_impl_for_code_point"),
        ("pointer reader", f"{I}: reader_impl_for_voidptr")])

p("C14", "Only explicit localization consults a locale",
  "Without the L flag, results never depend on the global C or C++ locale or on a locale passed to the scan. "
  "With L, integers and floats written with that locale's thousands grouping and decimal point, and that locale's names of true and false, are read back as the numbers and booleans they spell, and separators standing elsewhere between the digits never turn it into a different number.",
  ["inputs", "configurations"], "all numbers, all synthetic locales (separators, groupings, bool names), all global-locale settings",
  "Localized tests use one or two real locales and a few numbers; grouping rules and separators vary freely.",
  [I, C], [("numeric punctuation", f"{I}: localized_number_formatting_options, check_thsep_grouping, reader_impl_for_int/float localized branches"),
           ("locale plumbing", f"{C}: vscan_localized_impl, set_clocale_classic_guard")])

p("C15", "Dates and times scan back to the fields that were written",
  "For every calendar time and every chrono format string made of supported specifiers and literals, scanning the text that the C library's time formatting (or the specifier's documented spelling) produces yields the corresponding calendar fields, the same for a C time structure, its wrapper with time zone, date-time components, weekday/month/day/year types and time points. "
  "Out-of-range or non-matching text, times that the scanned type cannot represent, and formats that repeat or contradict a field or lack one that the scanned type needs, are errors rather than values or crashes.",
  ["inputs"], "all times, all chrono specifiers and their combinations",
  "Tests check one fixed date with a few specifiers.",
  [X, C], [("chrono parsing", f"{X}: parse_chrono_format_specs, chrono scanners"),
           ("field readers", f"{C}: datetime reader, setter_state, tm/datetime_components setters")])

p("C16", "No input or format can cause undefined behaviour or a hang",
  "For every byte sequence used as input and every byte sequence used as run-time format, for every argument type and kind of source, a scan terminates with a value or an error without invalid memory access, undefined behaviour, assertion failure or unbounded work, and with scanned results that are themselves valid to read.",
  ["inputs"], "all byte strings as input and format, all built-in argument types, narrow and wide sources",
  "Safety on all byte strings is a universal property; tests and the bundled fuzz corpus only sample it for contiguous sources and two argument types.",
  [I, C, S, X, R], [("all readers", f"{I}: readers and range algorithms"), ("format parsing", f"{S}: parse_format_string")],
  "sanitizer reports, assertions and a CPU-time limit")

p("C17", "User-defined and composite types scan by their parts",
  "A user-defined scanner that delegates to scanning its parts consumes and yields exactly what scanning those parts with the same format would, its own parse step sees exactly its spec text, its errors surface unchanged, and it sees the locale given to the scan; types readable through istream extraction consume exactly what the extraction consumed. "
  "Sequences, sets, maps and tuples scan back exactly from their documented bracketed, comma-separated text in narrow and wide sources, a container never gets more elements than its max_size, and text lacking a bracket, separator or element is an error that never reads past the input.",
  ["inputs", "programs"], "all nestings of ranges/tuples/custom types from a generated family, all element values, valid and damaged texts",
  "Tests have one example per container kind with well-formed input.",
  [R, T, S, C], [("range/tuple scanners", f"{R}: scanner specializations"), ("custom scanner contexts", f"{C}: get_custom_ctx; {I}: default_arg_reader custom handle"),
                 ("istream scanner", f"{T}: basic_istream_scanner")])

p("C18", "Convenience entry points agree with the general scan",
  "Scanning a single value directly equals scanning it with the default format, type-erased scanning into argument lists equals typed scanning, supplying initial values changes nothing but what a failed or untouched value would hold, a discarded field consumes exactly what the stored field would, reading from standard input or with a prompt equals scanning that stream, and passing a locale explicitly equals not passing one for unlocalized formats.",
  ["inputs", "programs"], "all inputs and argument types over all public entry points",
  "Each entry point has its own dispatch (including a shortcut for the trivial format) and is tested on one or two inputs.",
  [S, C, W], [("entry points", f"{S}: scan, scan_value, input, prompt, scan_int, vscan*; {W}: wide forms"),
              ("single-argument shortcut", f"{C}: scan_simple_single_argument, vscan_value_internal")])

p("C19", "Results are ordinary values",
  "A scan result (scan_expected and the expected it derives from) behaves like the value or error it holds: copying, moving, assigning, passing and returning by value, converting, emplacing, storing in containers and the monadic operations (and_then, transform, or_else, transform_error, value_or, error_or) give exactly what the contained value or error dictates, call their function exactly when they should, construct and destroy every contained object exactly once, let an exception thrown by the contained type's operations reach the caller, and leave every result involved holding a live value or error. Errors compare equal exactly when their codes do and convert to the std::errc of their kind.",
  ["histories", "faults"], "all sequences of operations on results of any value and error type, with exceptions at any element operation",
  "The tests use a few operations on int and std::string; object lifetimes, throwing elements and operation sequences are not covered.",
  [S], [("expected", f"{S}: expected_storage_base, expected_operations_base, expected, scan_expected"),
        ("results", f"{S}: scan_result")])

p("C20", "Concurrent scans do not interfere",
  "Scans that run concurrently in several threads, on separate sources or on the same unmodified string and locale, each give exactly the values, remainder and error they give alone, without data races and without changing the C locale of the process. "
  "When several threads read one FILE through scans, scans that fail, and C stdio calls, each call is atomic: a scan reads its whole text from consecutive positions, a scan that fails leaves the file where it was without other threads seeing it move, nothing is read twice or lost, and the file's lock is held for the duration of a scan and released after it, whether it succeeds, fails or throws.",
  ["schedules", "inputs", "histories"], "all schedules of all sets of scans on separate or shared sources",
  "No test starts a thread; interference depends on the schedule.",
  [S, I, C], [("file locking", f"{S}: stdio_file_interface lock/unlock/putback; {I}: basic_scan_file_buffer"),
              ("float parsing in the C locale", f"{C}: strtod_impl_base, set_clocale_classic_guard"),
              ("thread-local state", f"{S}, {C}: static and thread_local objects")],
  "a concurrent scan whose outcome differs from the same scan alone, a data race, a torn, lost or repeated number")

p("C21", "Build options change nothing but what they name",
  "The library compiles, and every scan a build still offers gives the same values, remainder and error as the default build, when it is built without exceptions and RTTI, with SCN_DISABLE_LOCALE, SCN_DISABLE_IOSTREAM, SCN_DISABLE_REGEX, SCN_DISABLE_CHRONO, SCN_DISABLE_FROM_CHARS or SCN_DISABLE_TYPE_x for other types, as C++17, C++20 or C++23, with gcc or clang, with or without optimisation and assertions.",
  ["inputs", "configurations"], "all scans that do not use what the option turns off, in all supported build configurations",
  "The tests run in one configuration; the alternative code of the others (no exceptions, no locale, strtod instead of from_chars, other standards) is never executed.",
  [S, I, C], [("conditional code", f"{S}, {I}, {C}: SCN_DISABLE_x, SCN_HAS_EXCEPTIONS, SCN_STD"),
              ("option defaults", "include/scn/fwd.h")],
  "a scan whose outcome differs between two builds, or a build that does not compile")

with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
