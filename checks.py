"""What each check is: shared by run.py (evidence) and tools/gen_manifest.py."""

COMMON = ("Random search over generated cases with a fixed seed: it can show a violation, never its absence. "
          "Trusts the reference model / oracle in src/, clang 18, libstdc++ and glibc; code under test is compiled "
          "from /repo's working tree with assertions, AddressSanitizer and UndefinedBehaviorSanitizer on.")

D = ["disp_n.cpp", "disp_w.cpp"]
T = ["tuples_n.cpp", "tuples_w.cpp"]
KINDS = "string view, string, vector, pointer range, deque, list, forward_list, lazy view or FILE with a random buffer size"

CHECKS = {
    "C01": dict(
        srcs=["c01.cpp"] + D,
        technique="property-based testing against an exact-arithmetic reference model",
        rule="A case is an (integer type, presentation, text, source kind, character type) tuple. Texts are built around "
             "literals at type boundaries, powers and random bit lengths, then damaged; short strings over a 14-character "
             "alphabet and all values in [-70000,70000) are enumerated. Non-trivial: the model says the text starts with "
             "a literal (a value or an overflow); distinct by text, type and presentation.",
        note="Exact 128-bit model of sign, prefix, digits, range and remainder; also scan_int for every base 2..36 and 0."),
    "C02": dict(
        srcs=["c02.cpp"] + D,
        technique="property-based testing: differential against strtof/strtod/strtold behind an independent grammar, and print/scan round trips",
        rule="A case is a (float type, presentation, text, source kind, character type) tuple; texts are decimal, scientific, "
             "hexadecimal, infinity and nan spellings near type limits, halfway points and random bits, then damaged; all short "
             "strings over a float alphabet are enumerated. Non-trivial: the text starts with a literal or a printed value is "
             "scanned back; distinct by text, type and presentation.",
        note="Value compared bit for bit with the C library's conversion of the literal the model delimits; codes for range errors."),
    "C03": dict(
        srcs=["c03.cpp"] + D + T,
        technique="property-based differential testing of one scan across nine kinds of source",
        rule="A case is one (types, format, text) scanned from a string view and from another kind of source (" + KINDS + "); "
             "texts include long whitespace and values crossing buffer boundaries, and arbitrary bytes. Non-trivial: the view "
             "scan succeeds or consumes something before failing; distinct by format, text and kind.",
        note="Values, error code and consumed amount must be equal."),
    "C04": dict(
        srcs=["c04.cpp"] + D + T,
        technique="property-based differential testing of narrow against wide scanning",
        rule="A case is a (types, format, text) of Unicode scalar values scanned as UTF-8 and as wide text. Non-trivial: the "
             "format is valid; distinct by format and text.",
        note="Success, code, values after transcoding and consumed code points must be equal."),
    "C05": dict(
        srcs=["c05.cpp", "c05_many.cpp"] + D + T,
        technique="property-based metamorphic testing: one scan against chained scans, permuted explicit numbering, repeated scans",
        rule="A case is a sequence of fields and separators with a text for it, scanned in one go and field by field from the "
             "returned remainder. Non-trivial: at least one field was scanned; distinct by format and text.",
        note="Values, final remainder, unchanged source, same outcome when repeated, values in argument order."),
    "C07": dict(
        technique="property-based testing against a reference matcher; every Unicode code point enumerated",
        rule="A case is a format of literals, whitespace and fields with a matching or damaged text; every code point is also "
             "tried as a literal, as whitespace in the text and as whitespace in the format. Non-trivial: the format has "
             "literal or whitespace pieces and the model decides the outcome; distinct by format and text.",
        note="The reference matcher says which prefix each literal and whitespace piece consumes."),
    "C06": dict(
        technique="stateful property-based testing: histories of scans and C/C++ stream operations on one FILE, with injected short reads, read errors and early end of file",
        rule="A case is a stream (fmemopen, temporary file, pipe, or a cookie with short reads and faults; unbuffered, fully or "
             "line buffered with a random buffer size), a text, and up to 15 operations out of scan, scan_value, fgetc, fgets, fread, "
             "fscanf, ungetc, ftell, fseek, istream extraction, and the rest of the stream appearing. Non-trivial: at least one scan; "
             "distinct by text, stream and history.",
        note="The model is the sequence of characters not yet read; each operation and the final content must agree with it."),
    "C08": dict(
        srcs=["c08.cpp", "c08_chr.cpp"] + D + T, gen=["gen_c08ct.py", "gen_c08chr.py"], gen_srcs=["c08ct.cpp", "c08chr.cpp"], gen_n=(2500, 12000), flags=["-DC08_CT"],
        std={"c08ct.cpp": ["-std=c++20"], "c08chr.cpp": ["-std=c++20"]},
        technique="property-based testing against an independent parser of the documented grammar, at run time and at compile time",
        rule="A case is an argument list and a format string (well-formed, then mutated 0-3 times) with a text that the pieces "
             "before the first error match; all specifiers of up to three characters are enumerated over a 40-character alphabet; "
             "thousands of formats generated from the seed, of built-in and of chrono types, are also put through the compile-time check in C++20. Non-trivial: the "
             "grammar decides validity; distinct by format and argument list.",
        note="Valid formats must never give an invalid-format error, invalid ones must never succeed and must give that error when reached."),
    "C09": dict(
        srcs=["c09.cpp"] + D,
        technique="property-based testing against a reference model of fill, alignment, width and precision",
        rule="A case is a field with fill/alignment/width/precision, a type and a text of fills around a value, then damaged; "
             "small combinations for int and string are enumerated. Non-trivial: the specifier has framing and the model "
             "decides the outcome; distinct by specifier, type and text.",
        note="The model strips fills, cuts at precision by display width, applies the value model, and checks the width."),
    "C10": dict(
        srcs=["c10.cpp"] + D,
        technique="property-based testing against a reference model of words, {:c} and character sets",
        rule="A case is a string specifier (none, s, c, [set]) with a text of members and non-members, into strings and views of "
             "both character types; membership of every ASCII code point and of range neighbourhoods is enumerated. "
             "Non-trivial: the model decides the outcome of a non-empty text; distinct by specifier and text.",
        note="Also that a view points at the very source characters and equals the string."),
    "C11": dict(
        srcs=["c11.cpp"] + D,
        technique="property-based testing: exhaustive code points, round trips through both encodings, and ill-formed text against an independent UTF-8 validator",
        rule="A case is a text of code points scanned as strings of the other character type or code point by code point from any "
             "kind of source (every Unicode scalar value is enumerated), or a text with one ill-formed sequence (stray, truncated, "
             "overlong, surrogate, out of range) after a well-formed part. Non-trivial: the text has a non-ASCII or ill-formed part "
             "or the enumeration block is run; distinct by text, specifier and kind of source.",
        note="Transcoded values must equal the code points written; nothing of an ill-formed sequence may be consumed or returned."),
    "C12": dict(
        variants=[dict(name="std", regex=0, share=0.5),
                  dict(name="boost", regex=1, flags=["-DSCN_REGEX_BOOST_USE_ICU=1"], libs=["-licuuc", "-licui18n", "-licudata"], share=0.5)],
        technique="property-based testing: differential against the regex engine called directly, for the std and the Boost+ICU backends",
        rule="A case is a regular expression generated as a syntax tree (classes, groups, names, quantifiers, assertions, "
             "back-references, escaped slashes) with flags, in a format with literals and a following field, and a text built to "
             "match, then often damaged. Non-trivial: the engine accepts the regex; distinct by regex, flags, text and target type.",
        note="Match, length, every group and its name must be what the engine reports when anchored at the field's position.",
        assumptions=["Regular expressions on which the engine itself backtracks exponentially, or (Boost) whose own parser reads out of bounds, are not generated."]),
    "C13": dict(
        srcs=["c13.cpp"] + D,
        technique="property-based testing against a reference model, and print/scan round trips",
        rule="A case is a bool, character or pointer field with a spelling, near-miss or code unit; all code units are "
             "enumerated. Non-trivial: the text is not empty and the model decides the outcome; distinct by type, specifier "
             "and text.",
        note="Exact spellings, remainders and errors."),
    "C14": dict(
        srcs=["c14.cpp"] + D, flags=["-DH_LOCALE"],
        technique="property-based testing: print/scan round trips in generated locales, and invariance under locale changes",
        rule="A case is a number or boolean printed by an ostream in a locale (system locales, or random separator, decimal point, "
             "grouping and names), scanned with L in that locale from a random source; or a field without L scanned with and "
             "without a locale passed, globally installed or set with setlocale. Non-trivial: the printed text differs from the "
             "classic one, or a locale change is applied; distinct by text, format and locale.",
        note="Values and remainders must be those of the classic spelling; without L nothing may change."),
    "C15": dict(
        flags=["-DH_LOCALE"],
        variants=[dict(name="cxx17", share=0.6), dict(name="cxx20", flags=["-std=c++20"], share=0.4)],
        technique="property-based testing against a reference reader of chrono formats, strftime/put_time round trips, exhaustive numbers per specifier",
        rule="A case is a chrono format (any specifiers with modifiers, literals, whitespace), a target type (tm, tm_with_tz, "
             "datetime_components, calendar types, time points), and a date spelled for the format, damaged in a third of the "
             "cases; or the text that strftime or put_time in a locale prints. Every number up to 9999 is enumerated for each "
             "numeric specifier. Non-trivial: the reference reader decides the outcome; distinct by format, text and type.",
        note="Fields, remainder and error or success must be the reference reader's; the process time zone varies for time points.",
        assumptions=["Localised names and representations are the C++ library's time_get facet's, called directly.",
                     "Left open: space-padded numbers, what %x means beyond the library's own spelling, time zone minutes over 59, "
                     "fields beyond what a calendar type needs."]),
    "C16": dict(
        srcs=["c16.cpp", "rob_n.cpp", "rob_w.cpp"] + D + T,
        technique="fuzzing with AddressSanitizer, UBSan and assertions: arbitrary bytes as input and format for random type lists and sources",
        rule="A case is a format (random bytes, spliced spec fragments, or a valid format mutated), an input (random bytes, or text "
             "made for the format, mutated), a list of types (built-in, regex, chrono, containers, user-defined) and a source; or one "
             "large input, number, field width or format. Non-trivial: the scan got past the format (it succeeded or failed on the "
             "input), or the case is a large one; distinct by format, input and types.",
        note="Every scan must return, without a sanitizer report, a failed assertion or an escaping exception, within a time limit that "
             "a linear scan keeps by a wide margin; a success must consume no more than the input has.",
        assumptions=["Regexes whose matching is exponential by nature or overflows the engine's recursion are not generated."]),
    "C17": dict(
        srcs=["c17.cpp", "c17_n.cpp", "c17_w.cpp", "c17_r.cpp"], flags=["-DH_LOCALE"],
        technique="property-based testing: differential between user-defined types and their parts, containers against a composed reader",
        rule="A case is a user-defined type whose scanner delegates to a nested scan, inherits a built-in scanner, reports an error "
             "or reads through an istream with random operations, or walks over the source itself; or a container, map or tuple in written form, damaged in half of "
             "the cases. The text, the format around it and the source are random. Non-trivial: the format is accepted; distinct by "
             "format, text, type and route.",
        note="Value, remainder and error must be those of the parts scanned directly (of a std stringstream for istream types); the "
             "type's parse() must see exactly its specifier and its scan() the locale of the call."),
    "C18": dict(
        srcs=["c18.cpp", "rob_n.cpp", "rob_w.cpp"] + D + T, flags=["-DH_LOCALE", "-DH_ROUTE"],
        technique="property-based differential testing of every public entry point against the general typed scan",
        rule="A case is a (types, format, text, source kind, character type) and an entry point: scan_value, scan with initial values, "
             "vscan and vscan_value into argument lists, explicit locale, input, prompt, a discarded field, a session of several inputs on "
             "standard input, or scan_int for every base. Non-trivial: the general scan succeeds or fails after reading; distinct by "
             "entry point, format and text.",
        note="Values, error code, consumed amount, prompt text and the stream's state must be equal."),
    "C19": dict(
        technique="model-based stateful property-based testing of operation histories on results, with tracked elements and injected exceptions",
        rule="A case is three results (of one of seven value/error type pairs) and up to ten operations out of copy, move, assign, emplace, "
             "pass by value, convert and the monadic ones, a third of them with an exception injected at one of the element operations; or two "
             "real scan results handed around. Every case is non-trivial; distinct by history (or texts).",
        note="The model is an (is value, number) pair per result; element objects register their address, so leaks, double destruction, "
             "bytewise moves and construction over live objects are seen."),
    "C21": dict(
        module_srcs=["c21_mod.cpp"], libs=["-ldl"],
        # what the library offers as build options (docs/pages/mainpage.md), and other compilers, standards and optimisation
        modules={
            "default": ("clang++", []),
            "noexc": ("clang++", ["-fno-exceptions", "-fno-rtti"]),
            "nolocale": ("clang++", ["-DSCN_DISABLE_LOCALE=1"]),
            "noio": ("clang++", ["-DSCN_DISABLE_IOSTREAM=1"]),
            "nochars": ("clang++", ["-DSCN_DISABLE_FROM_CHARS=1"]),
            "noregex": ("clang++", ["-DSCN_DISABLE_REGEX=1", "-DSCN_DISABLE_CHRONO=1"]),
            "types": ("clang++", ["-DSCN_DISABLE_TYPE_%s=1" % t for t in ("SCHAR", "USHORT", "FLOAT", "LONG_DOUBLE", "CHAR32", "POINTER", "STRING_VIEW")]),
            "notext": ("clang++", ["-DSCN_DISABLE_TYPE_%s=1" % t for t in ("STRING", "DOUBLE", "CHAR", "BOOL", "SHORT", "LONG_LONG", "ULONG")]),
            "cxx20": ("clang++", ["-std=c++20", "-O1", "-DNDEBUG"]),
            "cxx23gcc": ("g++", ["-std=c++23", "-O2", "-DNDEBUG"]),
            "minimal": ("g++", ["-std=c++17", "-O1", "-funsigned-char", "-DNDEBUG", "-fno-exceptions", "-fno-rtti", "-DSCN_DISABLE_LOCALE=1", "-DSCN_DISABLE_IOSTREAM=1", "-DSCN_DISABLE_REGEX=1", "-DSCN_DISABLE_CHRONO=1"]),
        },
        technique="property-based differential testing: the same scan in eleven builds of the library",
        rule="A case is a type (built-in, several fields, discarded, user-defined, chrono, regex, containers, istream, scan_int), a format "
             "made for it or from arbitrary pieces, a text (ill-formed in some), a character type and a source. Non-trivial: the default "
             "build accepts the format; distinct by text, format, type and source.",
        note="Every build with a documented option must compile and give the value, consumed input or error of the default build.",
        assumptions=["Formats with L are not compared in builds without locales, regular expressions not in builds without exceptions or "
                     "regex; SCN_DISABLE_STRTOD (which leaves some floats unreadable) and the fast_float and RE2 backends are not built."]),
    "C20": dict(
        srcs=["c20.cpp"] + D,
        variants=[dict(name="asan", share=0.7),
                  dict(name="tsan", share=0.5, san=["-O0", "-gline-tables-only", "-fsanitize=thread"])],
        technique="property-based testing of concurrent schedules: threads with generated scans against the same scans alone, under AddressSanitizer and ThreadSanitizer; histories on one FILE",
        rule="A case is two to five threads, each with a list of generated scans (every built-in type, regexes, chrono, locales, files) in a random "
             "C locale, on sources of their own or on one string; or threads that read numbers from one FILE through scans, failing scans, "
             "input, fscanf and fgets in a random order with a small buffer; or one scan of a FILE during which another thread tries to lock it. "
             "Non-trivial: at least two threads ran (for the lock: it was tried during the scan); distinct by the scans, operations and texts.",
        note="Outcomes must be those of the scans alone, the process's C locale unchanged, no data race; of a shared FILE every number is read once, "
             "whole and in order; the lock is held throughout a scan and free after it.",
        assumptions=["Schedules are the operating system's, over many repetitions; data races in uninstrumented C library code are not seen.",
                     "Sources that are modified while scanned, and iterators or views sharing one stateful range, are not shared between threads."]),
}
ORDER = sorted(CHECKS)
