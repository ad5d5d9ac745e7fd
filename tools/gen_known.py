"""Writes KNOWN_FINDINGS.md: the repairs come from /repo's fix: commits, so that
the hashes stay right."""
import subprocess, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# subject of the fix commit -> (property, what failed)
FIXED = [
 ("store the value scanned with an integer presentation into char", "C13", 'scan<char>("65", "{:d}") succeeded without storing the value'),
 ("compare only letters case-insensitively in number prefixes", "C01", 'a 0x/0b prefix was recognised in text like "\\x10x1f" (bit 5 of a digit was ignored)'),
 ("accept floats without integral digits", "C02", '".5" with f/e/g or from a non-contiguous source, bare hex digits with {:a}, and "0x" gave an error or a different value than from a string'),
 ("never treat the read-ahead part of a non-contiguous source", "C03", "values and views read from a non-contiguous source stopped at what had been read ahead"),
 ("refuse a string_view into the temporary buffer", "C03", "a string_view into a temporary buffer was returned for a non-contiguous source"),
 ("size and check the visited-argument bookkeeping", "C08", "formats with 64 or more arguments overflowed the bookkeeping array and were not checked"),
 ("match literals by code point", "C07", "non-ASCII literals failed at run time; whitespace in the format at end of input was an error"),
 ("report an ill-formed code point as an error", "C11", "char32_t read from an ill-formed sequence returned garbage"),
 ("reject overlong, surrogate and out-of-range UTF-8", "C11", "overlong, surrogate and out-of-range sequences were decoded and returned"),
 ("find whitespace straddling the buffer boundary", "C03", "a word ended at a different place when a multi-byte whitespace straddled a buffer boundary"),
 ("don't read past the end of the input when matching a range bracket", "C17", "scanning a range from text without its closing bracket read past the input"),
 ("pass the given locale on when the format string is just", "C18", 'scan(locale, src, "{}") dropped the locale (custom types saw the classic one)'),
 ("accept the documented 'c' type for char", "C13", "{:c} was refused for char and wchar_t"),
 ("accept the documented 'O' integer type", "C01", "{:O} was refused for integers"),
 ("stop at the fill character for a left- or center-aligned string", "C10", 'scan<string>("ab**", "{:*<6}") swallowed the fill'),
 ("keep all of a wide fill character", "C09", "a wide fill beyond one byte was cut to its low byte"),
 ("%u is the ISO weekday", "C15", "%u stored Monday as 0 and Sunday as 6 or refused 7"),
 ("accept every day of the year with %j", "C15", "%j refused days or stored them one off in datetime_components"),
 ("store the short year and the century", "C15", "%y, %C and %D did not store the year in datetime_components"),
 ("accept %c without a locale", "C15", "%c was refused; weekday, day of month and day of year together were accepted"),
 ("don't skip the character after a multibyte literal", "C15", "the input character after a multi-byte literal in a chrono format was skipped"),
 ("don't dereference a failed result when no time zone", "C15", "%Z at text without a name dereferenced an empty result"),
 ("keep subseconds below 1.0", "C15", "59.9999999... rounded subseconds to 1.0"),
 ("report an error when the format string doesn't set", "C15", "month/weekday/day/year scanned with a format that does not set them returned an uninitialised value"),
 ("continue localized date and time scanning", "C15", "after a localized field scanning continued at the wrong place"),
 ("localized month names don't depend on fast_float", "C15", "localized month names were compiled out"),
 ("compare only letters case-insensitively in month", "C15", "month, weekday and AM/PM names matched text differing in bit 5 of non-letters"),
 ("detect overflow of integers with the maximum number of digits", "C01", "literals with as many digits as the type's maximum wrapped in some bases"),
 ("report end of input instead of reading a code point past it", "C13", "a code point scan at the end of the input read past it"),
 ("keep the ASCII part of a [character set] range", "C10", "[a-\\u00e4] lost its ASCII members"),
 ("don't replace a scanning error with an unexhausted", "C07", "a literal mismatch was reported as an invalid format when fields were left"),
 ("don't skip ill-formed code points", "C11", "ill-formed bytes were skipped as whitespace or accepted as members of a set"),
 ("don't advance in the missing buffer of an unreadable FILE", "C06", "scanning a FILE opened for writing hit an assertion"),
 ("make the compile-time parse context usable", "C08", "no format string compiled with gcc in C++20"),
 ("require the digits of a field precision", "C08", "{:.} and {:5.} were accepted"),
 ("don't take the end of an empty format specifier", "C08", '"{:}<" was taken as a fill and alignment'),
 ("reject an ill-formed fill character", "C08", "an ill-formed UTF-8 fill was accepted at run time"),
 ("reject mixed automatic and explicit argument numbering", "C08", '"{} {0}"-like formats were accepted at run time'),
 ("stop at an invalid format specifier instead of parsing", "C08", "after an invalid specifier the format was parsed again and text consumed twice"),
 ("reject surrogates in 4-byte wide text", "C11", "surrogate values in wide text were returned as code points and transcoded"),
 ("remove thousands separators before changing", "C14", 'with decimal point "," and separator "." (de_DE) "1.234,5" was read as 12345'),
 ("try the longer of the localized names", "C14", "a localized bool name that begins with the other name could not be read"),
 ("don't skip whitespace before a regex when scanning regex_matches", "C12", 'scan<regex_matches>("  abc", "{:/[a-z]+/}") skipped whitespace that the regex does not match'),
 ("don't take null characters for thousands", "C14", "null characters after an integer were consumed with {:L} in a locale without grouping"),
 ("don't expect a regex when the specifier", "C12", 'scan<regex_matches>(src, "{:s}") failed an assertion instead of giving an error'),
 ("keep back-references working", "C12", "a regex with a back-reference was refused or misread when scanned into a string"),
 ("give a regex match the name of its own", "C12", "(Boost) groups and the whole match got the name of another group with the same text"),
 ("report ill-formed text as an error with Boost", "C12", "(Boost+ICU) ill-formed text or pattern made an exception escape from scan"),
 ("report a mismatching literal in a chrono format", "C15", "text not matching a literal of a chrono format was reported as an invalid format string"),
 ("read %OW in a chrono format", "C15", "%OW (a week number) was accepted and read a weekday"),
 ("treat non-ASCII whitespace in a wide chrono format", "C15", "in a wide chrono format, U+0085 or U+2028 had to match literally"),
 ("refuse months past 12", "C15", "month 13 to 31 was accepted for month_day, year_month and year_month_day"),
 ("round subseconds to the nearest nanosecond", "C15", "12:34:56.001 gave a time_point<ms> of .000; time points outside the range of nanoseconds wrapped (undefined behaviour)"),
 ("give std::time_get an iterator", "C15", "{:L%b} at the end of a non-contiguous source read past it (assertion)"),
 ("read nested sources past the chunk", "C15", "%Z and nested scans repeated or lost text when the source's buffer ended within it (FILE with buffer 9: 19%60-0112-a.m.-EST5EDT 12)"),
 ("let istream extraction put characters back", "C17", "istream extraction of a user-defined type could put back one character only (assertion or wrong text after two)"),
 ("refuse L for regex_matches", "C16", 'scan<regex_matches>(src, "{:L}") failed an assertion'),
 ("read regexes at the end of a contiguous source in nested", "C16", "a regex in a nested scan at the end of a string read a null pointer"),
 ("define the scanners of bool, char32_t and void*", "C17", "a scanner inheriting from scanner<bool>, scanner<char32_t> or scanner<void*> did not link"),
 ("keep the error of a literal before an argument", "C17", 'scan<string, Custom>("!!!", "{}!{:spec}") reported an invalid format string instead of the literal'),
 ("scan localized values with the locale of the context", "C17", "{:L} in a scanner inheriting from a built-in one ignored the locale passed to scan"),
 ("report invalid specifiers of built-in scanners used", "C17", '"{:L}" for a type inheriting from scanner<std::string> was accepted'),
 ("define the scanners of both character types", "C18", "scan_value or a discard of a wide-character type from a narrow source, and scanners of the other character type, did not link"),
 ("don't pass results holding non-trivial values", "C19", "with clang, passing the result of scan<std::string> by value copied its bytes (crash or wrong string)"),
 ("assign results over errors when copying", "C19", "assigning a result with a throwing move constructor over an error did not compile, ended the program when the copy threw, or lost the exception"),
 ("destroy the error when emplacing", "C19", "emplace over an error constructed the value without destroying the error, and left a broken object when it threw"),
 ("don't leak a default-constructed value", "C19", "converting a result to one of another type leaked a default-constructed value"),
 ("don't change the global C locale to parse floats", "C20", "wide, long double, out-of-range and localized floats were parsed under setlocale: concurrent scans gave wrong values and left the process in another locale"),
 ("keep a FILE locked while putting characters back", "C20", "another thread could read a FILE while a failed scan had put back only part of what it had read: torn numbers"),
 ("notice a month name next to another month", "C08", "{:%B %m} (and %D, %F after a month name) passed the compile-time check and was an invalid format when scanned"),
 ("notice seconds read twice by %S and %.S", "C08", "{:%S %.S} passed the compile-time check and was an invalid format when scanned"),
 ("reject integer specifiers for char32_t", "C08", "{:d}, {:x} ... for char32_t passed the compile-time check and were invalid formats when scanned"),
 ("read twelve o'clock with %OI", "C15", "{:L%OI} refused 12"),
 ("compile without exceptions", "C21", "with -fno-exceptions, src/scn/impl.h used try and catch and did not compile"),
 ("compile with SCN_DISABLE_CHRONO", "C21", "SCN_DISABLE_CHRONO=1 did not compile (chrono functions defined without their declarations)"),
 ("compile chrono without strings", "C21", "SCN_DISABLE_TYPE_STRING=1 did not compile because of the time zone names of chrono"),
 ("scan regex_matches with SCN_DISABLE_TYPE_CHAR", "C21", "SCN_DISABLE_TYPE_CHAR=1 also refused regex_matches"),
 ("scan ranges and tuples from wide sources", "C17", "scanning a container or tuple from a wide source did not compile"),
 ("respect max_size when scanning into a container", "C17", "more elements than max_size() were added to a container (its detection of max_size never matched)"),
 ("let a null empty view be a source", "C15", "chrono types and nested scans on an empty vector hit an assertion"),
]
log = {}
for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        log[s[5:]] = h
out = ["# Known findings", "", "Genuine defects of scnlib found by the checks. `fixed:` entries were repaired in /repo and suppress nothing.", ""]
seen = set()
try:
    from known_more import FIXED as more
    FIXED += more
except ImportError:
    pass
for sub, pid, what in FIXED:
    c = [(h, s) for s, h in log.items() if s.startswith(sub)]
    assert len(c) == 1, (sub, c)
    seen.add(c[0][1])
    out.append(f"fixed: property={pid} {c[0][0]} {what}")
for s in log:
    assert s in seen, "not recorded: " + s
# findings that are recorded, not repaired
p = os.path.join(HERE, "tools", "known_open.txt")
if os.path.exists(p):
    out += ["", open(p).read().rstrip()]
open(os.path.join(HERE, "KNOWN_FINDINGS.md"), "w").write("\n".join(out) + "\n")
