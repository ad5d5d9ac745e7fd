#include "gen.h"
#include "rob.h"
#include "tuples.h"

#include <sys/resource.h>
// C16: no input or format causes undefined behaviour, an assertion or a hang.
const char* const pbt::property_id = "C16";
namespace {
using namespace pbt;
using model::Ty;

// code units of either width; wide ones may be anything
using Units = std::vector<uint32_t>;
std::string narrow(const Units& u)
{
    return std::string(u.begin(), u.end());
}
std::wstring wide(const Units& u)
{
    return std::wstring(u.begin(), u.end());
}
void add(Units& u, const char* t)
{
    for (; *t; ++t) {
        u.push_back(static_cast<unsigned char>(*t));
    }
}
void add_cps(Units& u, const h::u32s& t, bool w)
{
    if (w) {
        u.insert(u.end(), t.begin(), t.end());
    }
    else {
        for (char c : h::utf8(t)) {
            u.push_back(static_cast<unsigned char>(c));
        }
    }
}
uint32_t unit(Src& s, bool w)
{
    if (!w) {
        switch (s.weighted({4, 2, 2})) {
            case 0: return static_cast<uint32_t>(s.range(0x20, 0x7e));
            case 1: return static_cast<uint32_t>(s.range(0x80, 0xff));
            default: return static_cast<uint32_t>(s.draw(256));
        }
    }
    switch (s.weighted({5, 1, 1, 1, 1, 1})) {
        case 0: return static_cast<uint32_t>(s.range(0x20, 0x7e));
        case 1: return static_cast<uint32_t>(s.draw(0x110000));
        case 2: return static_cast<uint32_t>(s.range(0xd800, 0xdfff));
        case 3: return static_cast<uint32_t>(s.range(0x10ff00, 0x110100));
        case 4: return static_cast<uint32_t>(s.range(0x7fffff00, 0x80000100));
        default: return ~static_cast<uint32_t>(s.draw(256));
    }
}
void mutate(Src& s, Units& u, bool w)
{
    for (size_t k = s.len(4, 1, 2); k > 0; --k) {
        size_t at = u.empty() ? 0 : s.draw(u.size() + 1);
        switch (s.draw(6)) {
            case 0: u.insert(u.begin() + static_cast<long>(at), unit(s, w)); break;
            case 1:
                if (at < u.size()) {
                    u.erase(u.begin() + static_cast<long>(at));
                }
                break;
            case 2:
                if (at < u.size()) {
                    u[at] = unit(s, w);
                }
                break;
            case 3: u.resize(at); break;
            case 4: {
                // repeat a piece
                size_t b = at < u.size() ? at + s.draw(u.size() - at + 1) : at;
                Units p(u.begin() + static_cast<long>(at), u.begin() + static_cast<long>(b));
                for (size_t r = s.len(12, 3, 4); r > 0; --r) {
                    u.insert(u.begin() + static_cast<long>(at), p.begin(), p.end());
                    if (u.size() > 600) {
                        break;
                    }
                }
                break;
            }
            default:
                if (at < u.size()) {
                    u[at] ^= 1u << s.draw(w ? 32 : 8);
                }
        }
    }
    if (!w) {
        for (auto& c : u) {
            c &= 0xff;
        }
    }
}
// A quadratic or exponential regex is the engine's business; a few quantifiers are enough.
void tame_regex(Units& f)
{
    bool slash = false;
    int q = 0;
    for (auto it = f.begin(); it != f.end();) {
        slash = slash || *it == '/';
        if (slash && (*it == '*' || *it == '+' || *it == '?' || (*it == '{' && it + 1 != f.end() && it[1] >= '0' && it[1] <= '9')) && ++q > 2) {
            it = f.erase(it);
        }
        else {
            ++it;
        }
    }
}

const char* const spec_tokens[] = {
    "d", "i", "u", "x", "X", "o", "O", "b", "B", "r2", "r36", "r37", "r1", "r", "R10", "c", "s", "p", "a", "e", "f", "g", "A", "E", "F", "G",
    "L", "'", "n", "5", "0", "1", "16", "99999999999999999999", "2147483647", "2147483648", "4294967296", ".", ".3", ".0", ".99999999999", "<", ">", "^", "*<", "{<", "}>", "\xc3\xa4^", "\xf0\x9f\x98\x80>",
    "[a-z]", "[^", "[", "]", "[:alpha:]", "[]a]", "[^]]", "[a-]", "[z-a]", "[\\x41-\\u00e4]", "[\\U0010ffff]", "[\\u{41}]", "[\\uD800]", "[:foo:]", "[\\", "[\\w\\d\\s\\W]", "[\xc3\xa4-\xc3\xb6]",
    "/a/", "/", "/(/", "/[a/", "/\\//i", "/a|b/mnis", "/a/q", "/(?<n>a)/", "/\\", "/[[:alpha:]]+/",
    "%Y", "%", "%E", "%O", "%.", "%.S", "%%", "%Z", "%z", "%c", "%EY", "%Ow", "%n", "%F", "%T", "%p %I", "%y", "%C", "%j", "%b", "L%x", "L%A", "%Q", "%s",
    "#", "+", "-", " ", "\\", "\x80", "\xff", "\xc3", "\xe2\x82"};
const char* const fmt_tokens[] = {"{", "}", "{{", "}}", "{}", "{:}", "{0}", "{1}", "{2}", "{:d}", "{:s}", " ", "\n", "abc", "%", ":",
                                  "{0:", "{99999999999}", "{-1}", "{a}", "{:{}}", "\xe2\x80\xa8", "\xc2\x85", "\xc3\xa4", "\xff"};
const char* const text_tokens[] = {
    "0", "1", "42", "-1", "+", "-", "0x", "0X1f", "0b", "0b101", "0o17", "08", "999999999999999999999999", "-9223372036854775808",
    "18446744073709551615", "1.5", ".", ".5", "5.", "1e5", "1e", "e", "1e400", "1e-400", "0x1p3", "0x1p", "0x.8p-1", "p", "nan", "NaN(abc)",
    "nan(", "inf", "infinity", "-inf", "infinit", "true", "false", "tru", "1,000", "1'0", " ", "\t", "\n", "\r", "\v", "\xc2\x85", "\xe2\x80\xa8", "\xc2\xa0",
    "abc", "ABC", "a", "[", "]", "{", "}", "(", ")", ",", ":", ";", "[1, 2]", "{1, 2}", "{1: 2, 3: 4}", "(1, a)", "[[(1, 2)]]", "Jan", "January", "Mon", "Sunday",
    "2024-10-01", "12:34:56.789", "AM", "p.m.", "+02:00", "Z", "UTC", "\xc3\xa4", "\xf0\x9f\x98\x80", "\xff", "\xc3", "\xe2\x82", "\xf0\x9f", "\xed\xa0\x80", "\xc0\x80", "\xf4\x90\x80\x80", "/"};

void add_token(Units& u, const char* t, bool w)
{
    if (!w) {
        return add(u, t);
    }
    std::string_view v(t);
    for (size_t i = 0; i < v.size();) {
        char32_t cp = 0;
        size_t k = h::utf8_seq(v, i, &cp);
        u.push_back(k ? static_cast<uint32_t>(cp) : 0xd800u + static_cast<unsigned char>(v[i]));
        i += k ? k : 1;
    }
}
Units any_format(Src& s, bool w, size_t fields)
{
    Units f;
    switch (s.weighted({6, 2, 1})) {
        case 0:  // fields of specifier tokens
            for (size_t i = 0; i < fields; ++i) {
                if (s.chance(1, 4)) {
                    add_token(f, s.pick(fmt_tokens), w);
                }
                f.push_back('{');
                if (s.chance(1, 8)) {
                    f.push_back('0' + static_cast<uint32_t>(s.draw(10)));
                }
                size_t k = s.len(6, 1, 2);
                if (k || s.flip()) {
                    f.push_back(':');
                }
                for (; k > 0; --k) {
                    add_token(f, s.pick(spec_tokens), w);
                }
                f.push_back('}');
            }
            if (s.chance(1, 6)) {
                add_token(f, s.pick(fmt_tokens), w);
            }
            break;
        case 1:
            for (size_t k = 1 + s.len(8); k > 0; --k) {
                add_token(f, s.flip() ? s.pick(fmt_tokens) : s.pick(spec_tokens), w);
            }
            break;
        default:
            for (size_t k = s.len(30, 9, 10); k > 0; --k) {
                f.push_back(unit(s, w));
            }
    }
    if (s.chance(1, 3)) {
        mutate(s, f, w);
    }
    tame_regex(f);
    return f;
}
Units any_text(Src& s, bool w)
{
    Units t;
    switch (s.weighted({5, 2, 1})) {
        case 0:
            for (size_t k = s.len(10, 4, 5); k > 0; --k) {
                add_token(t, s.pick(text_tokens), w);
            }
            break;
        case 1: {
            auto x = gen::float_text(s, model::t_double);
            add_cps(t, x, w);
            x = gen::word(s, 0, 20);
            add_cps(t, x, w);
            break;
        }
        default:
            for (size_t k = s.len(60, 15, 16); k > 0; --k) {
                t.push_back(unit(s, w));
            }
    }
    if (s.chance(1, 2)) {
        mutate(s, t, w);
    }
    return t;
}

double cpu()
{
    rusage r;
    getrusage(RUSAGE_SELF, &r);
    auto f = [](const timeval& t) { return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_usec) / 1e6; };
    return f(r.ru_utime) + f(r.ru_stime);
}

struct Target {
    int what;  // 0 one field, 1 several, 2 extra
    int which;
    size_t fields;
    std::string name;
};
Target any_target(Src& s, int kind, bool w)
{
    switch (s.weighted({5, 2, 4})) {
        case 0: {
            auto t = static_cast<Ty>(s.draw(model::t_view + 1));
            if (!disp::legal(t, kind, w)) {
                t = model::t_string;
            }
            return {0, t, 1, disp::ty_name(t)};
        }
        case 1: {
            int t = static_cast<int>(s.draw(tuples::count));
            return {1, t, tuples::types(t).size(), "tuple " + std::to_string(t)};
        }
        default: {
            int t = static_cast<int>(s.draw(rob::x_count));
            if (w && t >= rob::x_vec && t <= rob::x_nest) {
                t = rob::x_tm;
            }
            return {2, t, t == rob::x_discard || t == rob::x_custom ? 2u : 1u, rob::name(t)};
        }
    }
}
h::Out go(const Target& t, int kind, bool w, const Units& text, const Units& fmt, size_t buf)
{
    auto ty = static_cast<Ty>(t.which);
    if (w) {
        auto x = wide(text), f = wide(fmt);
        return t.what == 0 ? disp::run_wide(ty, kind, x, f, buf) : t.what == 1 ? tuples::run_wide(t.which, kind, x, f, buf) : rob::run_wide(t.which, kind, x, f, buf);
    }
    auto x = narrow(text), f = narrow(fmt);
    return t.what == 0 ? disp::run_narrow(ty, kind, x, f, buf) : t.what == 1 ? tuples::run_narrow(t.which, kind, x, f, buf) : rob::run_narrow(t.which, kind, x, f, buf);
}
void sane(const h::Out& o, const Units& text)
{
    if (o.ok && (o.consumed < 0 || static_cast<size_t>(o.consumed) > text.size())) {
        fail("an impossible position: " + h::show(o));
    }
    if (!o.ok && (o.code < 0 || o.code > 10)) {
        fail("an impossible error: " + h::show(o));
    }
    for (auto& v : o.vals) {
        if (v.compare(0, 5, "bool:") == 0) {
            fail("a bool that is neither true nor false: " + v);
        }
    }
}
// A format that fits the target, with a text along its lines; both damaged at times.
void fitting(Src& s, const Target& t, bool w, Units& fmt, Units& text)
{
    if (t.what != 2) {
        auto ts = t.what == 0 ? std::vector<Ty>{static_cast<Ty>(t.which)} : tuples::types(t.which);
        auto ps = gen::format_for(s, ts, 2);
        add_cps(fmt, model::fmt_text(ps), w);
        add_cps(text, gen::text_for(s, ps), w);
    }
    else {
        struct FT {
            const char *f, *t;
        };
        static const FT dates[] = {{"{:%Y-%m-%d}", "2024-10-01"}, {"{:%F %T}", "2024-10-01 12:34:56"}, {"{:%d.%m.%Y %H:%M}", "1.2.1999 3:04"},
                                   {"{:%B %e, %Y %I:%M:%S %p}", "January 31, 2000 11:59:59 PM"}, {"{:%D %r}", "12/31/99 12:00:00 AM"}, {"{:%c}", "Tue Oct 1 12:34:56 2024"},
                                   {"{:%C%y%m%d}", "20240229"}, {"{:L%x}", "10/01/24"}, {"{:L%X}", "12:34:56"}, {"{:%F %H:%M:%.S}", "2024-10-01 12:34:56.123456789"},
                                   {"{:%F %Z}", "2024-10-01 Europe/Helsinki"}, {"{:%F %z}", "2024-10-01 +02:30"}, {"{:%A}", "Wednesday"}, {"{:%Y %j}", "2024 366"}, {"{:%u}", "7"}, {"{:L%a}", "Mon"}};
        static const FT regexes[] = {{"{:/([a-z]+)([0-9]*)/}", "abc123"}, {"{:/(a)|(b)/i}", "B"}, {"{:/[^ ]+ [^ ]+/}", "ab cd ef"}, {"{:/(a(b(c)))/}", "abcabc"}, {"{:/\\/a/}", "/a"}};
        static const FT others[] = {{"{}", "[1, 2, 3]"}, {"{:x}", "[a, ff]"}, {"{}", "[ab , cd ]"}, {"{}", "{1: 2.5, 3: 1e3}"}, {"{}", "{3, 1, 2}"}, {"{}", "(12, abc )"}, {"{}", "[[(1, 2), (3, 4)], []]"},
                                    {"{}", "12;34"}, {"{}", "12 34"}, {"{}{}", "1 abc 2 def"}, {"{} {}", "42 word"}, {"{}", "[]"}, {"{:*>10}{}", "****[1]"}, {"{:[a-z]}", "[abc,def]"}, {"{:.2}", "[1234]"}};
        auto& x = t.which <= rob::x_wd ? s.pick(dates) : t.which == rob::x_regex ? s.pick(regexes) : s.pick(others);
        add_token(fmt, x.f, w);
        add_token(text, x.t, w);
        if (s.chance(1, 3)) {
            add_token(text, s.pick(text_tokens), w);
        }
    }
    if (s.chance(1, 4)) {
        mutate(s, fmt, w);
    }
    if (s.chance(2, 3)) {
        mutate(s, text, w);
    }
    tame_regex(fmt);
}
void any_bytes(Src& s, Ctx& c)
{
    bool w = s.chance(1, 3);
    int kind = static_cast<int>(s.draw(w ? h::k_file : h::k_count));
    auto t = any_target(s, kind, w);
    Units text, fmt;
    if (s.chance(1, 2)) {
        fitting(s, t, w, fmt, text);
    }
    else {
        text = any_text(s, w);
        fmt = any_format(s, w, t.fields);
    }
    size_t buf = 1 + s.draw(16);
    c.desc([&] {
        return t.name + " format " + (w ? show(std::wstring_view(wide(fmt))) : show(narrow(fmt))) + " text " + (w ? show(std::wstring_view(wide(text))) : show(narrow(text))) +
               " " + h::kind_name(kind) + " buffer " + std::to_string(buf) + (w ? " wide" : "");
    });
    auto o = go(t, kind, w, text, fmt, buf);
    sane(o, text);
    c.label(o.ok ? "value" : o.code == 1 ? "format refused" : "error");
    if (o.ok || o.code != 1) {
        uint64_t hsh = static_cast<uint64_t>(t.what * 100 + t.which);
        for (auto x : fmt) {
            hsh = mix(hsh + x);
        }
        for (auto x : text) {
            hsh = mix(hsh + x);
        }
        c.nontrivial(hsh);
    }
}

// Large inputs: the work is in proportion.
void large(Src& s, Ctx& c)
{
    static const char* const units[] = {"1", "0", " ", "9", "a", "0.", "\xe2\x80\xa8", "\xc3\xa4", "\xff", "1,", "nan(", "e1", "[1,", "-", "f", "\n", "[", "(", "[1]"};
    static const char* const fmts[] = {"{}", "{:x}", "{:s}", "{:d}", "{:g}", "{:a}", "{:[a-z0-9 ]}", "{:[^x]}", "{:.100000c}", "{:200000}", "{: >}", "{:1<100000}", "{:.50000}", "{:%Z}", "{:L}"};
    bool w = s.chance(1, 4);
    int kind = static_cast<int>(s.draw(w ? h::k_file : h::k_count));
    auto t = any_target(s, kind, w);
    Units text, fmt;
    const char *u = s.pick(units), *f = s.pick(fmts), *pre = s.chance(1, 3) ? s.pick(text_tokens) : "";
    size_t n = 2000 + s.draw(48000);
    add_token(text, pre, w);
    while (text.size() < n) {
        add_token(text, u, w);
    }
    for (size_t i = 0; i < t.fields; ++i) {
        add(fmt, f);
    }
    size_t buf = s.pick({size_t(1), size_t(7), size_t(64), size_t(4096)});
    c.desc([&] {
        return t.name + " format " + show(narrow(fmt)) + " text " + show(std::string(pre)) + " then " + std::to_string(n) + " units of " + show(std::string(u)) + " " + h::kind_name(kind) +
               " buffer " + std::to_string(buf) + (w ? " wide" : "");
    });
    double before = cpu();
    auto o = go(t, kind, w, text, fmt, buf);
    double used = cpu() - before;
    sane(o, text);
    c.label(o.ok ? "large value" : o.code == 1 ? "large refused" : "large error");
    if (o.ok || o.code != 1) {
        c.nontrivial(mix(hash_str(narrow(fmt) + "|" + pre + u + t.name)) + n);
    }
    // sanitized code takes some tens of nanoseconds per unit and step
    if (used > 4) {
        fail("took " + std::to_string(used) + " s of CPU for " + std::to_string(n) + " code units");
    }
}

// Long formats.
void long_format(Src& s, Ctx& c)
{
    bool w = s.chance(1, 4);
    int kind = h::k_view;
    auto t = any_target(s, kind, w);
    Units text, fmt;
    add_token(text, s.pick(text_tokens), w);
    static const char* const pre[] = {"", "{:", "{:[", "{:/", "{:%Y", "{0:", "{:5"};
    static const char* const mid[] = {"{", "}", "{}", "{{", "a", "9", "[", "]", "\\x41", "a-z", "%%", " ", "%n", "\xc3\xa4", "<", "(", "|", "-", ":", "[:alpha:]"};
    static const char* const post[] = {"", "}", "]}", "/}", "{}", "/i}"};
    const char *a = s.pick(pre), *b = s.pick(mid), *d = s.pick(post);
    size_t n = 200 + s.draw(3000);
    if (!std::strcmp(a, "{:/") && (*b == '(' || *b == '|' || *b == '[')) {
        n = 200;  // the regex engine recurses
    }
    add_token(fmt, a, w);
    while (fmt.size() < n) {
        add_token(fmt, b, w);
    }
    add_token(fmt, d, w);
    c.desc([&] { return t.name + " format of " + std::to_string(n) + ": " + show(std::string(a)) + " " + show(std::string(b)) + "... " + show(std::string(d)) + (w ? " wide" : ""); });
    double before = cpu();
    auto o = go(t, kind, w, text, fmt, 1);
    double used = cpu() - before;
    sane(o, text);
    c.label(o.ok ? "long format value" : o.code == 1 ? "long format refused" : "long format error");
    c.nontrivial(mix(hash_str(std::string(a) + b + d + t.name)) + n);
    if (used > 4) {
        fail("took " + std::to_string(used) + " s of CPU");
    }
}
}  // namespace

std::vector<pbt::Sub> pbt::subs()
{
    return {{"any_bytes", any_bytes, 30}, {"large", large, 1}, {"long_format", long_format, 1}};
}
