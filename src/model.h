// An independent reference model of what a replacement field denotes, over
// code points, written from the documentation of the format string.
//
// Where the documentation leaves the outcome open the model answers `unknown`
// and nothing is asserted; where it only demands *an* error the code is -1.
#pragma once
#include "h.h"

#include <cerrno>
#include <climits>
#include <cstdlib>
#include <limits>

namespace model {
using h::u32s;
using h::u32v;
using i128 = __int128;

enum Ty {
    t_schar, t_short, t_int, t_long, t_llong,
    t_uchar, t_ushort, t_uint, t_ulong, t_ullong,
    t_float, t_double, t_ldouble,
    t_string, t_bool, t_char, t_wchar, t_char32, t_ptr,
    t_xstring,  // the string of the other character type
    t_view,     // string view (contiguous sources)
    t_count
};
inline bool is_str(Ty t) { return t == t_string || t == t_xstring || t == t_view; }
inline bool is_int(Ty t) { return t <= t_ullong; }
inline bool is_uns(Ty t) { return t >= t_uchar && t <= t_ullong; }
inline bool is_flt(Ty t) { return t >= t_float && t <= t_ldouble; }

inline i128 int_min(Ty t)
{
    switch (t) {
        case t_schar: case t_char: return SCHAR_MIN;
        case t_short: return SHRT_MIN;
        case t_int: case t_wchar: return INT_MIN;
        case t_long: return LONG_MIN;
        case t_llong: return LLONG_MIN;
        default: return 0;
    }
}
inline i128 int_max(Ty t)
{
    switch (t) {
        case t_schar: case t_char: return SCHAR_MAX;
        case t_short: return SHRT_MAX;
        case t_int: case t_wchar: return INT_MAX;
        case t_long: return LONG_MAX;
        case t_llong: return LLONG_MAX;
        case t_uchar: return UCHAR_MAX;
        case t_ushort: return USHRT_MAX;
        case t_uint: return UINT_MAX;
        case t_ulong: return ULONG_MAX;
        default: return ULLONG_MAX;
    }
}

struct Spec {
    char32_t fill = 0;  // 0: not given
    char align = 0;     // 0 < > ^
    int width = 0, prec = 0;
    bool L = false;
    char type = 0;  // 0, b B d i u o O x X a A e E f F g G s c p [
    // character set
    bool set_inv = false;
    std::vector<std::pair<char32_t, char32_t>> set;
    u32s set_text;  // what is written between [ and ]

    bool in_set(char32_t c) const
    {
        for (auto& r : set) {
            if (c >= r.first && c <= r.second) {
                return !set_inv;
            }
        }
        return set_inv;
    }
    bool empty() const { return !fill && !align && !width && !prec && !L && !type; }
    u32s text() const
    {
        u32s s;
        if (align) {
            if (fill) {
                s += fill;
            }
            s += static_cast<char32_t>(align);
        }
        if (width) {
            s += h::ascii32(std::to_string(width));
        }
        if (prec) {
            s += U'.';
            s += h::ascii32(std::to_string(prec));
        }
        if (L) {
            s += U'L';
        }
        if (type == '[') {
            s += U'[';
            s += set_text;
            s += U']';
        }
        else if (type) {
            s += static_cast<char32_t>(type);
        }
        return s;
    }
    u32s field(int id = -1) const
    {
        u32s s = U"{";
        if (id >= 0) {
            s += h::ascii32(std::to_string(id));
        }
        if (!empty()) {
            s += U':';
            s += text();
        }
        return s + U"}";
    }
    char32_t the_fill() const { return fill ? fill : U' '; }
};

struct M {
    enum St { ok, err, unknown } st = unknown;
    int code = -1;    // err: -1 any
    size_t end = 0;   // ok: index just after what was consumed
    std::string val;  // canonical value
};
inline M mok(size_t end, std::string v)
{
    M m;
    m.st = M::ok;
    m.end = end;
    m.val = std::move(v);
    return m;
}
inline M merr(int code = -1)
{
    M m;
    m.st = M::err;
    m.code = code;
    return m;
}
inline M munk() { return {}; }

inline int digit(char32_t c)
{
    if (c >= '0' && c <= '9') return static_cast<int>(c - '0');
    if (c >= 'a' && c <= 'z') return static_cast<int>(c - 'a') + 10;
    if (c >= 'A' && c <= 'Z') return static_cast<int>(c - 'A') + 10;
    return 99;
}

inline std::string i128str(i128 v)
{
    if (v == 0) {
        return "0";
    }
    bool neg = v < 0;
    unsigned __int128 u = neg ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v);
    std::string s;
    while (u) {
        s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(u % 10)));
        u /= 10;
    }
    return neg ? "-" + s : s;
}

inline std::string int_canon(Ty t, i128 v)
{
    if (t == t_char) {
        return "char " + i128str(v);
    }
    if (t == t_wchar) {
        char b[40];
        std::snprintf(b, sizeof b, "U+%lX",
                      static_cast<unsigned long>(static_cast<wchar_t>(static_cast<int>(v))));
        return b;
    }
    return i128str(v);
}

// digits of `base` from i; saturating value
inline size_t digits(u32v w, size_t i, int base, i128& v, bool& big)
{
    const i128 cap = static_cast<i128>(1) << 100;
    v = 0;
    big = false;
    while (i < w.size() && digit(w[i]) < base) {
        v = v * base + digit(w[i]);
        if (v > cap) {
            v = cap;
            big = true;
        }
        ++i;
    }
    return i;
}

// An integer literal at the start of `w`.
inline M read_int(u32v w, Ty t, char type)
{
    size_t i = 0;
    bool neg = false;
    if (i < w.size() && (w[i] == '+' || w[i] == '-')) {
        neg = w[i] == '-';
        ++i;
    }
    if (neg && (is_uns(t) || type == 'u')) {
        return merr(2);
    }
    auto pre = [&](char c, int base) {
        return i + 2 < w.size() && w[i] == '0' &&
               (w[i + 1] == static_cast<char32_t>(c) ||
                w[i + 1] == static_cast<char32_t>(c - 'a' + 'A')) &&
               digit(w[i + 2]) < base;
    };
    int base = 10;
    switch (type) {
        case 'b': case 'B':
            base = 2;
            if (pre('b', 2)) i += 2;
            break;
        case 'o': case 'O':
            base = 8;
            if (pre('o', 8)) i += 2;
            break;
        case 'x': case 'X':
            base = 16;
            if (pre('x', 16)) i += 2;
            break;
        case 'i':
            if (pre('x', 16)) { base = 16; i += 2; }
            else if (pre('b', 2)) { base = 2; i += 2; }
            else if (pre('o', 8)) { base = 8; i += 2; }
            else if (i < w.size() && w[i] == '0') base = 8;
            break;
        default:
            break;
    }
    i128 v;
    bool big;
    size_t e = digits(w, i, base, v, big);
    if (e == i) {
        return w.empty() ? merr() : i == w.size() ? merr() : merr(2);
    }
    if (neg) {
        v = -v;
    }
    if (v > int_max(t)) {
        return merr(7);
    }
    if (v < int_min(t)) {
        return merr(8);
    }
    return mok(e, int_canon(t, v));
}

inline bool ieq(u32v w, size_t i, const char* lit)
{
    for (; *lit; ++lit, ++i) {
        if (i >= w.size()) {
            return false;
        }
        char32_t c = w[i];
        if (c >= 'A' && c <= 'Z') {
            c += 32;
        }
        if (c != static_cast<char32_t>(*lit)) {
            return false;
        }
    }
    return true;
}

// Converts a literal (ASCII, as the C library spells it) and classifies it.
inline M conv_float(const std::string& lit, Ty t, size_t end, bool zero_digits)
{
    errno = 0;
    bool neg = lit[0] == '-';
    auto fin = [&](auto v) {
        if (std::isinf(v)) {
            return merr(neg ? 8 : 7);
        }
        if (v == 0 && !zero_digits) {
            return merr(neg ? 10 : 9);
        }
        return mok(end, h::canon(v));
    };
    switch (t) {
        case t_float: return fin(std::strtof(lit.c_str(), nullptr));
        case t_double: return fin(std::strtod(lit.c_str(), nullptr));
        default: return fin(std::strtold(lit.c_str(), nullptr));
    }
}

inline M read_float(u32v w, Ty t, char type)
{
    size_t i = 0;
    std::string lit;
    bool neg = false;
    if (i < w.size() && (w[i] == '+' || w[i] == '-')) {
        neg = w[i] == '-';
        if (neg) {
            lit = "-";
        }
        ++i;
    }
    char ty = type;
    if (ty >= 'A' && ty <= 'Z') {
        ty = static_cast<char>(ty + 32);
    }
    auto special = [&](auto v) {
        return h::canon(neg ? -v : v);
    };
    if (ieq(w, i, "inf")) {
        // with 'a', f is a digit but i is not: no ambiguity
        size_t e = ieq(w, i, "infinity") ? i + 8 : i + 3;
        return mok(e, special(std::numeric_limits<double>::infinity()));
    }
    if (ieq(w, i, "nan")) {
        size_t e = i + 3;
        if (e < w.size() && w[e] == '(') {
            size_t j = e + 1;
            while (j < w.size() && ((digit(w[j]) < 36) || w[j] == '_')) {
                ++j;
            }
            if (j < w.size() && w[j] == ')') {
                e = j + 1;
            }
            else {
                return munk();  // an unfinished payload: open
            }
        }
        return mok(e, neg ? "-nan" : "nan");
    }
    bool hex = false;
    auto is_digit = [&](size_t k) {
        return k < w.size() && digit(w[k]) < (hex ? 16 : 10);
    };
    if (ty == 'a' || ty == 0) {
        bool x = i + 1 < w.size() && w[i] == '0' && (w[i + 1] == 'x' || w[i + 1] == 'X');
        if (x) {
            hex = true;
            // at least one hex digit, possibly after a point
            if (is_digit(i + 2) || (i + 2 < w.size() && w[i + 2] == '.' && is_digit(i + 3))) {
                i += 2;
            }
            else {
                hex = ty == 'a';
            }
        }
        else {
            hex = ty == 'a';
        }
    }
    size_t b = i;
    bool nonzero = false;
    size_t nd = 0;
    std::string body;
    while (is_digit(i)) {
        nonzero |= w[i] != '0';
        body += static_cast<char>(w[i]);
        ++i;
        ++nd;
    }
    if (i < w.size() && w[i] == '.') {
        size_t j = i + 1;
        std::string frac;
        bool nz = false;
        while (is_digit(j)) {
            nz |= w[j] != '0';
            frac += static_cast<char>(w[j]);
            ++j;
        }
        if (nd || j > i + 1) {
            nonzero |= nz;
            nd += j - i - 1;
            body += '.';
            body += frac;
            i = j;
        }
    }
    if (!nd) {
        return (b == w.size()) ? merr() : merr(2);
    }
    // exponent
    bool exp_ok = hex ? true : ty != 'f';
    bool had_exp = false;
    if (exp_ok && i < w.size() &&
        (hex ? (w[i] == 'p' || w[i] == 'P') : (w[i] == 'e' || w[i] == 'E'))) {
        size_t j = i + 1;
        std::string e(1, hex ? 'p' : 'e');
        if (j < w.size() && (w[j] == '+' || w[j] == '-')) {
            e += static_cast<char>(w[j]);
            ++j;
        }
        size_t d0 = j;
        while (j < w.size() && w[j] >= '0' && w[j] <= '9') {
            e += static_cast<char>(w[j]);
            ++j;
        }
        if (j > d0) {
            body += e;
            i = j;
            had_exp = true;
        }
    }
    if (ty == 'e' && !had_exp) {
        return merr(2);
    }
    return conv_float(lit + (hex ? "0x" : "") + body, t, i, !nonzero);
}

inline std::string strval(u32v s) { return "'" + h::utf8(s) + "'"; }

// reads the value part from window w
inline M read_value(u32v w, Ty t, const Spec& sp, bool narrow)
{
    if (is_int(t)) {
        return read_int(w, t, sp.type);
    }
    if (is_flt(t)) {
        return read_float(w, t, sp.type);
    }
    switch (t) {
        case t_bool: {
            bool num = sp.type != 's', text = sp.type == 0 || sp.type == 's';
            if (num && !w.empty() && (w[0] == '0' || w[0] == '1')) {
                return mok(1, w[0] == '1' ? "true" : "false");
            }
            if (text && w.substr(0, 4) == U"true") {
                return mok(4, "true");
            }
            if (text && w.substr(0, 5) == U"false") {
                return mok(5, "false");
            }
            if (w.empty()) {
                return merr();
            }
            // a proper prefix of a spelling can be seen as a premature end
            if (text && (u32v(U"true").substr(0, w.size()) == w ||
                         u32v(U"false").substr(0, w.size()) == w)) {
                return merr();
            }
            return merr(2);
        }
        case t_ptr: {
            if (!w.empty() && (w[0] == '+' || w[0] == '-')) {
                return w[0] == '-' ? merr() : munk();
            }
            M m = read_int(w, t_ulong, 'x');
            if (m.st == M::ok) {
                i128 v = 0;
                for (char c : m.val) {
                    v = v * 10 + (c - '0');
                }
                char b[40];
                std::snprintf(b, sizeof b, "p%llx", static_cast<unsigned long long>(v));
                m.val = b;
            }
            return m;
        }
        case t_char:
        case t_wchar:
        case t_char32: {
            if (sp.type != 0 && sp.type != 'c') {
                return read_int(w, t, sp.type);
            }
            if (w.empty()) {
                return merr();
            }
            if (t == t_char) {
                if (w[0] > 0x7f) {
                    return munk();  // one code unit of several
                }
                return mok(1, "char " + std::to_string(static_cast<int>(w[0])));
            }
            char b[40];
            std::snprintf(b, sizeof b, "U+%lX", static_cast<unsigned long>(w[0]));
            return mok(1, b);
        }
        case t_string:
        case t_xstring:
        case t_view: {
            (void)narrow;
            if (sp.type == 'c') {
                return mok(w.size(), strval(w));
            }
            if (sp.type == '[') {
                size_t i = 0;
                while (i < w.size() && sp.in_set(w[i])) {
                    ++i;
                }
                return i ? mok(i, strval(w.substr(0, i))) : w.empty() ? merr() : merr(2);
            }
            bool custom = sp.align == '<' || sp.align == '^';
            size_t i = 0;
            while (i < w.size() && (custom ? w[i] != sp.the_fill() : !h::is_ws(w[i]))) {
                ++i;
            }
            if (custom) {
                // whether whitespace also ends such a word is left open
                for (size_t k = 0; k < i; ++k) {
                    if (h::is_ws(w[k])) {
                        return munk();
                    }
                }
            }
            if (i == 0) {
                return munk();
            }
            return mok(i, strval(w.substr(0, i)));
        }
        default: return munk();
    }
}

inline bool skips_ws(Ty t, const Spec& sp)
{
    if (t == t_char || t == t_wchar || t == t_char32) {
        return false;
    }
    if (is_str(t)) {
        if (sp.type == 'c' || sp.type == '[') {
            return false;
        }
        return !(sp.align == '<' || sp.align == '^');
    }
    return true;
}

// end of the longest prefix of in[pos..] that is at most `w` columns wide
inline size_t take(u32v in, size_t pos, int w)
{
    size_t i = pos;
    while (i < in.size() && h::cp_width(in[i]) <= w) {
        w -= h::cp_width(in[i]);
        ++i;
    }
    return i;
}
inline int width_of(u32v in, size_t a, size_t b)
{
    int n = 0;
    for (; a < b; ++a) {
        n += h::cp_width(in[a]);
    }
    return n;
}

// One replacement field of type t with spec sp at in[pos..].
inline M field(u32v in, size_t pos, Ty t, const Spec& sp, bool narrow = true)
{
    if (pos >= in.size()) {
        // an aligned word without any characters: open
        return is_str(t) && (sp.align || sp.type == 'c') ? munk() : sp.align || sp.type == '[' ? merr() : merr(0);
    }
    const bool ws = skips_ws(t, sp);
    const size_t lim = sp.prec ? take(in, pos, sp.prec) : in.size();
    size_t p = pos;
    if (sp.align == '>' || sp.align == '^') {
        while (p < lim && in[p] == sp.the_fill()) {
            ++p;
        }
    }
    else if (sp.align == 0 && ws) {
        while (p < lim && h::is_ws(in[p])) {
            ++p;
        }
        if (p == lim) {
            return lim == in.size() && !sp.prec ? merr(0) : merr();
        }
    }
    const int pw = width_of(in, pos, p);
    if (sp.prec && pw >= sp.prec) {
        return merr(4);
    }
    // explicit alignment: whether whitespace left before the value is skipped
    // is not documented clearly
    if (sp.align && ws && p < in.size() && h::is_ws(in[p])) {
        return munk();
    }
    const size_t wend = sp.prec ? take(in, p, sp.prec - pw) : in.size();
    if (p == wend) {
        // nothing to read the value from
        return is_str(t) ? munk() : merr();
    }
    M m = read_value(in.substr(p, wend - p), t, sp, narrow);
    if (m.st != M::ok) {
        return m;
    }
    const size_t ve = p + m.end;
    const int vw = width_of(in, p, ve);
    size_t e = ve;
    if (sp.align == '<' || sp.align == '^') {
        size_t l2 = sp.prec ? take(in, ve, sp.prec - pw - vw) : in.size();
        while (e < l2 && in[e] == sp.the_fill()) {
            ++e;
        }
    }
    else if (sp.align == 0 && !ws &&
             ((sp.width && pw + vw < sp.width) || (sp.prec && pw + vw < sp.prec))) {
        size_t l2 = sp.prec ? take(in, ve, sp.prec - pw - vw) : in.size();
        while (e < l2 && h::is_ws(in[e])) {
            ++e;
        }
    }
    if (sp.width && pw + vw + width_of(in, ve, e) < sp.width) {
        return merr(5);
    }
    m.end = e;
    return m;
}

// Compares an actual outcome with the model's for a single field at the start
// of the text.  Returns an empty string if they agree.
inline std::string diff(const M& m, const h::Out& o, size_t end_units)
{
    switch (m.st) {
        case M::unknown: return "";
        case M::err:
            if (o.ok) {
                return "expected error " + std::to_string(m.code) + ", got " + h::show(o);
            }
            if (m.code >= 0 && o.code != m.code) {
                return "expected error " + std::to_string(m.code) + ", got " + h::show(o);
            }
            return "";
        case M::ok:
            if (!o.ok) {
                return "expected value " + pbt::show(m.val) + ", got " + h::show(o);
            }
            if (o.vals.empty() || o.vals[0] != m.val) {
                return "expected value " + pbt::show(m.val) + ", got " + h::show(o);
            }
            if (o.consumed != static_cast<long>(end_units)) {
                return "expected to consume " + std::to_string(end_units) + ", got " + h::show(o);
            }
            return "";
    }
    return "";
}

template <typename CharT>
size_t units(u32v in, size_t n)
{
    if constexpr (std::is_same_v<CharT, char>) {
        return h::utf8(in.substr(0, n)).size();
    }
    else {
        return n;
    }
}

// ---- whole formats

struct Piece {
    enum K { lit, ws, field } k;
    char32_t cp = 0;  // lit, ws
    Ty t = t_int;
    Spec sp;
    int id = -1;  // explicit argument number
};
inline u32s fmt_text(const std::vector<Piece>& ps)
{
    u32s f;
    for (auto& p : ps) {
        if (p.k == Piece::field) {
            f += p.sp.field(p.id);
        }
        else {
            f += p.cp;
            if (p.cp == '{' || p.cp == '}') {
                f += p.cp;
            }
        }
    }
    return f;
}
struct MM {
    M::St st = M::ok;
    int code = -1;
    size_t end = 0;
    std::vector<std::string> vals;  // in order of appearance
};
inline MM match(u32v in, size_t pos, const std::vector<Piece>& ps, bool narrow)
{
    MM r;
    for (auto& p : ps) {
        switch (p.k) {
            case Piece::ws:
                while (pos < in.size() && h::is_ws(in[pos])) {
                    ++pos;
                }
                break;
            case Piece::lit:
                if (pos >= in.size() || in[pos] != p.cp) {
                    r.st = M::err;
                    r.code = 3;
                    return r;
                }
                ++pos;
                break;
            default: {
                M m = field(in, pos, p.t, p.sp, narrow);
                if (m.st != M::ok) {
                    r.st = m.st;
                    r.code = m.code;
                    return r;
                }
                pos = m.end;
                r.vals.push_back(m.val);
            }
        }
    }
    r.end = pos;
    return r;
}
inline std::string diff(const MM& m, const h::Out& o, size_t end_units)
{
    if (m.st == M::unknown) {
        return "";
    }
    if (m.st == M::err) {
        if (o.ok || (m.code >= 0 && o.code != m.code)) {
            return "expected error " + std::to_string(m.code) + ", got " + h::show(o);
        }
        return "";
    }
    std::string want = "ok consumed " + std::to_string(end_units) + " [";
    for (auto& v : m.vals) {
        want += pbt::show(v) + " ";
    }
    want += "]";
    if (!o.ok || o.vals != m.vals || o.consumed != static_cast<long>(end_units)) {
        return "expected " + want + ", got " + h::show(o);
    }
    return "";
}

}  // namespace model
