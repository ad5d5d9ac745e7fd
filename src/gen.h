// Generators shared by the harnesses.
#pragma once
#include "model.h"

namespace gen {
using namespace pbt;
using h::u32s;
using model::i128;
using model::Spec;
using model::Ty;

inline char32_t ws_cp(Src& s)
{
    static const char32_t a[] = {' ', ' ', '\n', '\t', '\r', '\v', '\f', 0x85, 0x2028, 0x2029, 0x200e, 0x200f};
    return s.pick(a);
}
// rarely, a length around those at which buffers and small counters end
inline size_t bulk(Src& s, unsigned den = 80)
{
    static const size_t a[] = {64, 100, 127, 128, 200, 255, 256, 257, 300, 511, 513, 600, 1023, 1025, 2050, 4097, 5000};
    return s.chance(1, den) ? s.pick(a) : 0;
}
inline u32s ws(Src& s, size_t max)
{
    u32s o;
    for (size_t n = s.len(max, 1, 2); n; --n) {
        o += ws_cp(s);
    }
    if (!o.empty()) {
        o.append(bulk(s, 150), o.back());
    }
    return o;
}
// an arbitrary Unicode scalar value, biased to interesting ones
inline char32_t scalar(Src& s)
{
    switch (s.weighted({6, 2, 3, 3, 2, 2})) {
        case 0: return static_cast<char32_t>(s.range(0x21, 0x7e));
        case 1: return static_cast<char32_t>(s.range(0, 0x7f));
        case 2: return static_cast<char32_t>(s.range(0x80, 0x7ff));
        case 3: {
            auto c = static_cast<char32_t>(s.range(0x800, 0xffff));
            return c >= 0xd800 && c <= 0xdfff ? c - 0x1000 : c;
        }
        case 4: return static_cast<char32_t>(s.range(0x10000, 0x10ffff));
        default: {
            static const char32_t a[] = {0x7f, 0x80, 0xa0, 0xff, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000,
                                         0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0x3000, 0x1100,
                                         0x115f, 0x1160, 0x2e80, 0xac00, 0xff60, 0xff61, 0x1f600, 0x2028, 0x85,
                                         0x200e, 0x2029, 0x20ac, 0xe4, 0x4e00, 0x200d, 0x200b, 0x2003, 0x180e};
            return s.pick(a);
        }
    }
}
// a non-whitespace code point
inline char32_t nonws(Src& s)
{
    auto c = scalar(s);
    return h::is_ws(c) || c == 0 ? U'q' : c;
}
inline u32s word(Src& s, size_t min, size_t max)
{
    u32s o;
    size_t n = min + s.len(max - min, 3, 4);
    bool ascii = s.chance(1, 2);
    for (; n; --n) {
        o += ascii ? static_cast<char32_t>(s.range(0x21, 0x7e)) : nonws(s);
    }
    if (!o.empty() && max >= 5) {
        o.append(bulk(s), o.back());
    }
    return o;
}

inline u32s to_base(i128 v, int base, bool upper, size_t zeros)
{
    bool neg = v < 0;
    unsigned __int128 u = neg ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v);
    u32s d;
    do {
        auto k = static_cast<unsigned>(u % static_cast<unsigned>(base));
        d.insert(d.begin(), static_cast<char32_t>(k < 10 ? '0' + k : (upper ? 'A' : 'a') + k - 10));
        u /= static_cast<unsigned>(base);
    } while (u);
    return u32s(zeros, U'0') + d;
}

inline i128 int_value(Src& s, Ty t)
{
    i128 lo = model::int_min(t), hi = model::int_max(t);
    switch (s.weighted({4, 4, 3, 2, 2})) {
        case 0: return s.range(-20, 300);
        case 1: {
            // around a boundary
            i128 b = s.flip() ? hi : lo;
            return b + s.range(-3, 3);
        }
        case 2: {
            // uniform number of bits
            auto k = static_cast<unsigned>(s.range(0, 66));
            i128 v = static_cast<i128>(s.bits());
            v = (v << 3) | static_cast<i128>(s.draw(8));
            v &= (static_cast<i128>(1) << k) - 1;
            return s.flip() ? -v : v;
        }
        case 3: {
            // powers of two and ten, give or take one
            i128 v = 1;
            if (s.flip()) {
                v <<= s.range(0, 66);
            }
            else {
                for (auto n = s.range(0, 20); n; --n) {
                    v *= 10;
                }
            }
            v += s.range(-1, 1);
            return s.flip() ? -v : v;
        }
        default: {
            // ten times a boundary or so: overflow in the last digit
            i128 b = s.flip() ? hi : lo;
            return b * static_cast<i128>(s.range(1, 20)) + s.range(-9, 9);
        }
    }
}

// text that is, nearly is, or starts with an integer literal
inline u32s int_text(Src& s, Ty t, char type)
{
    static const int any_base[] = {10, 10, 16, 8, 2};
    int base;
    switch (type) {
        case 'b': case 'B': base = 2; break;
        case 'o': case 'O': base = 8; break;
        case 'x': case 'X': base = 16; break;
        case 'i': base = s.pick(any_base); break;
        default: base = 10;
    }
    if (s.chance(1, 12)) {
        base = s.pick(any_base);
    }
    i128 v = int_value(s, t);
    bool neg = v < 0;
    u32s o;
    if (neg) {
        o += U'-';
    }
    else if (s.chance(1, 5)) {
        o += U'+';
    }
    bool upper = s.flip();
    unsigned pre = static_cast<unsigned>(s.weighted({4, 4, 1}));
    if (pre && base != 10) {
        int pb = pre == 2 ? s.pick(any_base) : base;
        o += pb == 16 ? (s.flip() ? U"0X" : U"0x") : pb == 8 ? (s.chance(1, 3) ? U"0" : s.flip() ? U"0O" : U"0o")
             : pb == 2 ? (s.flip() ? U"0B" : U"0b") : U"";
    }
    size_t zeros = s.chance(1, 5) ? s.len(40, 9, 10) + bulk(s, 20) : 0;
    o += to_base(neg ? -v : v, base, upper, zeros);
    // tail
    switch (s.weighted({3, 2, 2, 2, 1})) {
        case 0: break;
        case 1: o += U' '; break;
        case 2: o += static_cast<char32_t>(s.range(0x21, 0x7e)); break;
        case 3: o += nonws(s); o += nonws(s); break;
        default: o += s.pick({u32s(U"_1"), u32s(U"'5"), u32s(U".5"), u32s(U"e5"), u32s(U"u"), u32s(U"L"), u32s(U"x1"), u32s(U"-3"), u32s(U"+"), u32s(U",000")});
    }
    // sometimes damage it
    if (s.chance(1, 8)) {
        static const char32_t junk[] = {'+', '-', '0', 'x', 'X', 'b', 'o', '1', '8', '9', 'f', 'g', '_', ' ', '.', '/', ':', '@', '`', 'G', 0x660, 0xff11, 0x10, 0x30};
        size_t at = s.draw(o.size() + 1);
        o.insert(at, 1, s.pick(junk));
    }
    if (s.chance(1, 16) && !o.empty()) {
        o.erase(s.draw(o.size()), 1);
    }
    return o;
}

// ---- floats

inline u32s float_digits(Src& s, bool hex, size_t max)
{
    u32s o;
    size_t n = s.len(max, s.chance(1, 6) ? 19 : 2, s.chance(1, 6) ? 20 : 3);
    for (; n; --n) {
        auto k = static_cast<char32_t>(s.draw(hex ? 16 : 10));
        o += k < 10 ? U'0' + k : (s.flip() ? U'a' : U'A') + k - 10;
    }
    if (!o.empty()) {
        o.append(bulk(s, 100), o.back());
    }
    return o;
}
// text that is, nearly is, or starts with a floating-point literal
inline u32s float_text(Src& s, Ty t)
{
    u32s o;
    switch (s.weighted({5, 1, 1})) {
        case 0: break;
        case 1: o += U'-'; break;
        default: o += U'+';
    }
    auto pr = [&](const char* f, auto v) {
        char b[6000];
        std::snprintf(b, sizeof b, f, v);
        return h::ascii32(b);
    };
    switch (s.weighted({8, 4, 4, 3, 2, 2, 2})) {
        case 0: {  // free decimal
            o += float_digits(s, false, 60);
            if (s.chance(2, 3)) {
                o += U'.';
                o += float_digits(s, false, 60);
            }
            if (s.chance(1, 2)) {
                o += s.flip() ? U'e' : U'E';
                o += s.pick({u32s(U""), u32s(U"+"), u32s(U"-")});
                o += h::ascii32(std::to_string(s.weighted({1, 1, 1}) == 0 ? s.draw(20) : s.weighted({2, 1}) == 0 ? s.draw(400) : s.draw(6000)));
            }
            break;
        }
        case 1: {  // free hexadecimal
            if (s.chance(3, 4)) {
                o += s.flip() ? U"0x" : U"0X";
            }
            o += float_digits(s, true, 30);
            if (s.chance(1, 2)) {
                o += U'.';
                o += float_digits(s, true, 30);
            }
            if (s.chance(2, 3)) {
                o += s.flip() ? U'p' : U'P';
                o += s.pick({u32s(U""), u32s(U"+"), u32s(U"-")});
                o += h::ascii32(std::to_string(s.weighted({2, 1}) == 0 ? s.draw(160) : s.draw(20000)));
            }
            break;
        }
        case 2: {  // printed value of random bits
            uint64_t u = s.bits();
            double d;
            if (t == model::t_float) {
                auto x = static_cast<uint32_t>(u);
                float f;
                std::memcpy(&f, &x, 4);
                d = f;
            }
            else {
                std::memcpy(&d, &u, 8);
            }
            d = std::fabs(d);
            static const char* f[] = {"%.17g", "%a", "%.16e", "%f", "%.9g", "%.21f", "%A", "%E"};
            o += pr(s.pick(f), d);
            break;
        }
        case 3: {  // boundaries of the type
            if (t == model::t_float) {
                static const char* v[] = {"3.40282346638528859811704183484516925440e+38", "3.4028235677973366163753939545814e+38",
                                          "3.40282356779733661637e38", "1.17549435082228750797e-38", "1.40129846432481707092e-45", "7.00649232162408535e-46",
                                          "7.006492321624086e-46", "1.1754943157898258e-38", "16777217", "16777219", "33554433.0000001"};
                o += h::ascii32(s.pick(v));
            }
            else if (t == model::t_double) {
                static const char* v[] = {"1.79769313486231570815e+308", "1.797693134862315807e+308", "1.7976931348623159e308", "1.7976931348623158e308",
                                          "2.22507385850720138309e-308", "4.9406564584124654e-324", "2.4703282292062327e-324", "2.4703282292062328e-324",
                                          "2.2250738585072011e-308", "9007199254740993", "9007199254740995.0000000001"};
                o += h::ascii32(s.pick(v));
            }
            else {
                static const char* v[] = {"1.18973149535723176502e+4932", "1.189731495357231765e4933", "3.36210314311209350626e-4932", "3.6451995318824746025e-4951",
                                          "1.8e-4951", "1e-4960", "1e5000", "18446744073709551617", "18446744073709551615.5"};
                o += h::ascii32(s.pick(v));
            }
            break;
        }
        case 4: {  // exactly half way between two neighbours, or just off it
            uint64_t u = s.bits();
            double d;
            if (t == model::t_float) {
                // a float's neighbour midpoint is a double
                auto x = (static_cast<uint32_t>(u) & 0x807fffffu) | (static_cast<uint32_t>(64 + (u >> 32) % 120) << 23);
                float f;
                std::memcpy(&f, &x, 4);
                f = std::fabs(f);
                d = (static_cast<double>(f) + static_cast<double>(std::nextafterf(f, 1e38f))) / 2;
                o += pr("%.120f", d);
            }
            else {
                u = (u & 0x000fffffffffffffull) | (static_cast<uint64_t>(1023 - 40 + s.draw(100)) << 52);
                std::memcpy(&d, &u, 8);
                long double m = (static_cast<long double>(d) + static_cast<long double>(std::nextafter(d, 1e300))) / 2;
                o += pr("%.120Lf", m);
            }
            switch (s.draw(3)) {
                case 0: break;
                case 1: o += u32s(s.draw(30), U'0'); o += U'1'; break;
                default:
                    // just below: decrement the last non-zero digit
                    for (size_t k = o.size(); k--;) {
                        if (o[k] > '0' && o[k] <= '9') {
                            --o[k];
                            o += U"9999";
                            break;
                        }
                    }
            }
            break;
        }
        case 5: {
            static const char* v[] = {"inf", "infinity", "nan", "INF", "Infinity", "NaN", "nan()", "nan(123)", "nan(0xf_a)", "infinit", "in", "na", "infin",
                                      "nano", "info", "i", "n", "iNfInItYx"};
            o += h::ascii32(s.pick(v));
            break;
        }
        default: {
            static const char* v[] = {"0", "0.0", "0e5", "0x0p3", ".0", "0.", ".", "..", "1..2", "1.2.3", "0x", "0x.", "0xg", "0x.p1", "e5", ".e5", "1e", "1e+",
                                      "1e-", "1ee5", "1e5e5", "1p5", "0x1p", "0x1p+", "0x1.8p1p1", "1f", "1.0f", "0b101", "00012", "1,5", "1'000", "0x1e5", "0e", "0.e1",
                                      "1e99999999999999999999", "1e-99999999999999999999", "0e99999999999999999999", "0x1p99999999999999999"};
            o += h::ascii32(s.pick(v));
        }
    }
    switch (s.weighted({4, 1, 1, 1, 1})) {
        case 0: break;
        case 1: o += U' '; break;
        case 2: o += static_cast<char32_t>(s.range(0x21, 0x7e)); break;
        case 3: o += nonws(s); break;
        default: o += s.pick({u32s(U"e"), u32s(U".5"), u32s(U"p2"), u32s(U"-1"), u32s(U"+1"), u32s(U"x"), u32s(U"f"), u32s(U"(")});
    }
    if (s.chance(1, 10)) {
        static const char32_t junk[] = {'+', '-', '0', 'x', 'e', 'E', 'p', '.', '1', 'i', 'n', 'f', 'a', '_', ' ', ',', '\'', 0xff11, 0x10};
        o.insert(s.draw(o.size() + 1), 1, s.pick(junk));
    }
    if (s.chance(1, 16) && !o.empty()) {
        o.erase(s.draw(o.size()), 1);
    }
    return o;
}

// ---- specs and fields

inline char32_t fill_cp(Src& s)
{
    static const char32_t a[] = {'*', '_', '0', '-', 'x', 'a', '#', '.', '1', 'e', ' ', '+', ':', '/', ']', '<', '>', '^',
                                 0xe4, 0x20ac, 0x6f22, 0x1f600, 0x1100, 0xff01, 0x10348, 0x2029, 0x85, '\t', '\n'};
    if (s.chance(1, 8)) {
        auto c = nonws(s);
        return c == '{' || c == '}' || c == '[' ? U'*' : c;
    }
    return s.pick(a);
}
inline const char* types_of(Ty t)
{
    using namespace model;
    if (is_int(t)) {
        return "diubBoOxX";
    }
    if (is_flt(t)) {
        return "aAeEfFgG";
    }
    switch (t) {
        case t_bool: return "sidubBoOxX";
        case t_char: return "cdiubBoOxX";
        case t_wchar: return "cdiubBoOxX";
        case t_ptr: return "p";
        case t_string: case t_xstring: case t_view: return "s";
        default: return "";
    }
}
// a [...] specifier
inline void charset(Src& s, Spec& sp)
{
    sp.type = '[';
    sp.set.clear();
    sp.set_text.clear();
    sp.set_inv = s.chance(1, 3);
    if (sp.set_inv) {
        sp.set_text += U'^';
    }
    bool first = true;
    bool ascii = s.chance(1, 2);
    auto cp = [&]() -> char32_t {
        for (;;) {
            char32_t c = ascii ? static_cast<char32_t>(s.range(0x20, 0x7e)) : scalar(s);
            // ] ends the set unless it is the first of an inverted one; - denotes a range
            if (c == ']' || c == '-' || c == 0 || (c == '^' && sp.set_text.empty())) {
                c = U'm';
            }
            return c;
        }
    };
    if (sp.set_inv && s.chance(1, 5)) {
        sp.set_text += U']';
        sp.set.push_back({U']', U']'});
        first = false;
    }
    if (s.chance(1, 12)) {
        sp.set_text += U'-';
        sp.set.push_back({U'-', U'-'});
        first = false;
    }
    size_t n = (first ? 1 : 0) + s.len(5, 1, 2);
    for (; n; --n) {
        if (s.chance(1, 2)) {
            auto c = cp();
            sp.set_text += c;
            sp.set.push_back({c, c});
        }
        else {
            auto a = cp(), b = cp();
            if (s.chance(1, 3)) {
                b = a + static_cast<char32_t>(s.draw(20));
                if (b > 0x10ffff || (b >= 0xd800 && b <= 0xdfff) || b == ']' || b == '-') {
                    b = a;
                }
            }
            if (a > b) {
                std::swap(a, b);
            }
            sp.set_text += a;
            sp.set_text += U'-';
            sp.set_text += b;
            sp.set.push_back({a, b});
        }
    }
    if (s.chance(1, 20)) {
        sp.set_text += U'^';
        sp.set.push_back({U'^', U'^'});
    }
    if (s.chance(1, 12)) {
        sp.set_text += U'-';
        sp.set.push_back({U'-', U'-'});
    }
}
inline Spec spec_for(Src& s, Ty t, bool framing)
{
    Spec sp;
    if (framing) {
        if (s.chance(3, 5)) {
            sp.align = s.pick({'>', '<', '^'});
            if (s.chance(3, 4)) {
                sp.fill = fill_cp(s);
            }
        }
        switch (s.weighted({2, 3, 3, 2})) {
            case 0: break;
            case 1: sp.width = static_cast<int>(s.range(1, 14)); break;
            case 2: sp.prec = static_cast<int>(s.range(1, 14)); break;
            default:
                sp.width = static_cast<int>(s.range(1, 10));
                sp.prec = sp.width + static_cast<int>(s.draw(8));
        }
        if (auto n = static_cast<int>(bulk(s, 50))) {
            sp.width += sp.width ? n : 0;
            sp.prec += sp.prec ? n : 0;
        }
    }
    const char* ty = types_of(t);
    if (*ty && s.chance(1, 2)) {
        sp.type = ty[s.draw(std::strlen(ty))];
    }
    if (model::is_str(t)) {
        switch (s.weighted({4, 2, 2})) {
            case 0: break;
            case 1:
                if (sp.prec || !framing) {
                    sp.type = 'c';
                    if (!sp.prec) {
                        sp.prec = static_cast<int>(s.range(1, 14));
                    }
                    if (sp.width > sp.prec) {
                        sp.width = 0;
                    }
                }
                break;
            default: charset(s, sp);
        }
    }
    return sp;
}
inline bool is_big(const Spec& sp) { return sp.width > 60 || sp.prec > 60; }
inline u32s value_text(Src& s, Ty t, const Spec& sp)
{
    using namespace model;
    if (is_int(t)) {
        return s.flip() ? h::ascii32(std::to_string(s.range(is_uns(t) ? 0 : -999, 9999))) : int_text(s, t, sp.type);
    }
    if (is_flt(t)) {
        return s.flip() ? h::ascii32(std::to_string(s.range(-99, 99)) + "." + std::to_string(s.draw(100))) : float_text(s, t);
    }
    switch (t) {
        case t_bool: {
            static const char32_t* v[] = {U"true", U"false", U"0", U"1", U"tru", U"01"};
            return s.pick(v);
        }
        case t_char: case t_wchar: case t_char32:
            if (sp.type && sp.type != 'c') {
                return int_text(s, t, sp.type);
            }
            return u32s(1, t == t_char ? static_cast<char32_t>(s.range(1, 127)) : scalar(s));
        case t_ptr: return int_text(s, t_ulong, 'x');
        default: break;
    }
    if (sp.type == '[') {
        u32s o;
        for (size_t n = s.len(10); n; --n) {
            if (s.chance(4, 5) && !sp.set_inv && !sp.set.empty()) {
                auto r = s.pick(sp.set);
                auto c = static_cast<char32_t>(s.range(static_cast<int64_t>(r.first), static_cast<int64_t>(r.second)));
                // around the edges of a range
                if (s.chance(1, 3)) {
                    c = s.flip() ? r.first : r.second;
                    if (s.chance(1, 4) && c > 1) {
                        c += s.flip() ? 1 : static_cast<char32_t>(-1);
                    }
                }
                if ((c >= 0xd800 && c <= 0xdfff) || c > 0x10ffff) {
                    c = U'z';
                }
                o += c;
            }
            else {
                o += scalar(s);
            }
        }
        if (!o.empty()) {
            o.append(bulk(s, is_big(sp) ? 2 : 80), o.back());
        }
        return o;
    }
    if (sp.type == 'c') {
        u32s o;
        for (size_t n = s.len(16, 7, 8); n; --n) {
            o += s.chance(1, 6) ? ws_cp(s) : scalar(s);
        }
        if (!o.empty()) {
            o.append(bulk(s, is_big(sp) ? 2 : 80), o.back());
        }
        return o;
    }
    auto w = word(s, 1, 12);
    if (is_big(sp)) {
        w.append(bulk(s, 2), w.back());
    }
    return w;
}
// text for one field: fill, value, fill, something after it
inline u32s field_text(Src& s, Ty t, const Spec& sp)
{
    auto fills = [&] {
        return u32s(s.len(8, 2, 3) + bulk(s, is_big(sp) ? 2 : 100), s.chance(1, 8) ? ws_cp(s) : sp.the_fill());
    };
    u32s o;
    if (sp.align == '>' || sp.align == '^' || s.chance(1, 8)) {
        o += fills();
    }
    else if (s.chance(1, 2)) {
        o += ws(s, 4);
    }
    o += value_text(s, t, sp);
    if (sp.align == '<' || sp.align == '^' || s.chance(1, 8)) {
        o += fills();
    }
    switch (s.weighted({3, 2, 2, 1})) {
        case 0: break;
        case 1: o += ws(s, 5); break;
        case 2: o += word(s, 1, 3); break;
        default: o += U' '; o += word(s, 1, 5);
    }
    if (s.chance(1, 12)) {
        o.insert(s.draw(o.size() + 1), 1, s.flip() ? ws_cp(s) : scalar(s));
    }
    return o;
}

// ---- whole formats

using model::Piece;
inline char32_t lit_cp(Src& s)
{
    if (s.chance(1, 5)) {
        return s.flip() ? U'{' : U'}';
    }
    if (s.chance(1, 3)) {
        static const char32_t a[] = {'a', 'A', '%', '.', '1', '-', ':', '/', '\\', '"', 'l', ',', 0xe4, 0xc4, 0x20ac, 0x6f22, 0x1f600, 0xa0, 0x2003, 0x200b, 0x3000, 0xfeff};
        return s.pick(a);
    }
    return nonws(s);
}
inline void fix_scalars(u32s& text)
{
    for (auto& ch : text) {
        if (ch > 0x10ffff || (ch >= 0xd800 && ch <= 0xdfff)) {
            ch = U'?';
        }
    }
}
// a format with one field per type, framed or not, with literals between
inline std::vector<Piece> format_for(Src& s, const std::vector<Ty>& ts, unsigned lits)
{
    std::vector<Piece> ps;
    auto filler = [&] {
        for (size_t n = s.len(lits, 1, 2); n; --n) {
            Piece p;
            p.k = s.chance(1, 2) ? Piece::ws : Piece::lit;
            p.cp = p.k == Piece::ws ? ws_cp(s) : lit_cp(s);
            ps.push_back(p);
        }
    };
    filler();
    for (auto t : ts) {
        Piece p;
        p.k = Piece::field;
        p.t = t;
        p.sp = spec_for(s, t, s.chance(1, 3));
        ps.push_back(p);
        filler();
    }
    return ps;
}
// text along the lines of the format
inline u32s text_for(Src& s, const std::vector<Piece>& ps)
{
    u32s text;
    for (auto& p : ps) {
        switch (p.k) {
            case Piece::ws: text += ws(s, 4); break;
            case Piece::lit:
                if (s.chance(1, 60)) {
                    break;
                }
                text += s.chance(1, 60) ? p.cp ^ (1u << s.draw(7)) : p.cp;
                break;
            default:
                if (s.chance(1, 3)) {
                    text += ws(s, 2);
                }
                text += s.flip() ? value_text(s, p.t, p.sp) : field_text(s, p.t, p.sp);
                if (s.chance(1, 2)) {
                    text += ws(s, 2);
                }
        }
    }
    if (s.chance(1, 6)) {
        text.resize(s.draw(text.size() + 1));
    }
    else if (s.flip()) {
        text += s.flip() ? ws(s, 3) : word(s, 0, 3);
    }
    fix_scalars(text);
    return text;
}

}  // namespace gen
