// An independent reading of the documented format string grammar.
#pragma once
#include "gen.h"
namespace fmtparse {
using model::Piece;
using model::Spec;
using model::Ty;
using h::u32s;
using h::u32v;

struct Parsed {
    enum St { valid, invalid, open } st = valid;
    std::vector<Piece> pieces;  // invalid: those before the offending one
    std::string why;
};

inline bool type_ok(Ty t, char c)
{
    using namespace model;
    if (is_str(t)) {
        return c == 's' || c == 'c' || c == '[';
    }
    if (t == t_char32) {
        return c == 'c';
    }
    return std::strchr(gen::types_of(t), c) != nullptr;
}

// the specifier after ':', up to and including '}'
inline void spec(u32v f, size_t& i, Ty t, Spec& sp, Parsed& r)
{
    auto bad = [&](const char* w) {
        if (r.st == Parsed::valid || r.st == Parsed::open) {
            r.st = Parsed::invalid;
            r.why = w;
        }
    };
    bool is_open = false;
    auto at = [&](size_t k) -> char32_t { return k < f.size() ? f[k] : U'\0'; };
    auto align = [](char32_t c) { return c == '<' || c == '>' || c == '^'; };
    if (i >= f.size()) {
        return bad("end");
    }
    if (f[i] == '{') {
        return bad("brace");
    }
    if (f[i] == '[' && align(at(i + 1))) {
        is_open = true;  // a fill by the grammar, read as a set
    }
    else if (f[i] != '}') {
        if (i + 1 < f.size() && align(f[i + 1])) {
            sp.fill = f[i];
            sp.align = static_cast<char>(f[i + 1]);
            if (sp.fill == 0) {
                is_open = true;
            }
            i += 2;
        }
        else if (align(f[i])) {
            sp.align = static_cast<char>(f[i]);
            ++i;
        }
    }
    auto num = [&](int& v) {
        long n = 0;
        size_t k = i;
        while (i < f.size() && f[i] >= '0' && f[i] <= '9') {
            n = std::min(n * 10 + static_cast<long>(f[i] - '0'), 1L << 40);
            ++i;
        }
        if (i == k) {
            return false;
        }
        if (f[k] == '0') {
            is_open = true;  // zero, or a leading zero
        }
        if (n > INT_MAX) {
            bad("number too big");
        }
        v = static_cast<int>(std::min(n, static_cast<long>(INT_MAX)));
        return true;
    };
    num(sp.width);
    if (at(i) == '.' && i < f.size()) {
        ++i;
        if (!num(sp.prec)) {
            return bad("precision without digits");
        }
    }
    if (sp.width && sp.prec && sp.width > sp.prec) {
        bad("width above precision");
    }
    if (i < f.size() && f[i] == 'L') {
        ++i;
        sp.L = true;
        if (!model::is_int(t) && !model::is_flt(t) && t != model::t_bool) {
            bad("L");
        }
    }
    if (i >= f.size()) {
        return bad("end");
    }
    if (f[i] == '[') {
        sp.type = '[';
        ++i;
        size_t begin = i;
        if (at(i) == '^' && i < f.size()) {
            sp.set_inv = true;
            ++i;
            if (i < f.size() && f[i] == ']') {
                sp.set.push_back({U']', U']'});
                ++i;
            }
        }
        bool closed = false;
        while (i < f.size()) {
            if (f[i] == ']') {
                closed = true;
                break;
            }
            char32_t a = f[i++];
            if (i + 1 < f.size() && f[i] == '-' && f[i + 1] != ']') {
                char32_t b = f[i + 1];
                i += 2;
                if (b < a) {
                    return bad("reversed range");
                }
                sp.set.push_back({a, b});
            }
            else {
                sp.set.push_back({a, a});
            }
        }
        if (!closed) {
            return bad("set not closed");
        }
        sp.set_text = u32s(f.substr(begin, i - begin));
        ++i;
        if (sp.set.empty()) {
            return bad("empty set");
        }
        if (!type_ok(t, '[')) {
            return bad("set for another type");
        }
    }
    else if (f[i] == '/') {
        if (!model::is_str(t)) {
            return bad("regex for another type");
        }
        r.st = Parsed::open;
        i = f.size();
        return;
    }
    else if (f[i] != '}') {
        if (f[i] < 0x80 && std::strchr("bBdiuoOxXaAeEfFgGscprR?", static_cast<int>(f[i])) && f[i] != 0) {
            sp.type = static_cast<char>(f[i]);
            bool documented_only = model::is_int(t) && (sp.type == 'r' || sp.type == 'R' || sp.type == 'c');
            if (documented_only || ((sp.type == 'r' || sp.type == 'R') && (t == model::t_char || t == model::t_wchar))) {
                // documented, but not provided
                r.st = Parsed::open;
                i = f.size();
                return;
            }
            if (!type_ok(t, sp.type)) {
                return bad("type not allowed for the argument");
            }
            if (model::is_str(t) && sp.type == 'c' && !sp.prec && !is_open) {
                return bad("c without precision");
            }
            ++i;
        }
        else {
            return bad("unknown type");
        }
    }
    if (sp.L && (sp.type == 'b' || sp.type == 'B')) {
        is_open = true;
    }
    if (i >= f.size() || f[i] != '}') {
        return bad("not closed");
    }
    ++i;
    if (is_open && r.st == Parsed::valid) {
        r.st = Parsed::open;
    }
}

inline Parsed parse(u32v f, const std::vector<Ty>& ts)
{
    Parsed r;
    size_t i = 0;
    int mode = 0;  // 1 automatic 2 explicit
    size_t next = 0;
    std::vector<bool> seen(ts.size());
    auto bad = [&](const char* w) {
        r.st = Parsed::invalid;
        r.why = w;
    };
    while (i < f.size()) {
        char32_t c = f[i];
        Piece p;
        if (c == '}') {
            if (i + 1 < f.size() && f[i + 1] == '}') {
                p.k = Piece::lit;
                p.cp = c;
                r.pieces.push_back(p);
                i += 2;
                continue;
            }
            bad("unmatched }");
            return r;
        }
        if (c != '{') {
            p.k = h::is_ws(c) ? Piece::ws : Piece::lit;
            p.cp = c;
            r.pieces.push_back(p);
            ++i;
            continue;
        }
        ++i;
        if (i >= f.size()) {
            bad("end");
            return r;
        }
        if (f[i] == '{') {
            p.k = Piece::lit;
            p.cp = c;
            r.pieces.push_back(p);
            ++i;
            continue;
        }
        size_t id;
        bool zeros = false;
        if (f[i] == '}' || f[i] == ':') {
            if (mode == 2) {
                bad("mixed numbering");
                return r;
            }
            mode = 1;
            id = next++;
        }
        else {
            size_t k = i, n = 0;
            while (i < f.size() && f[i] >= '0' && f[i] <= '9') {
                n = std::min<size_t>(n * 10 + (f[i] - '0'), 1u << 30);
                ++i;
            }
            if (k == i) {
                bad("argument id");
                return r;
            }
            zeros = f[k] == '0' && i - k > 1;
            if (i >= f.size() || (f[i] != '}' && f[i] != ':')) {
                bad("argument id not closed");
                return r;
            }
            if (mode == 1) {
                bad("mixed numbering");
                return r;
            }
            mode = 2;
            id = n;
            p.id = static_cast<int>(n);
        }
        if (id >= ts.size()) {
            bad("no such argument");
            return r;
        }
        if (seen[id]) {
            bad("argument used twice");
            return r;
        }
        if (zeros) {
            r.st = Parsed::open;
            return r;
        }
        seen[id] = true;
        p.k = Piece::field;
        p.t = ts[id];
        p.id = static_cast<int>(id);
        if (f[i] == '}') {
            ++i;
        }
        else {
            ++i;
            spec(f, i, p.t, p.sp, r);
            if (r.st == Parsed::invalid) {
                return r;
            }
            if (i >= f.size() && f[f.size() - 1] != '}') {
                if (r.st == Parsed::open) {
                    return r;
                }
            }
        }
        if (r.st == Parsed::open) {
            // nothing is said about the rest
            return r;
        }
        r.pieces.push_back(p);
    }
    for (bool b : seen) {
        if (!b) {
            bad("argument not used");
        }
    }
    return r;
}
}  // namespace fmtparse
