#include "gen.h"
// C07: literal text and whitespace in formats.
const char* const pbt::property_id = "C07";
namespace {
using namespace pbt;
using model::M;
using model::Piece;
using model::Spec;
using model::Ty;

template <typename... Ts, typename CharT>
h::Out go(int kind, const std::basic_string<CharT>& x, const std::basic_string<CharT>& f, size_t buf)
{
    return h::run<Ts...>(kind, std::basic_string_view<CharT>(x), f, buf);
}
template <typename CharT>
h::Out disp(int tuple, int kind, const h::u32s& text, const h::u32s& fmt, size_t buf)
{
    auto x = h::enc<CharT>(text);
    auto f = h::enc<CharT>(fmt);
    switch (tuple) {
        case 0: return go<>(kind, x, f, buf);
        case 1: return go<std::basic_string<CharT>>(kind, x, f, buf);
        case 2: return go<int>(kind, x, f, buf);
        case 3: return go<char32_t>(kind, x, f, buf);
        case 4: return go<int, std::basic_string<CharT>>(kind, x, f, buf);
        default: return go<std::basic_string<CharT>, char32_t, int>(kind, x, f, buf);
    }
}
std::vector<Ty> tuple_types(int t)
{
    using namespace model;
    switch (t) {
        case 0: return {};
        case 1: return {t_string};
        case 2: return {t_int};
        case 3: return {t_char32};
        case 4: return {t_int, t_string};
        default: return {t_string, t_char32, t_int};
    }
}
char32_t lit_cp(Src& s)
{
    if (s.chance(1, 5)) {
        return s.flip() ? U'{' : U'}';
    }
    if (s.chance(1, 3)) {
        static const char32_t a[] = {'a', 'A', '%', '.', '1', '-', ':', '/', '\\', '"', 'l', ',', 0xe4, 0xc4, 0x20ac, 0x6f22, 0x1f600, 0xa0, 0x2003, 0x200b, 0x3000, 0xfeff};
        return s.pick(a);
    }
    return gen::nonws(s);
}

void pieces(Src& s, Ctx& c)
{
    int tuple = static_cast<int>(s.draw(6));
    auto ts = tuple_types(tuple);
    std::vector<Piece> ps;
    auto filler = [&] {
        for (size_t n = s.len(4, 1, 2); n; --n) {
            Piece p;
            p.k = s.chance(1, 3) ? Piece::ws : Piece::lit;
            p.cp = p.k == Piece::ws ? gen::ws_cp(s) : lit_cp(s);
            ps.push_back(p);
        }
    };
    filler();
    for (auto t : ts) {
        Piece p;
        p.k = Piece::field;
        p.t = t;
        if (t == model::t_string && s.chance(1, 2)) {
            gen::charset(s, p.sp);
        }
        ps.push_back(p);
        filler();
    }
    // the text: what the format describes, then damaged
    h::u32s text;
    for (auto& p : ps) {
        switch (p.k) {
            case Piece::ws: text += gen::ws(s, 4); break;
            case Piece::lit:
                if (s.chance(1, 40)) {
                    break;
                }
                text += s.chance(1, 30) ? p.cp ^ (1u << s.draw(7)) : p.cp;
                if (s.chance(1, 30)) {
                    text += U' ';
                }
                break;
            default:
                if (s.chance(1, 3)) {
                    text += gen::ws(s, 2);
                }
                text += gen::value_text(s, p.t, p.sp);
        }
    }
    if (s.chance(1, 4)) {
        text.resize(s.draw(text.size() + 1));
    }
    else if (s.flip()) {
        text += s.flip() ? gen::ws(s, 3) : gen::word(s, 0, 3);
    }
    for (auto& ch : text) {
        if (ch > 0x10ffff || (ch >= 0xd800 && ch <= 0xdfff)) {
            ch = U'?';
        }
    }
    auto fmt = model::fmt_text(ps);
    bool wide = s.flip();
    int kind = s.pick({h::k_view, h::k_view, h::k_string, h::k_deque, h::k_list, h::k_lazy, h::k_file});
    if (wide && kind == h::k_file) {
        kind = h::k_fwd;
    }
    size_t buf = kind == h::k_file ? static_cast<size_t>(s.range(1, 16)) : 0;
    auto m = model::match(text, 0, ps, !wide);
    c.desc([&] {
        return "format " + pbt::show(h::u32v(fmt)) + " text " + pbt::show(h::u32v(text)) + " source " + h::kind_name(kind) + (wide ? " wide" : "");
    });
    c.label(m.st == M::ok ? "match" : m.st == M::unknown ? "open" : m.code == 3 ? "literal mismatch" : "field error");
    if (m.st != M::unknown && ps.size() > ts.size()) {
        c.nontrivial(hash_str(h::utf8(fmt)) ^ hash_str(h::utf8(text)) * 31);
    }
    auto o = wide ? disp<wchar_t>(tuple, kind, text, fmt, buf) : disp<char>(tuple, kind, text, fmt, buf);
    auto d = model::diff(m, o, wide ? m.end : model::units<char>(text, m.end));
    if (!d.empty()) {
        fail(d);
    }
}

// every code point: as a literal it matches itself only, and it is whitespace
// exactly if documented so
constexpr uint64_t chunk = 128;
constexpr uint64_t chunks = 0x110000 / chunk;
template <typename CharT>
void every_impl(char32_t base, int kind)
{
    for (char32_t cp = base; cp < base + chunk; ++cp) {
        if ((cp >= 0xd800 && cp <= 0xdfff) || cp == '{' || cp == '}' || cp == 'X' || cp == 'W') {
            continue;
        }
        h::u32s one(1, cp), x = one + U"X", other(1, cp + 1 == 0xd800 || cp + 1 > 0x10ffff ? U'!' : cp + 1);
        auto u = h::enc<CharT>(one).size();
        auto go0 = [&](const h::u32s& text, const h::u32s& fmt) { return go<>(kind, h::enc<CharT>(text), h::enc<CharT>(fmt), 0); };
        auto o = go0(x, one);
        auto who = " (U+" + std::to_string(static_cast<unsigned>(cp)) + " decimal)";
        if (!o.ok || o.consumed != static_cast<long>(u)) {
            fail("a code point does not match itself as a literal: " + h::show(o) + who);
        }
        o = go0(x, U" X");
        if (o.ok != h::is_ws(cp)) {
            fail(std::string("format whitespace ") + (o.ok ? "skipped" : "did not skip") + who);
        }
        o = go0(U" X", one + U"X");
        if (o.ok != h::is_ws(cp)) {
            fail(std::string("in a format, it is ") + (o.ok ? "" : "not ") + "treated as whitespace" + who);
        }
        if (!h::is_ws(cp)) {
            o = go0(other + U"X", one);
            if (o.ok || o.code != 3) {
                fail("a literal matched another code point: " + h::show(o) + who);
            }
        }
    }
}
void every(Src& s, Ctx& c)
{
    auto k = s.draw(chunks);
    bool wide = s.flip();
    int kind = s.pick({h::k_view, h::k_view, h::k_view, h::k_deque});
    c.desc([&] { return "code points " + std::to_string(k * chunk) + "..+" + std::to_string(chunk) + (wide ? " wide" : ""); });
    c.nontrivial(k * 2 + wide);
    auto b = static_cast<char32_t>(k * chunk);
    wide ? every_impl<wchar_t>(b, kind) : every_impl<char>(b, kind);
}
}  // namespace

std::vector<pbt::Sub> pbt::subs()
{
    return {{"pieces", pieces, 40, 0}, {"every", every, 1, chunks}};
}
