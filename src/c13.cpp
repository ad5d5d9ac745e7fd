#include "disp.h"
#include "gen.h"
// C13: bool, character and pointer spellings.
const char* const pbt::property_id = "C13";
namespace {
using namespace pbt;
using model::M;
using model::Spec;
using model::Ty;

void check(Src& s, Ctx& c, Ty t, char type, const h::u32s& text)
{
    Spec sp;
    sp.type = type;
    auto fmt = sp.field();
    M m = model::field(text, 0, t, sp);
    bool wide = t != model::t_char && s.chance(1, 2);
    int kind = s.pick({h::k_view, h::k_view, h::k_view, h::k_string, h::k_deque, h::k_list, h::k_lazy, h::k_file});
    if (wide && kind == h::k_file) {
        kind = h::k_fwd;
    }
    size_t buf = kind == h::k_file ? static_cast<size_t>(s.range(1, 12)) : 0;
    c.desc([&] {
        return std::string("type ") + disp::ty_name(t) + " format " + pbt::show(h::u32v(fmt)) + " text " +
               pbt::show(h::u32v(text)) + " source " + h::kind_name(kind) + (wide ? " wide" : "") +
               (m.st == M::ok ? " model " + m.val : " model error " + std::to_string(m.code));
    });
    auto o = disp::run(t, kind, wide, text, fmt, buf);
    c.label(m.st == M::ok ? "value" : m.st == M::unknown ? "open" : "error");
    if (m.st == M::ok || (m.st == M::err && m.code != 0)) {
        c.nontrivial(hash_str(h::utf8(text)) ^ (static_cast<uint64_t>(t) << 8) ^ static_cast<uint64_t>(type));
    }
    auto d = model::diff(m, o, wide ? m.end : model::units<char>(text, m.end));
    if (!d.empty()) {
        fail(d);
    }
}

h::u32s tail(Src& s)
{
    switch (s.weighted({3, 1, 1, 1})) {
        case 0: return U"";
        case 1: return gen::ws(s, 2);
        case 2: return gen::word(s, 1, 3);
        default: return U" 1";
    }
}

void boolean(Src& s, Ctx& c)
{
    static const char32_t* base[] = {U"true", U"false", U"0", U"1", U"t", U"f", U"True", U"FALSE", U"2", U"-1", U"+1", U"01", U"10",
                                     U"tru", U"fals", U"truefalse", U"yes", U"0x1", U"1.0", U"on", U"00", U"11"};
    h::u32s t = s.pick(base);
    if (s.chance(1, 4)) {
        // damage a spelling
        size_t i = s.draw(t.size());
        switch (s.draw(3)) {
            case 0: t.erase(i, 1); break;
            case 1: t[i] = s.flip() ? gen::nonws(s) : t[i] ^ 0x20; break;
            default: t.insert(i, 1, gen::nonws(s));
        }
    }
    static const char tt[] = {0, 's', 'i', 'd', 'u', 'b', 'B', 'o', 'O', 'x', 'X'};
    char type = s.pick(tt);
    check(s, c, model::t_bool, type, gen::ws(s, 2) + t + tail(s));
}

// every ASCII code unit, and any code point
void character(Src& s, Ctx& c)
{
    auto k = static_cast<char32_t>(s.draw(128 + 400));
    char32_t cp = k < 128 ? k : gen::scalar(s);
    Ty t = s.pick({model::t_char, model::t_wchar, model::t_char32});
    if (t == model::t_char && cp > 0x7f) {
        t = model::t_char32;
    }
    char type = t == model::t_char32 ? '\0' : s.pick({'\0', 'c'});
    h::u32s text(1, cp);
    text += tail(s);
    check(s, c, t, type, text);
}
// a char is one code unit, whatever it is
void char_unit(Src& s, Ctx& c)
{
    auto b = static_cast<char>(s.draw(256));
    std::string text(1, b);
    for (auto n = s.draw(4); n; --n) {
        text += static_cast<char>(s.draw(256));
    }
    int kind = s.pick({h::k_view, h::k_string, h::k_vector, h::k_deque, h::k_list, h::k_fwd, h::k_lazy, h::k_file});
    size_t buf = static_cast<size_t>(s.range(1, 4));
    std::string fmt = s.flip() ? "{}" : "{:c}";
    c.desc([&] { return "char from " + pbt::show(text) + " with " + fmt + " source " + h::kind_name(kind); });
    c.nontrivial(hash_str(text) ^ static_cast<uint64_t>(kind));
    auto o = disp::run_narrow(model::t_char, kind, text, fmt, buf);
    if (!o.ok || o.vals[0] != h::canon(b) || o.consumed != 1) {
        fail("expected " + h::canon(b) + ", consuming 1, got " + h::show(o));
    }
}
void char_int(Src& s, Ctx& c)
{
    Ty t = s.pick({model::t_char, model::t_wchar});
    static const char tt[] = {'i', 'd', 'u', 'b', 'B', 'o', 'O', 'x', 'X'};
    char type = s.pick(tt);
    check(s, c, t, type, gen::ws(s, 2) + gen::int_text(s, t, type));
}
void pointer(Src& s, Ctx& c)
{
    h::u32s text = gen::ws(s, 2);
    switch (s.weighted({3, 2, 2})) {
        case 0: {
            char b[40];
            std::snprintf(b, sizeof b, "%p", reinterpret_cast<void*>(s.bits() >> s.draw(64)));
            text += b[0] == '(' ? h::ascii32("0x0") : h::ascii32(b);
            break;
        }
        case 1: text += gen::int_text(s, model::t_ulong, 'x'); break;
        default: {
            static const char32_t* v[] = {U"0", U"0x", U"0xg", U"(nil)", U"nullptr", U"null", U"NULL", U"0X1f", U"deadBEEF", U"0x0x1",
                                          U"ffffffffffffffff", U"0xffffffffffffffff", U"10000000000000000", U"-1", U"x1", U"0b1", U"G", U"00000000000000000001"};
            text += s.pick(v);
        }
    }
    text += tail(s);
    check(s, c, model::t_ptr, s.pick({'\0', 'p'}), text);
}
// print -> scan
void round_trip(Src& s, Ctx& c)
{
    bool wide = s.flip();
    int kind = s.pick({h::k_view, h::k_deque});
    Spec sp;
    Ty t;
    h::u32s text;
    std::string want;
    char b[64];
    switch (s.draw(4)) {
        case 0: {
            t = model::t_bool;
            bool v = s.flip();
            bool alpha = s.flip();
            text = alpha ? (v ? U"true" : U"false") : (v ? U"1" : U"0");
            sp.type = s.flip() ? '\0' : alpha ? 's' : 'd';
            want = h::canon(v);
            break;
        }
        case 1: {
            t = model::t_ptr;
            auto p = reinterpret_cast<void*>((s.bits() >> s.draw(64)) | 1);
            std::snprintf(b, sizeof b, "%p", p);
            text = h::ascii32(b);
            want = h::canon(p);
            break;
        }
        case 2: {
            t = model::t_char32;
            auto v = gen::scalar(s);
            text = h::u32s(1, v);
            want = h::canon(v);
            break;
        }
        default: {
            t = model::t_char;
            wide = false;
            auto v = static_cast<char>(s.draw(256));
            sp.type = s.pick({'d', 'i', 'x'});
            std::snprintf(b, sizeof b, sp.type == 'x' ? "%s0x%x" : "%s%d", v < 0 ? "-" : "", std::abs(static_cast<int>(v)));
            text = h::ascii32(b);
            want = h::canon(v);
        }
    }
    auto fmt = sp.field();
    size_t n = text.size();
    text += tail(s) + U"";
    // a following digit would extend a number
    if (t == model::t_ptr || t == model::t_char) {
        text = text.substr(0, n);
    }
    c.desc([&] { return std::string("round trip ") + want + " as " + pbt::show(h::u32v(text)) + (wide ? " wide" : ""); });
    c.nontrivial(hash_str(h::utf8(text)) ^ static_cast<uint64_t>(t));
    auto o = disp::run(t, kind, wide, text, fmt);
    size_t end = wide ? n : model::units<char>(text, n);
    if (!o.ok || o.vals[0] != want || o.consumed != static_cast<long>(end)) {
        fail("printed " + pbt::show(h::u32v(text)) + " of " + want + " but scanned " + h::show(o));
    }
}
}  // namespace

std::vector<pbt::Sub> pbt::subs()
{
    return {{"boolean", boolean, 3, 0}, {"character", character, 2, 128 * 2}, {"char_unit", char_unit, 1, 1024}, {"char_int", char_int, 2, 0}, {"pointer", pointer, 2, 0}, {"round_trip", round_trip, 2, 0}};
}
