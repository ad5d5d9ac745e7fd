#include "disp.h"
#include "gen.h"
// C01: integers against exact arithmetic.
const char* const pbt::property_id = "C01";
namespace {
using namespace pbt;
using model::M;
using model::Spec;
using model::Ty;

const char types[] = {0, 'd', 'u', 'i', 'b', 'B', 'o', 'O', 'x', 'X'};

void check(Src& s, Ctx& c, Ty t, char type, const h::u32s& text)
{
    Spec sp;
    sp.type = type;
    auto fmt = sp.field();
    M m = model::field(text, 0, t, sp);
    bool wide = s.chance(1, 3);
    int kind = s.pick({h::k_view, h::k_view, h::k_view, h::k_string, h::k_deque, h::k_list, h::k_lazy, h::k_file});
    if (wide && kind == h::k_file) {
        kind = h::k_fwd;
    }
    size_t buf = kind == h::k_file ? static_cast<size_t>(s.range(1, 24)) : 0;
    c.desc([&] {
        return std::string("type ") + disp::ty_name(t) + " format " + pbt::show(h::u32v(fmt)) + " text " +
               pbt::show(h::u32v(text)) + " source " + h::kind_name(kind) + (wide ? " wide" : "") +
               (m.st == M::ok ? " model " + m.val : " model error " + std::to_string(m.code));
    });
    auto o = disp::run(t, kind, wide, text, fmt, buf);
    if (m.st == M::ok || m.code == 7 || m.code == 8) {
        c.nontrivial(hash_str(h::utf8(text)) ^ (static_cast<uint64_t>(t) << 8) ^ static_cast<uint64_t>(type));
    }
    c.label(m.st == M::ok ? "value" : m.code == 7 || m.code == 8 ? "overflow" : "no literal");
    auto end = wide ? m.end : h::utf8(h::u32v(text).substr(0, m.end)).size();
    auto d = model::diff(m, o, end);
    if (!d.empty()) {
        fail(d);
    }
}

void literal(Src& s, Ctx& c)
{
    Ty t = static_cast<Ty>(s.draw(10));
    char type = s.pick(types);
    auto text = gen::ws(s, 3) + gen::int_text(s, t, type);
    check(s, c, t, type, text);
}

// every short string over the characters that matter
constexpr uint64_t alpha_n = 14;
void shorts(Src& s, Ctx& c)
{
    static const char32_t alpha[alpha_n] = {'0', '1', '7', '8', 'x', 'X', 'b', 'o', 'a', 'F', '+', '-', ' ', 'g'};
    uint64_t v = s.draw(1 + alpha_n + alpha_n * alpha_n + alpha_n * alpha_n * alpha_n + 38416);
    h::u32s text;
    uint64_t span = 1;
    size_t len = 0;
    while (v >= span) {
        v -= span;
        span *= alpha_n;
        ++len;
    }
    for (size_t i = 0; i < len; ++i) {
        text += alpha[v % alpha_n];
        v /= alpha_n;
    }
    Ty t = s.pick({model::t_int, model::t_uint, model::t_schar, model::t_uchar});
    static const char tt[] = {0, 'd', 'u', 'i', 'b', 'o', 'x'};
    check(s, c, t, s.pick(tt), text);
}

// every value in and around the 8- and 16-bit ranges
void small(Src& s, Ctx& c)
{
    auto v = static_cast<model::i128>(s.draw(140000)) - 70000;
    Ty t = v > -300 && v < 300 ? s.pick({model::t_schar, model::t_uchar, model::t_int})
                               : s.pick({model::t_short, model::t_ushort, model::t_long});
    char type = s.pick(types);
    int base = 10;
    const char32_t* pre = U"";
    switch (type) {
        case 'b': case 'B': base = 2; pre = U"0b"; break;
        case 'o': case 'O': base = 8; pre = U"0o"; break;
        case 'x': case 'X': base = 16; pre = U"0X"; break;
        default: break;
    }
    h::u32s text = v < 0 ? U"-" : U"";
    if (s.flip()) {
        text += pre;
    }
    text += gen::to_base(v < 0 ? -v : v, base, s.flip(), 0);
    if (s.flip()) {
        text += U" 1";
    }
    check(s, c, t, type, text);
}

template <typename T>
h::Out scan_int(std::string_view x, int base)
{
    h::Exact<char> e(x);
    auto sv = e.view();
    auto r = scn::scan_int<T>(sv, base);
    h::Out o;
    if (!r) {
        o.code = static_cast<int>(r.error().code());
    }
    else {
        o.ok = true;
        o.consumed = static_cast<long>(std::distance(sv.begin(), r->begin()));
        o.vals.push_back(h::canon(r->value()));
    }
    return o;
}

// scan_int with every base
void based(Src& s, Ctx& c)
{
    Ty t = static_cast<Ty>(s.draw(10));
    int base = s.chance(1, 8) ? 0 : static_cast<int>(s.range(2, 36));
    h::u32s text = gen::ws(s, 2);
    M m;
    if (base == 0 || base == 2 || base == 8 || base == 10 || base == 16) {
        char type = base == 0 ? 'i' : base == 2 ? 'b' : base == 8 ? 'o' : base == 10 ? 'd' : 'x';
        text += gen::int_text(s, t, type);
        Spec sp;
        sp.type = type;
        m = model::field(text, 0, t, sp);
    }
    else {
        auto v = gen::int_value(s, t);
        if (v < 0) {
            text += U'-';
        }
        else if (s.chance(1, 4)) {
            text += U'+';
        }
        text += gen::to_base(v < 0 ? -v : v, base, s.flip(), s.len(3, 1, 3));
        if (s.flip()) {
            text += gen::nonws(s);
        }
        if (s.chance(1, 10)) {
            text.insert(s.draw(text.size() + 1), 1, static_cast<char32_t>(s.range(0x21, 0x7e)));
        }
        // model: sign, digits
        size_t i = 0;
        while (i < text.size() && h::is_ws(text[i])) {
            ++i;
        }
        size_t b = i;
        bool neg = false;
        if (i < text.size() && (text[i] == '+' || text[i] == '-')) {
            neg = text[i] == '-';
            ++i;
        }
        model::i128 val;
        bool big;
        size_t e = model::digits(text, i, base, val, big);
        if (neg) {
            val = -val;
        }
        if (b == text.size()) {
            m = model::merr(0);
        }
        else if (neg && model::is_uns(t)) {
            m = model::merr(2);
        }
        else if (e == i) {
            m = i == text.size() ? model::merr() : model::merr(2);
        }
        else if (val > model::int_max(t)) {
            m = model::merr(7);
        }
        else if (val < model::int_min(t)) {
            m = model::merr(8);
        }
        else {
            m = model::mok(e, model::i128str(val));
        }
    }
    auto x = h::utf8(text);
    c.desc([&] { return "scan_int type " + std::to_string(t) + " base " + std::to_string(base) + " " + pbt::show(x); });
    h::Out o;
    switch (t) {
        case model::t_schar: o = scan_int<signed char>(x, base); break;
        case model::t_short: o = scan_int<short>(x, base); break;
        case model::t_int: o = scan_int<int>(x, base); break;
        case model::t_long: o = scan_int<long>(x, base); break;
        case model::t_llong: o = scan_int<long long>(x, base); break;
        case model::t_uchar: o = scan_int<unsigned char>(x, base); break;
        case model::t_ushort: o = scan_int<unsigned short>(x, base); break;
        case model::t_uint: o = scan_int<unsigned>(x, base); break;
        case model::t_ulong: o = scan_int<unsigned long>(x, base); break;
        default: o = scan_int<unsigned long long>(x, base);
    }
    if (m.st == M::ok || m.code >= 7) {
        c.nontrivial(hash_str(x) ^ static_cast<uint64_t>(t * 64 + base));
    }
    auto d = model::diff(m, o, h::utf8(h::u32v(text).substr(0, m.end)).size());
    if (!d.empty()) {
        fail(d);
    }
}

template <typename T>
void exh(std::string_view x, const std::string& want)
{
    // must be the only content; place it in a block of exactly its size
    h::Exact<char> e(x);
    auto got = h::canon(scn::scan_int_exhaustive_valid<T>(e.view()));
    if (got != want) {
        fail("scan_int_exhaustive_valid: expected " + want + " got " + got);
    }
}
void valid(Src& s, Ctx& c)
{
    Ty t = static_cast<Ty>(s.draw(10));
    auto v = gen::int_value(s, t);
    if (v > model::int_max(t)) {
        v = model::int_max(t);
    }
    if (v < model::int_min(t)) {
        v = model::int_min(t);
    }
    auto x = model::i128str(v);
    c.desc([&] { return "exhaustive_valid type " + std::to_string(t) + " " + x; });
    c.nontrivial(hash_str(x) ^ static_cast<uint64_t>(t));
    switch (t) {
        case model::t_schar: exh<signed char>(x, x); break;
        case model::t_short: exh<short>(x, x); break;
        case model::t_int: exh<int>(x, x); break;
        case model::t_long: exh<long>(x, x); break;
        case model::t_llong: exh<long long>(x, x); break;
        case model::t_uchar: exh<unsigned char>(x, x); break;
        case model::t_ushort: exh<unsigned short>(x, x); break;
        case model::t_uint: exh<unsigned>(x, x); break;
        case model::t_ulong: exh<unsigned long>(x, x); break;
        default: exh<unsigned long long>(x, x);
    }
}
}  // namespace

std::vector<pbt::Sub> pbt::subs()
{
    return {{"literal", literal, 8, 0},
            {"short", shorts, 1, 1 + alpha_n + alpha_n * alpha_n + alpha_n * alpha_n * alpha_n + 38416},
            {"small", small, 1, 140000},
            {"scan_int", based, 3, 0},
            {"exhaustive_valid", valid, 2, 0}};
}
