#include "disp.h"
#include "gen.h"
// C02: floating-point numbers against an independent grammar + the C library's
// correctly rounded conversion, and bit-exact round trips.
const char* const pbt::property_id = "C02";
namespace {
using namespace pbt;
using model::M;
using model::Spec;
using model::Ty;

const char types[] = {0, 0, 'a', 'A', 'e', 'E', 'f', 'F', 'g', 'G'};

void check(Src& s, Ctx& c, Ty t, char type, const h::u32s& text)
{
    Spec sp;
    sp.type = type;
    auto fmt = sp.field();
    M m = model::field(text, 0, t, sp);
    bool wide = s.chance(1, 3);
    int kind = s.pick({h::k_view, h::k_view, h::k_view, h::k_string, h::k_deque, h::k_list, h::k_lazy, h::k_file});
    if (wide && kind == h::k_file) {
        kind = h::k_fwd;
    }
    size_t buf = kind == h::k_file ? static_cast<size_t>(s.range(1, 24)) : 0;
    c.desc([&] {
        return std::string("type ") + disp::ty_name(t) + " format " + pbt::show(h::u32v(fmt)) + " text " +
               pbt::show(h::u32v(text)) + " source " + h::kind_name(kind) + (wide ? " wide" : "") +
               (m.st == M::ok ? " model " + m.val : " model error " + std::to_string(m.code));
    });
    auto o = disp::run(t, kind, wide, text, fmt, buf);
    if (m.st == M::ok || m.code >= 7) {
        c.nontrivial(hash_str(h::utf8(text)) ^ (static_cast<uint64_t>(t) << 8) ^ static_cast<uint64_t>(type));
    }
    c.label(m.st == M::ok ? "value" : m.st == M::unknown ? "open" : m.code >= 9 ? "underflow" : m.code >= 7 ? "overflow" : "no literal");
    auto d = model::diff(m, o, wide ? m.end : model::units<char>(text, m.end));
    if (!d.empty()) {
        fail(d);
    }
}

void literal(Src& s, Ctx& c)
{
    Ty t = s.pick({model::t_double, model::t_float, model::t_ldouble});
    char type = s.pick(types);
    auto text = gen::ws(s, 2) + gen::float_text(s, t);
    check(s, c, t, type, text);
}

constexpr uint64_t an = 15;
constexpr uint64_t short_n = 1 + an + an * an + an * an * an + an * an * an * an;
void shorts(Src& s, Ctx& c)
{
    static const char32_t alpha[an] = {'0', '1', '9', '.', 'e', 'E', 'x', 'p', '+', '-', 'a', 'f', ' ', 'i', 'n'};
    uint64_t v = s.draw(short_n);
    h::u32s text;
    uint64_t span = 1;
    size_t len = 0;
    while (v >= span) {
        v -= span;
        span *= an;
        ++len;
    }
    for (size_t i = 0; i < len; ++i) {
        text += alpha[v % an];
        v /= an;
    }
    static const char tt[] = {0, 'a', 'e', 'f', 'g'};
    check(s, c, s.pick({model::t_double, model::t_float}), s.pick(tt), text);
}

// print -> scan restores the very bits, whatever the model says
template <typename T>
void rt(Src& s, Ctx& c, T v, Ty t)
{
    char b[6000];
    bool ld = sizeof(T) > 8;
    int prec = std::numeric_limits<T>::max_digits10 + static_cast<int>(s.draw(4));
    const char* f;
    char type;
    switch (s.draw(5)) {
        case 0: f = ld ? "%.*Lg" : "%.*g"; type = s.pick({'\0', 'g', 'G'}); break;
        case 1: f = ld ? "%.*Le" : "%.*e"; type = s.pick({'\0', 'e', 'E', 'g'}); break;
        case 2: f = ld ? "%.*Lf" : "%.*f"; type = s.pick({'\0', 'f', 'F', 'g'}); prec = ld ? 200 : 120 + static_cast<int>(s.draw(1000)); break;
        case 3: f = ld ? "%La" : "%a"; type = s.pick({'\0', 'a', 'A'}); prec = -1; break;
        default: f = ld ? "%LA" : "%A"; type = s.pick({'\0', 'a', 'A'}); prec = -1; break;
    }
    if (prec < 0) {
        std::snprintf(b, sizeof b, f, v);
    }
    else {
        std::snprintf(b, sizeof b, f, prec, v);
    }
    Spec sp;
    sp.type = type;
    auto fmt = sp.field();
    auto text = h::ascii32(b);
    if (s.flip()) {
        text += U" 12";
    }
    size_t n = std::strlen(b);
    bool wide = s.flip();
    int kind = s.pick({h::k_view, h::k_deque});
    c.desc([&] { return std::string("round trip ") + disp::ty_name(t) + " " + h::canon(v) + " as " + b + (wide ? " wide" : ""); });
    // 'f' with a fixed number of decimals is not always exact
    bool exact = !(f[std::strlen(f) - 1] == 'f' && std::fabs(v) < 1e-30 && v != 0);
    if (type == 'e' || type == 'E') {
        exact = exact && !std::isinf(v);
    }
    auto o = disp::run(t, kind, wide, text, fmt);
    if (!exact) {
        return;
    }
    c.nontrivial(hash_str(b) ^ static_cast<uint64_t>(t));
    if (!o.ok || o.vals[0] != h::canon(v) || o.consumed != static_cast<long>(n)) {
        fail(std::string("printed ") + b + " of " + h::canon(v) + " but scanned " + h::show(o));
    }
}
void round_trip(Src& s, Ctx& c)
{
    uint64_t u = s.bits();
    switch (s.draw(3)) {
        case 0: {
            auto x = static_cast<uint32_t>(u);
            float f;
            std::memcpy(&f, &x, 4);
            if (std::isnan(f) || std::isinf(f)) {
                f = 1.5f;
            }
            return rt(s, c, f, model::t_float);
        }
        case 1: {
            double f;
            std::memcpy(&f, &u, 8);
            if (std::isnan(f) || std::isinf(f)) {
                f = 1.5;
            }
            return rt(s, c, f, model::t_double);
        }
        default: {
            // mantissa and exponent drawn separately
            int e = static_cast<int>(s.range(-16000, 16000));
            if (s.flip()) {
                e %= 90;
            }
            long double f = std::ldexp(static_cast<long double>(u | (1ull << 63)), e);
            if (std::isinf(f) || f == 0) {
                f = 1.5;
            }
            return rt(s, c, s.flip() ? -f : f, model::t_ldouble);
        }
    }
}
}  // namespace

std::vector<pbt::Sub> pbt::subs()
{
    return {{"literal", literal, 6, 0}, {"short", shorts, 1, short_n}, {"round_trip", round_trip, 3, 0}};
}
