#include "disp.h"
#include "gen.h"
// C09: width, precision, fill and alignment.
const char* const pbt::property_id = "C09";
namespace {
using namespace pbt;
using model::M;
using model::Spec;
using model::Ty;

void check(Src& s, Ctx& c, Ty t, const Spec& sp, const h::u32s& text)
{
    auto fmt = sp.field();
    bool wide = t != model::t_char && s.chance(1, 3);
    M m = model::field(text, 0, t, sp, !wide);
    int kind = s.pick({h::k_view, h::k_view, h::k_view, h::k_string, h::k_deque, h::k_list, h::k_lazy, h::k_file});
    if (wide && kind == h::k_file) {
        kind = h::k_fwd;
    }
    if (t == model::t_view) {
        kind = h::k_view;
    }
    size_t buf = kind == h::k_file ? static_cast<size_t>(s.range(1, 24)) : 0;
    c.desc([&] {
        return std::string("type ") + disp::ty_name(t) + " format " + pbt::show(h::u32v(fmt)) + " text " +
               pbt::show(h::u32v(text)) + " source " + h::kind_name(kind) + (wide ? " wide" : "") +
               (m.st == M::ok ? " model " + m.val : m.st == M::unknown ? " model open" : " model error " + std::to_string(m.code));
    });
    auto o = disp::run(t, kind, wide, text, fmt, buf);
    c.label(m.st == M::ok ? "value" : m.st == M::unknown ? "open" : m.code == 5 ? "too short" : m.code == 4 ? "only fill" : "error");
    if (m.st != M::unknown && (sp.align || sp.width || sp.prec)) {
        c.nontrivial(hash_str(h::utf8(text)) ^ hash_str(h::utf8(fmt)) * 31 ^ static_cast<uint64_t>(t));
    }
    auto d = model::diff(m, o, wide ? m.end : model::units<char>(text, m.end));
    if (!d.empty()) {
        fail(d);
    }
    // whatever the value, the bounds on what was consumed hold
    if (o.ok && (sp.prec || sp.width) && !(t == model::t_char && m.st == M::unknown)) {
        size_t n = 0;
        if (wide) {
            n = static_cast<size_t>(o.consumed);
        }
        else {
            size_t u = 0;
            while (n < text.size() && u < static_cast<size_t>(o.consumed)) {
                u += h::utf8(text[n++]).size();
            }
        }
        int w = model::width_of(text, 0, n);
        if (sp.prec && w > sp.prec) {
            fail("consumed " + std::to_string(w) + " columns, more than the precision");
        }
        if (sp.width && w < sp.width) {
            fail("consumed " + std::to_string(w) + " columns, fewer than the width");
        }
    }
}

void framing(Src& s, Ctx& c)
{
    static const Ty ts[] = {model::t_int, model::t_uint, model::t_llong, model::t_uchar, model::t_double, model::t_float, model::t_string, model::t_string,
                            model::t_string, model::t_xstring, model::t_view, model::t_bool, model::t_char, model::t_wchar, model::t_char32, model::t_ptr, model::t_schar, model::t_ldouble};
    Ty t = s.pick(ts);
    auto sp = gen::spec_for(s, t, true);
    check(s, c, t, sp, gen::field_text(s, t, sp));
}

// every small combination for int and string over a tiny alphabet
void small(Src& s, Ctx& c)
{
    uint64_t v = s.draw(4 * 4 * 6 * 780);
    Spec sp;
    static const char al[] = {0, '<', '>', '^'};
    sp.align = al[v % 4];
    v /= 4;
    static const int wp[4][2] = {{0, 0}, {3, 0}, {0, 3}, {2, 4}};
    sp.width = wp[v % 4][0];
    sp.prec = wp[v % 4][1];
    v /= 4;
    static const Ty ts[] = {model::t_int, model::t_string, model::t_bool, model::t_char32, model::t_double, model::t_view};
    Ty t = ts[v % 6];
    v /= 6;
    if (sp.align) {
        sp.fill = U'*';
    }
    static const char32_t alpha[] = {'*', '1', ' ', 'a', 0x6f22};
    h::u32s text;
    uint64_t span = 1;
    size_t len = 0;
    while (v >= span) {
        v -= span;
        span *= 5;
        ++len;
    }
    for (size_t i = 0; i < len; ++i) {
        text += alpha[v % 5];
        v /= 5;
    }
    check(s, c, t, sp, text);
}
}  // namespace

std::vector<pbt::Sub> pbt::subs()
{
    return {{"framing", framing, 8, 0}, {"small", small, 1, 4 * 4 * 6 * 780}};
}
