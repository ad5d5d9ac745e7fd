#include "disp.h"
#include "gen.h"
// C10: words, {:c} and [...] sets, into strings and views of both character types.
const char* const pbt::property_id = "C10";
namespace {
using namespace pbt;
using model::M;
using model::Spec;
using model::Ty;

std::string about(Ty t, h::u32v fmt, h::u32v text, int kind, bool wide, const M& m)
{
    return std::string("type ") + disp::ty_name(t) + " format " + pbt::show(fmt) + " text " + pbt::show(text) + " source " +
           h::kind_name(kind) + (wide ? " wide" : "") +
           (m.st == M::ok ? " model " + m.val : m.st == M::unknown ? " model open" : " model error " + std::to_string(m.code));
}

void check(Src& s, Ctx& c, Ty t, const Spec& sp, const h::u32s& text)
{
    auto fmt = sp.field();
    bool wide = s.chance(1, 2);
    M m = model::field(text, 0, t, sp, !wide);
    int kind = s.pick({h::k_view, h::k_view, h::k_view, h::k_string, h::k_vector, h::k_deque, h::k_list, h::k_lazy, h::k_file});
    if (wide && kind == h::k_file) {
        kind = h::k_fwd;
    }
    if (t == model::t_view) {
        kind = h::k_view;
    }
    size_t buf = kind == h::k_file ? static_cast<size_t>(s.range(1, 24)) : 0;
    c.desc([&] { return about(t, fmt, text, kind, wide, m); });
    auto o = disp::run(t, kind, wide, text, fmt, buf);
    c.label(m.st == M::ok ? "value" : m.st == M::unknown ? "open" : "error");
    if (m.st == M::ok) {
        c.nontrivial(hash_str(h::utf8(text)) ^ hash_str(h::utf8(fmt)) * 31 ^ static_cast<uint64_t>(t));
    }
    auto d = model::diff(m, o, wide ? m.end : model::units<char>(text, m.end));
    if (!d.empty()) {
        fail(d);
    }
}
Ty str_ty(Src& s) { return s.pick({model::t_string, model::t_string, model::t_xstring, model::t_view}); }

void word(Src& s, Ctx& c)
{
    Ty t = str_ty(s);
    Spec sp;
    sp.type = s.pick({'\0', 's'});
    if (s.chance(1, 4)) {
        sp.align = s.pick({'<', '^', '>'});
        if (s.flip()) {
            sp.fill = gen::fill_cp(s);
        }
    }
    h::u32s text = gen::ws(s, 4);
    for (size_t n = s.len(3, 1, 2) + 1; n; --n) {
        text += gen::word(s, 1, s.chance(1, 20) ? 300 : 10);
        text += s.chance(1, 5) && sp.align ? h::u32s(2, sp.the_fill()) : gen::ws(s, 3);
    }
    check(s, c, t, sp, text);
}
void copy(Src& s, Ctx& c)
{
    Ty t = str_ty(s);
    Spec sp;
    sp.type = 'c';
    sp.prec = static_cast<int>(s.range(1, 20));
    if (s.chance(1, 4)) {
        sp.width = static_cast<int>(s.range(1, sp.prec));
    }
    check(s, c, t, sp, gen::value_text(s, t, sp));
}
void set(Src& s, Ctx& c)
{
    Ty t = str_ty(s);
    Spec sp;
    gen::charset(s, sp);
    check(s, c, t, sp, gen::value_text(s, t, sp) + (s.flip() ? gen::word(s, 0, 3) : U""));
}

// membership of single code points: every ASCII one, and the neighbourhood of
// every range end
void membership(Src& s, Ctx& c)
{
    Spec sp;
    gen::charset(s, sp);
    auto fmt = sp.field();
    bool wide = s.flip();
    Ty t = s.pick({model::t_string, model::t_xstring, model::t_view});
    int kind = t == model::t_view || s.flip() ? h::k_view : h::k_deque;
    std::vector<char32_t> cps;
    for (auto& r : sp.set) {
        for (int k = -1; k <= 1; ++k) {
            cps.push_back(r.first + static_cast<char32_t>(k));
            cps.push_back(r.second + static_cast<char32_t>(k));
        }
        cps.push_back(r.first + (r.second - r.first) / 2);
    }
    uint64_t base = s.draw(8);
    for (char32_t k = 0; k < 16; ++k) {
        cps.push_back(static_cast<char32_t>(base) * 16 + k);
    }
    for (char32_t x : {0x80, 0x85, 0xff, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0x2028}) {
        cps.push_back(x);
    }
    c.desc([&] { return "membership in " + pbt::show(h::u32v(fmt)) + (wide ? " wide" : ""); });
    c.nontrivial(hash_str(h::utf8(fmt)) ^ base);
    for (auto cp : cps) {
        if (cp > 0x10ffff || (cp >= 0xd800 && cp <= 0xdfff)) {
            continue;
        }
        h::u32s text(1, cp);
        auto o = disp::run(t, kind, wide, text, fmt);
        bool in = sp.in_set(cp);
        if (o.ok != in || (o.ok && (o.vals[0] != model::strval(text)))) {
            fail(std::string("U+") + std::to_string(static_cast<unsigned>(cp)) + (in ? " is" : " is not") + " in the set, but got " + h::show(o) + " " +
                 pbt::show(h::u32v(text)));
        }
    }
}

// the view lies where the string was copied from
template <typename CharT>
void alias_impl(Src& s, Ctx& c)
{
    Spec sp = gen::spec_for(s, model::t_view, s.flip());
    auto text = gen::field_text(s, model::t_view, sp);
    auto fmt = h::enc<CharT>(sp.field());
    auto x = h::enc<CharT>(text);
    h::Exact<CharT> e{std::basic_string_view<CharT>(x)};
    auto sv = e.view();
    auto a = scn::scan<std::basic_string_view<CharT>>(sv, h::rt(fmt));
    auto b = scn::scan<std::basic_string<CharT>>(sv, h::rt(fmt));
    c.desc([&] { return "view and string of " + pbt::show(h::u32v(text)) + " with " + pbt::show(h::u32v(sp.field())); });
    if (a.has_value() != b.has_value()) {
        fail("view and string disagree on success");
    }
    if (!a) {
        if (a.error().code() != b.error().code()) {
            fail("view and string disagree on the error");
        }
        return;
    }
    c.nontrivial(hash_str(h::utf8(text)) ^ hash_str(h::utf8(sp.field())));
    auto v = a->value();
    if (v != b->value()) {
        fail("view and string hold different text");
    }
    if (a->begin() != b->begin()) {
        fail("view and string have different remainders");
    }
    if (!v.empty()) {
        if (v.data() < sv.data() || v.data() + v.size() > sv.data() + sv.size()) {
            fail("view does not refer to the source");
        }
        // it ends before the remainder, and everything between is framing
        auto rest = a->begin() - sv.begin();
        auto end = v.data() + v.size() - sv.data();
        if (end > rest) {
            fail("view extends into the remainder");
        }
        if (sp.align == 0 && !sp.width && !sp.prec && end != rest) {
            fail("remainder does not start where the view ends");
        }
    }
}
void alias(Src& s, Ctx& c) { s.flip() ? alias_impl<wchar_t>(s, c) : alias_impl<char>(s, c); }
}  // namespace

std::vector<pbt::Sub> pbt::subs()
{
    return {{"word", word, 3, 0}, {"copy", copy, 2, 0}, {"set", set, 4, 0}, {"membership", membership, 1, 0}, {"alias", alias, 2, 0}};
}
