#include "gen.h"
#include "tuples.h"
// C04: narrow and wide scanning agree.
const char* const pbt::property_id = "C04";
namespace {
using namespace pbt;
using model::Spec;
using model::Ty;

void compare(Ctx& c, const h::Out& n, const h::Out& w, h::u32v text, uint64_t key)
{
    c.label(n.ok ? "value" : "error");
    if (n.ok || n.code != 1) {
        c.nontrivial(key);
    }
    if (n.ok != w.ok || (n.ok ? n.vals != w.vals : n.code != w.code)) {
        fail("narrow: " + h::show(n) + " wide: " + h::show(w));
    }
    if (n.ok) {
        auto u = h::utf8(text.substr(0, static_cast<size_t>(w.consumed))).size();
        if (u != static_cast<size_t>(n.consumed)) {
            fail("consumed differently: narrow: " + h::show(n) + " wide: " + h::show(w));
        }
    }
}
int any_kind(Src& s) { return s.pick({h::k_view, h::k_view, h::k_string, h::k_deque, h::k_list, h::k_fwd, h::k_lazy}); }

void single(Src& s, Ctx& c)
{
    Ty t = static_cast<Ty>(s.draw(model::t_count));
    if (t == model::t_char) {
        t = model::t_wchar;
    }
    auto sp = gen::spec_for(s, t, s.chance(1, 2));
    auto text = gen::field_text(s, t, sp);
    gen::fix_scalars(text);
    auto fmt = sp.field();
    int kind = t == model::t_view ? static_cast<int>(h::k_view) : any_kind(s);
    c.desc([&] { return std::string(disp::ty_name(t)) + " format " + pbt::show(h::u32v(fmt)) + " text " + pbt::show(h::u32v(text)) + " " + h::kind_name(kind); });
    auto n = disp::run(t, kind, false, text, fmt);
    auto w = disp::run(t, kind, true, text, fmt);
    compare(c, n, w, text, hash_str(h::utf8(text)) ^ hash_str(h::utf8(fmt)) * 31 ^ static_cast<uint64_t>(t));
}
void several(Src& s, Ctx& c)
{
    int tu = static_cast<int>(s.draw(tuples::count));
    auto ps = gen::format_for(s, tuples::types(tu), 3);
    auto text = gen::text_for(s, ps);
    auto fmt = model::fmt_text(ps);
    int kind = any_kind(s);
    c.desc([&] { return "tuple " + std::to_string(tu) + " format " + pbt::show(h::u32v(fmt)) + " text " + pbt::show(h::u32v(text)) + " " + h::kind_name(kind); });
    auto n = tuples::run(tu, kind, false, text, fmt);
    auto w = tuples::run(tu, kind, true, text, fmt);
    compare(c, n, w, text, hash_str(h::utf8(text)) ^ hash_str(h::utf8(fmt)) * 31 ^ static_cast<uint64_t>(tu));
}
// any format text over the characters formats are made of
void any_format(Src& s, Ctx& c)
{
    static const char32_t a[] = {'{', '}', '{', '}', ':', '0', '1', '2', '.', '<', '>', '^', '*', 'd', 's', 'x', 'c', 'L', '[', ']', '-', 'a', 'z', ' ', 'i', 'f', 'e', 'g', 'p', 'u', 'b', 'o', '/', '?', '\'', 0xe4, 0x6f22, 0x1f600};
    h::u32s fmt;
    bool shape = s.chance(2, 3);
    if (shape) {
        fmt = U"{:";
    }
    for (size_t n = s.len(10, 5, 6); n; --n) {
        fmt += s.pick(a);
    }
    if (shape) {
        fmt += U"}";
    }
    h::u32s text;
    for (size_t n = s.len(12, 5, 6); n; --n) {
        text += s.chance(1, 8) ? gen::scalar(s) : s.pick(a);
    }
    Ty t = static_cast<Ty>(s.draw(model::t_count));
    if (t == model::t_char) {
        t = model::t_wchar;
    }
    // a regular expression: the wide engine sees code points, the narrow one bytes
    for (char32_t ch : fmt) {
        if (ch == '/') {
            throw Discard{};
        }
    }
    // an escape that is only known for one character type is none of this property
    int kind = t == model::t_view ? static_cast<int>(h::k_view) : any_kind(s);
    c.desc([&] { return std::string(disp::ty_name(t)) + " format " + pbt::show(h::u32v(fmt)) + " text " + pbt::show(h::u32v(text)) + " " + h::kind_name(kind); });
    auto n = disp::run(t, kind, false, text, fmt);
    auto w = disp::run(t, kind, true, text, fmt);
    compare(c, n, w, text, hash_str(h::utf8(text)) ^ hash_str(h::utf8(fmt)) * 31 ^ static_cast<uint64_t>(t));
}
}  // namespace

std::vector<pbt::Sub> pbt::subs()
{
    return {{"single", single, 5, 0}, {"several", several, 4, 0}, {"any_format", any_format, 2, 0}};
}
