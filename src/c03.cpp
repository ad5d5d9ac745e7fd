#include "gen.h"
#include "tuples.h"
// C03: the kind of source makes no difference.
const char* const pbt::property_id = "C03";
namespace {
using namespace pbt;
using model::Spec;
using model::Ty;

std::string same(const h::Out& a, const h::Out& b)
{
    if (a.ok != b.ok || (a.ok ? a.vals != b.vals || a.consumed != b.consumed : a.code != b.code)) {
        return h::show(a) + " vs " + h::show(b);
    }
    return "";
}

template <typename Run>
void compare(Src& s, Ctx& c, bool wide, Run run, const std::string& what, uint64_t key)
{
    c.desc([&] { return what; });
    auto ref = run(h::k_view, 0);
    c.label(ref.ok ? "value" : "error");
    if (ref.ok || ref.code != 1) {
        c.nontrivial(key);
    }
    // every other kind, and files with several buffer sizes
    for (int k = h::k_string; k <= h::k_lazy; ++k) {
        // the contiguous ones share code: one of them at random
        if (h::contiguous(k) && s.chance(2, 3)) {
            continue;
        }
        auto o = run(k, 0);
        auto d = same(ref, o);
        if (!d.empty()) {
            fail(std::string("string view vs ") + h::kind_name(k) + ": " + d);
        }
    }
    if (!wide) {
        for (int i = 0; i < 2; ++i) {
            size_t buf = i == 0 ? static_cast<size_t>(s.range(1, 8)) : static_cast<size_t>(s.range(1, 64));
            auto o = run(h::k_file, buf);
            auto d = same(ref, o);
            if (!d.empty()) {
                fail("string view vs file with a " + std::to_string(buf) + "-byte buffer: " + d);
            }
        }
    }
}

void single(Src& s, Ctx& c)
{
    Ty t = static_cast<Ty>(s.draw(model::t_xstring + 1));
    bool wide = t != model::t_char && s.chance(1, 3);
    auto sp = gen::spec_for(s, t, s.chance(1, 2));
    auto text = gen::field_text(s, t, sp);
    gen::fix_scalars(text);
    auto fmt = sp.field();
    compare(s, c, wide, [&](int k, size_t b) { return disp::run(t, k, wide, text, fmt, b); },
            std::string(disp::ty_name(t)) + " format " + pbt::show(h::u32v(fmt)) + " text " + pbt::show(h::u32v(text)) + (wide ? " wide" : ""),
            hash_str(h::utf8(text)) ^ hash_str(h::utf8(fmt)) * 31 ^ static_cast<uint64_t>(t));
}
// long whitespace and long values: several buffer segments
void longer(Src& s, Ctx& c)
{
    static const Ty ts[] = {model::t_int, model::t_ulong, model::t_double, model::t_string, model::t_xstring, model::t_bool, model::t_ptr, model::t_char32};
    Ty t = s.pick(ts);
    bool wide = s.chance(1, 3);
    auto sp = gen::spec_for(s, t, s.chance(1, 4));
    h::u32s text;
    for (auto n = s.draw(200); n; --n) {
        text += gen::ws_cp(s);
    }
    if (model::is_int(t)) {
        text += h::u32s(s.draw(150), U'0');
    }
    text += gen::value_text(s, t, sp);
    if (model::is_str(t)) {
        text += gen::word(s, 50, 300);
    }
    text += gen::ws(s, 3);
    auto fmt = sp.field();
    compare(s, c, wide, [&](int k, size_t b) { return disp::run(t, k, wide, text, fmt, b); },
            std::string(disp::ty_name(t)) + " format " + pbt::show(h::u32v(fmt)) + " text " + pbt::show(h::u32v(text)) + (wide ? " wide" : ""),
            hash_str(h::utf8(text)) ^ hash_str(h::utf8(fmt)) * 31 ^ static_cast<uint64_t>(t));
}
void several(Src& s, Ctx& c)
{
    int tu = static_cast<int>(s.draw(tuples::count));
    bool wide = s.chance(1, 3);
    auto ps = gen::format_for(s, tuples::types(tu), 2);
    auto text = gen::text_for(s, ps);
    auto fmt = model::fmt_text(ps);
    compare(s, c, wide, [&](int k, size_t b) { return tuples::run(tu, k, wide, text, fmt, b); },
            "tuple " + std::to_string(tu) + " format " + pbt::show(h::u32v(fmt)) + " text " + pbt::show(h::u32v(text)) + (wide ? " wide" : ""),
            hash_str(h::utf8(text)) ^ hash_str(h::utf8(fmt)) * 31 ^ static_cast<uint64_t>(tu));
}
// any bytes
void bytes(Src& s, Ctx& c)
{
    Ty t = static_cast<Ty>(s.draw(model::t_xstring + 1));
    auto sp = gen::spec_for(s, t, s.chance(1, 2));
    std::string text = h::utf8([&] { auto x = gen::field_text(s, t, sp); gen::fix_scalars(x); return x; }());
    for (auto n = s.range(1, 4); n; --n) {
        static const unsigned char bad[] = {0x80, 0xbf, 0xc0, 0xc3, 0xe2, 0xed, 0xf0, 0xf4, 0xff, 0xfe, 0xa0, 0x85, 0x28, 0x20, 0};
        size_t at = s.draw(text.size() + 1);
        switch (s.draw(3)) {
            case 0: text.insert(at, 1, static_cast<char>(s.pick(bad))); break;
            case 1: if (at < text.size()) text.erase(at, 1); break;
            default: if (at < text.size()) text[at] = static_cast<char>(s.draw(256));
        }
    }
    auto fmt = h::utf8(sp.field());
    compare(s, c, false, [&](int k, size_t b) { return disp::run_narrow(t, k, text, fmt, b); },
            std::string(disp::ty_name(t)) + " format " + pbt::show(fmt) + " bytes " + pbt::show(text),
            hash_str(text) ^ hash_str(fmt) * 31 ^ static_cast<uint64_t>(t));
}
}  // namespace

std::vector<pbt::Sub> pbt::subs()
{
    return {{"single", single, 5, 0}, {"longer", longer, 2, 0}, {"several", several, 4, 0}, {"bytes", bytes, 2, 0}};
}
