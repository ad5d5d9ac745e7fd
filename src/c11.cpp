#include "gen.h"
#include "disp.h"
// C11: Unicode: transcoding is exact, ill-formed text is never accepted.
const char* const pbt::property_id = "C11";
namespace {
using namespace pbt;
using model::M;
using model::Spec;
using model::Ty;

int some_kind(Src& s, bool wide)
{
    int k = s.pick({h::k_view, h::k_string, h::k_vector, h::k_deque, h::k_list, h::k_fwd, h::k_lazy, h::k_file, h::k_file});
    return wide && k == h::k_file ? h::k_list : k;
}

// ---- exact transcoding

template <typename CharT, typename... T32>
void chars_impl(int kind, const h::u32s& text, size_t buf)
{
    auto x = h::enc<CharT>(text);
    std::basic_string<CharT> f;
    for (size_t i = 0; i < sizeof...(T32); ++i) {
        f += h::enc<CharT>(U"{}");
    }
    auto o = h::run<T32...>(kind, std::basic_string_view<CharT>(x), f, buf);
    if (!o.ok || o.vals.size() != sizeof...(T32)) {
        fail("code points were not read: " + h::show(o));
    }
    for (size_t i = 0; i < o.vals.size(); ++i) {
        if (o.vals[i] != h::canon(text[i])) {
            fail("code point " + std::to_string(i) + " should be " + h::canon(text[i]) + ", got " + o.vals[i]);
        }
    }
    auto used = h::enc<CharT>(text.substr(0, sizeof...(T32))).size();
    if (o.consumed != static_cast<long>(used)) {
        fail("consumed " + std::to_string(o.consumed) + " code units instead of " + std::to_string(used));
    }
}
void transcode(Src& s, Ctx& c)
{
    bool wide = s.flip();
    int kind = some_kind(s, wide);
    size_t buf = static_cast<size_t>(s.range(1, 9));
    h::u32s text;
    bool words = s.flip();
    size_t n = 4 + s.len(60, 15, 16);
    for (size_t i = 0; i < n; ++i) {
        text += words ? gen::nonws(s) : gen::scalar(s);
    }
    if (auto b = gen::bulk(s, 40); words && b) {
        text.append(b, text.back());
        text += gen::nonws(s);
    }
    gen::fix_scalars(text);
    c.desc([&] { return pbt::show(h::u32v(text)) + " source " + h::kind_name(kind) + " buffer " + std::to_string(buf) + (wide ? " wide" : ""); });
    c.nontrivial(hash_str(h::utf8(text)) + static_cast<uint64_t>(kind) + wide);
    if (!words) {
        c.label("code points");
        if (wide) {
            chars_impl<wchar_t, char32_t, char32_t, char32_t, char32_t>(kind, text, buf);
        }
        else {
            chars_impl<char, char32_t, char32_t, char32_t, char32_t>(kind, text, buf);
        }
        return;
    }
    c.label("strings");
    for (auto t : {model::t_string, model::t_xstring, model::t_view}) {
        if (!disp::legal(t, kind, wide)) {
            continue;
        }
        auto o = disp::run(t, kind, wide, text, U"{}", buf);
        auto want = model::strval(text);
        auto units = wide ? text.size() : h::utf8(text).size();
        if (!o.ok || o.vals[0] != want || o.consumed != static_cast<long>(units)) {
            fail(std::string("scanned as ") + disp::ty_name(t) + ": " + h::show(o));
        }
    }
}

// every scalar value
constexpr uint64_t chunk = 256, chunks = 0x110000 / chunk;
void every(Src& s, Ctx& c)
{
    auto k = s.draw(chunks);
    bool wide = s.flip();
    int kind = some_kind(s, wide);
    size_t buf = static_cast<size_t>(s.range(1, 9));
    c.desc([&] { return "code points " + std::to_string(k * chunk) + "..+256 source " + h::kind_name(kind) + (wide ? " wide" : ""); });
    h::u32s word;
    for (auto cp = static_cast<char32_t>(k * chunk); cp < (k + 1) * chunk; ++cp) {
        if (cp >= 0xd800 && cp <= 0xdfff) {
            continue;
        }
        if (!h::is_ws(cp)) {
            word += cp;
        }
        h::u32s one(1, cp);
        auto o = disp::run(model::t_char32, h::k_view, wide, one + U"xyz", U"{}");
        if (!o.ok || o.vals[0] != h::canon(cp)) {
            fail("U+" + std::to_string(static_cast<unsigned>(cp)) + " (decimal) scanned as a code point: " + h::show(o));
        }
    }
    if (word.empty()) {
        return;
    }
    c.nontrivial(k * 2 + wide);
    for (auto t : {model::t_string, model::t_xstring}) {
        auto o = disp::run(t, kind, wide, word, U"{}", buf);
        if (!o.ok || o.vals[0] != model::strval(word)) {
            fail(std::string("scanned as ") + disp::ty_name(t) + ": " + h::show(o));
        }
    }
}

// ---- ill-formed text

std::string bad_utf8(Src& s)
{
    switch (s.weighted({2, 2, 4, 2, 2, 2})) {
        case 0: return std::string(1, static_cast<char>(s.range(0x80, 0xbf)));
        case 1: return std::string(1, static_cast<char>(s.range(0xc0, 0xff)));
        case 2: {
            // truncated
            auto b = h::utf8(static_cast<char32_t>(s.pick({0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0x20ac, 0x1f600, 0x2028, 0x85})));
            b.resize(1 + s.draw(b.size() - 1));
            return b;
        }
        case 3: {
            // overlong
            auto cp = static_cast<unsigned>(s.flip() ? s.range(0, 0x7f) : s.range(0, 0xffff));
            std::string o;
            if (cp < 0x80 && s.chance(1, 3)) {
                o += static_cast<char>(0xc0 | (cp >> 6));
                o += static_cast<char>(0x80 | (cp & 0x3f));
            }
            else if (cp < 0x800 && s.flip()) {
                o += static_cast<char>(0xe0);
                o += static_cast<char>(0x80 | (cp >> 6));
                o += static_cast<char>(0x80 | (cp & 0x3f));
            }
            else {
                o += static_cast<char>(0xf0);
                o += static_cast<char>(0x80 | (cp >> 12));
                o += static_cast<char>(0x80 | ((cp >> 6) & 0x3f));
                o += static_cast<char>(0x80 | (cp & 0x3f));
            }
            return o;
        }
        case 4: {
            // surrogate, or out of range
            std::string o;
            if (s.flip()) {
                auto cp = static_cast<unsigned>(s.range(0xd800, 0xdfff));
                o += static_cast<char>(0xe0 | (cp >> 12));
                o += static_cast<char>(0x80 | ((cp >> 6) & 0x3f));
                o += static_cast<char>(0x80 | (cp & 0x3f));
            }
            else {
                auto cp = static_cast<unsigned>(s.range(0x110000, 0x1fffff));
                o += static_cast<char>(0xf0 | (cp >> 18));
                o += static_cast<char>(0x80 | ((cp >> 12) & 0x3f));
                o += static_cast<char>(0x80 | ((cp >> 6) & 0x3f));
                o += static_cast<char>(0x80 | (cp & 0x3f));
            }
            return o;
        }
        default: {
            std::string o;
            for (size_t n = 1 + s.draw(4); n; --n) {
                o += static_cast<char>(s.range(0x80, 0xff));
            }
            return o;
        }
    }
}
std::string show_m(const M& m)
{
    return m.st == M::ok ? "ok " + m.val : m.st == M::err ? "error " + std::to_string(m.code) : "open";
}
bool same(const M& a, const M& b)
{
    return a.st == b.st && a.st != M::unknown && (a.st == M::ok ? a.end == b.end && a.val == b.val : a.code == b.code);
}

// `good` is the well-formed part before the first ill-formed sequence
void judge(const h::u32s& good, Ty t, const Spec& sp, bool wide, const h::Out& o, Ctx& c)
{
    // does the outcome depend on what follows the well-formed part?
    auto a = model::field(good + U"a", 0, t, sp, !wide), b = model::field(good + U" ", 0, t, sp, !wide),
         e = model::field(good + U"\U0001f600", 0, t, sp, !wide), z = model::field(good, 0, t, sp, !wide);
    // (an inverted set may exclude all of these and still go on with other text)
    bool open_set = sp.type == '[' && sp.set_inv && !(a.st == M::ok && a.end < good.size());
    if (same(a, b) && same(a, e) && same(a, z) && !open_set) {
        c.label("decided before");
        if (a.st == M::err && !o.ok) {
            return;  // which of two errors comes first is open
        }
        auto d = model::diff(a, o, wide ? a.end : model::units<char>(good, a.end));
        if (!d.empty()) {
            fail("what comes before the ill-formed part decides: " + d);
        }
        return;
    }
    if (!o.ok) {
        c.label("error");
        return;
    }
    c.label("stopped before");
    // it must have stopped right before it
    auto units = wide ? good.size() : h::utf8(good).size();
    if (o.consumed > static_cast<long>(units)) {
        fail("consumed ill-formed text: " + h::show(o));
    }
    if (!h::valid_utf8(o.vals[0])) {
        fail("an ill-formed value: " + h::show(o));
    }
    if (!sp.align && !sp.width && !sp.prec && (t == model::t_char32 || (sp.type != '[' && sp.type != 'c'))) {
        // a code point, or a word, that runs into ill-formed text
        fail("ill-formed text was accepted: " + h::show(o));
    }
    bool fits = false;
    for (auto* m : {&a, &b, &e, &z}) {
        fits = fits || m->st == M::unknown || (m->st == M::ok && m->val == o.vals[0]);
    }
    if (!fits) {
        fail("a value that no continuation gives: " + h::show(o) + " (" + show_m(a) + "; " + show_m(b) + "; " + show_m(z) + ")");
    }
}

void ill_formed(Src& s, Ctx& c)
{
    Ty t = s.pick({model::t_string, model::t_xstring, model::t_view, model::t_char32});
    Spec sp;
    switch (s.weighted({4, 2, 2, 2})) {
        case 0: break;
        case 1:
            if (t != model::t_char32) {
                gen::charset(s, sp);
            }
            break;
        case 2:
            if (t != model::t_char32) {
                sp.type = 'c';
                sp.prec = static_cast<int>(s.range(1, 12));
            }
            break;
        default: sp = gen::spec_for(s, t, true);
    }
    h::u32s pre;
    if (s.flip()) {
        pre = t == model::t_char32 ? h::u32s() : gen::value_text(s, t, sp);
        if (s.chance(1, 3)) {
            pre = gen::ws(s, 3) + pre;
        }
    }
    gen::fix_scalars(pre);
    if (s.chance(1, 4)) {
        pre += gen::ws(s, 2);
    }
    std::string text = h::utf8(pre) + bad_utf8(s);
    switch (s.draw(3)) {
        case 0: break;
        case 1: text += h::utf8(gen::word(s, 1, 4)); break;
        default: text += " " + h::utf8(gen::word(s, 0, 3));
    }
    // the well-formed part
    h::u32s good;
    size_t i = 0;
    while (i < text.size()) {
        char32_t cp = 0;
        auto n = h::utf8_seq(text, i, &cp);
        if (!n) {
            break;
        }
        good += cp;
        i += n;
    }
    if (i == text.size()) {
        throw Discard{};
    }
    int kind = some_kind(s, false);
    if (!disp::legal(t, kind, false)) {
        kind = h::k_view;
    }
    size_t buf = static_cast<size_t>(s.range(1, 9));
    auto fmt = h::utf8(sp.field());
    c.desc([&] { return std::string(disp::ty_name(t)) + " format " + pbt::show(fmt) + " text " + pbt::show(text) + " source " + h::kind_name(kind) + " buffer " + std::to_string(buf); });
    c.nontrivial(hash_str(text) ^ hash_str(fmt) * 3 ^ static_cast<uint64_t>(t));
    judge(good, t, sp, false, disp::run_narrow(t, kind, text, fmt, buf), c);
}

void ill_formed_wide(Src& s, Ctx& c)
{
    Ty t = s.pick({model::t_string, model::t_xstring, model::t_view, model::t_char32});
    Spec sp;
    if (t != model::t_char32 && s.chance(1, 3)) {
        gen::charset(s, sp);
    }
    auto pre = s.flip() || t == model::t_char32 ? h::u32s() : gen::value_text(s, t, sp);
    gen::fix_scalars(pre);
    auto text = h::wide(pre);
    text += s.flip() ? static_cast<wchar_t>(s.range(0xd800, 0xdfff)) : static_cast<wchar_t>(s.pick({0x110000, 0x110001, 0x7fffffff, -1, -2, INT_MIN}));
    text += h::wide(gen::word(s, 0, 3));
    h::u32s good;
    for (auto w : text) {
        if (!h::valid_wide(std::wstring_view(&w, 1))) {
            break;
        }
        good += static_cast<char32_t>(w);
    }
    int kind = some_kind(s, true);
    if (!disp::legal(t, kind, true)) {
        kind = h::k_view;
    }
    auto fmt = h::wide(sp.field());
    c.desc([&] { return std::string(disp::ty_name(t)) + " format " + pbt::show(std::wstring_view(fmt)) + " text " + pbt::show(std::wstring_view(text)) + " source " + h::kind_name(kind) + " wide"; });
    c.nontrivial(hash_bytes(text.data(), text.size() * sizeof(wchar_t)) ^ static_cast<uint64_t>(t));
    judge(good, t, sp, true, disp::run_wide(t, kind, text, fmt, 0), c);
}
}  // namespace

std::vector<pbt::Sub> pbt::subs()
{
    return {{"transcode", transcode, 4, 0}, {"every", every, 1, chunks}, {"ill_formed", ill_formed, 8, 0}, {"ill_formed_wide", ill_formed_wide, 2, 0}};
}
