#include "c17.h"
// C17: user-defined and composite types scan by their parts.
const char* const pbt::property_id = "C17";
namespace {
using namespace pbt;
using c17::Plan;
using model::Piece;
using model::Ty;

int some_kind(Src& s, bool w)
{
    return static_cast<int>(s.chance(1, 3) ? h::k_view : s.draw(w ? h::k_file : h::k_count));
}
std::string about(int kind, bool w, size_t buf)
{
    return std::string(" ") + h::kind_name(kind) + " buffer " + std::to_string(buf) + (w ? " wide" : "");
}
void same(const h::Out& a, const h::Out& b, const char* what)
{
    if (a.ok != b.ok || (a.ok ? a.consumed != b.consumed || a.vals != b.vals : a.code != b.code)) {
        fail(std::string(what) + ": " + h::show(a) + ", its parts: " + h::show(b));
    }
}

// a type whose scanner scans two parts with the format in its specifier
void delegating(Src& s, Ctx& c)
{
    bool w = s.chance(1, 3);
    Plan p;
    p.tuple = static_cast<int>(s.draw(c17::n_parts));
    p.way = static_cast<int>(s.draw(c17::n_ways));
    p.kind = some_kind(s, w);
    p.buf = 1 + s.draw(12);
    auto ts = c17::part_types(p.tuple);
    auto ps = gen::format_for(s, ts, 2);
    auto inner = model::fmt_text(ps);
    if (inner.find_first_of(U"\x01\x02") != inner.npos) {
        throw Discard{};  // stand for the braces in the specifier
    }
    auto ps1 = gen::format_for(s, {model::t_string}, 1), ps2 = gen::format_for(s, {model::t_int}, 1);
    bool before = s.chance(1, 2), after = s.chance(1, 2);
    h::u32s pre = before ? model::fmt_text(ps1) : U"", post = after ? model::fmt_text(ps2) : U"";
    h::u32s text;
    if (before) {
        text += gen::text_for(s, ps1);
    }
    text += gen::text_for(s, ps);
    if (after) {
        text += gen::text_for(s, ps2);
    }
    gen::fix_scalars(text);
    p.before = before;
    p.after = after;
    p.pre = pre;
    p.post = post;
    p.inner = inner;
    p.text = text;
    c.desc([&] {
        return "way " + std::to_string(p.way) + " parts " + std::to_string(p.tuple) + " format " + show(h::u32v(pre)) + " <" + show(h::u32v(inner)) + "> " + show(h::u32v(post)) + " text " +
               show(h::u32v(text)) + about(p.kind, w, p.buf);
    });
    std::string spec_seen;
    auto o = w ? c17::custom_wide(p, spec_seen) : c17::custom_narrow(p, spec_seen);
    auto d = w ? c17::direct_wide(p) : c17::direct_narrow(p);
    c.label(d.ok ? "value" : d.code == 1 ? "refused" : "error");
    if (d.ok || d.code != 1) {
        c.nontrivial(hash_str(h::utf8(pre + inner + post + text)) + static_cast<uint64_t>(p.tuple * 10 + p.way));
    }
    // with an invalid part before it, the custom type's own parse step may not run
    if (!spec_seen.empty() && spec_seen != h::utf8(c17::hide(inner))) {
        fail("parse() saw " + show(spec_seen));
    }
    same(o, d, "the custom type");
    if (o.ok && spec_seen.empty()) {
        fail("parse() was not called");
    }
}

template <typename C>
struct Punct : std::numpunct<C> {
    C do_decimal_point() const override { return C{','}; }
    C do_thousands_sep() const override { return C{'.'}; }
    std::string do_grouping() const override { return "\3"; }
    std::basic_string<C> do_truename() const override { return {C{'j'}, C{'a'}}; }
    std::basic_string<C> do_falsename() const override { return {C{'n'}, C{'o'}}; }
};
const std::locale& puncts()
{
    static const std::locale l{std::locale{std::locale::classic(), new Punct<char>}, new Punct<wchar_t>};
    return l;
}
// a scanner that inherits from a built-in one
void inheriting(Src& s, Ctx& c)
{
    bool w = s.chance(1, 3);
    Plan p;
    p.tuple = static_cast<int>(s.draw(c17::n_wraps));
    p.kind = some_kind(s, w);
    p.buf = 1 + s.draw(12);
    auto ps = gen::format_for(s, {c17::wrap_types(p.tuple)}, 2);
    p.inner = model::fmt_text(ps);
    p.text = gen::text_for(s, ps);
    bool local = s.chance(1, 4);
    if (local) {
        static const char* const fs[] = {"{:L}", "{:Ld}", "{:Lf}", "{:Ls}", "{}", "{:L}"};
        static const char* const ts[] = {"1.234.567", "1,5", "12.345,25", "ja", "no", "true", "-1.000", "3.14", "x", "123"};
        p.inner = h::ascii32(s.pick(fs));
        p.text = gen::ws(s, 1) + h::ascii32(s.pick(ts)) + h::ascii32(s.pick({"", " ", "0", ".", ",1"}));
    }
    if (!local && s.chance(1, 6)) {
        static const char* const parts[] = {"L", "d", "x", "s", "c", "5", ".3", "<", "*^", "[a-c]", "f", "p", "b", "r8", "u", ":", "0", "i", "[", "/a/", "'", "-"};
        p.inner = U"{:";
        for (size_t k = 1 + s.len(4, 2, 3); k > 0; --k) {
            p.inner += h::ascii32(s.pick(parts));
        }
        p.inner += U"}";
    }
    struct Scope {
        explicit Scope(const std::locale* l) { h::run_locale = l; }
        ~Scope() { h::run_locale = nullptr; }
    } scope(local ? &puncts() : nullptr);
    c.desc([&] { return (local ? "localized wrapper " : "wrapper ") + std::to_string(p.tuple) + " format " + show(h::u32v(p.inner)) + " text " + show(h::u32v(p.text)) + about(p.kind, w, p.buf); });
    auto o = w ? c17::wrap_wide(p, true) : c17::wrap_narrow(p, true);
    auto d = w ? c17::wrap_wide(p, false) : c17::wrap_narrow(p, false);
    c.label(d.ok ? "value" : d.code == 1 ? "refused" : "error");
    if (d.ok || d.code != 1) {
        c.nontrivial(hash_str(h::utf8(p.inner + p.text)) + static_cast<uint64_t>(p.tuple));
    }
    same(o, d, "the wrapper");
}

// every error surfaces, from parse and from scan
void errors(Src& s, Ctx& c)
{
    bool w = s.chance(1, 3);
    Plan p;
    p.kind = some_kind(s, w);
    p.buf = 1 + s.draw(12);
    int how = static_cast<int>(s.draw(4));  // scan error, parse throw, parse on_error, none
    int code = static_cast<int>(s.draw(11));
    int depth = static_cast<int>(s.draw(3));
    int used = static_cast<int>(s.draw(4));
    p.text = gen::ws(s, 1) + gen::word(s, 5, 12) + U" " + gen::word(s, 0, 4);
    gen::fix_scalars(p.text);
    c.desc([&] {
        static const char* const hows[] = {"scan returns error ", "parse throws ", "parse calls on_error ", "no error "};
        return hows[how] + std::to_string(code) + " depth " + std::to_string(depth) + " after " + std::to_string(used) + " units, text " + show(h::u32v(p.text)) + about(p.kind, w, p.buf);
    });
    c.nontrivial(static_cast<uint64_t>(((how * 16 + code) * 4 + depth) * 8 + used) * 31 + hash_str(h::utf8(p.text)));
    auto o = w ? c17::error_wide(p, how, code, depth, used) : c17::error_narrow(p, how, code, depth, used);
    if (how == 3) {
        if (!o.ok || o.consumed != used) {
            fail("expected success after " + std::to_string(used) + " units: " + h::show(o));
        }
        return;
    }
    int want = how == 0 ? code : 1;
    if (o.ok || o.code != want) {
        fail("expected error " + std::to_string(want) + ", got " + h::show(o));
    }
}

// the locale given to the scan
void locale(Src& s, Ctx& c)
{
    bool w = s.chance(1, 3);
    Plan p;
    p.kind = some_kind(s, w);
    p.buf = 1 + s.draw(12);
    static const char* const names[] = {"C", "fi_FI.UTF-8", "de_DE.UTF-8", "en_US.UTF-8"};
    std::string name = s.pick(names);
    int form = static_cast<int>(s.draw(4));
    std::locale l = std::locale::classic();
    try {
        l = std::locale(name.c_str());
    }
    catch (...) {
        throw Discard{};
    }
    c.desc([&] { return name + " form " + std::to_string(form) + about(p.kind, w, p.buf); });
    c.nontrivial(hash_str(name) + static_cast<uint64_t>(form * 100 + p.kind * 2 + w));
    p.text = U"x 1";
    auto got = w ? c17::locale_wide(p, form, &l) : c17::locale_narrow(p, form, &l);
    if (got != l.name()) {
        fail("the custom type saw the locale '" + got + "' instead of '" + l.name() + "'");
    }
    auto none = w ? c17::locale_wide(p, form, nullptr) : c17::locale_narrow(p, form, nullptr);
    if (none != std::locale().name()) {
        fail("without a locale, the custom type saw '" + none + "'");
    }
}

// types that an istream can extract
void streams(Src& s, Ctx& c)
{
    bool w = s.chance(1, 3);
    Plan p;
    p.kind = some_kind(s, w);
    p.buf = 1 + s.draw(12);
    std::vector<c17::Op> ops;
    size_t n = 1 + s.len(8, 3, 4);
    for (size_t i = 0; i < n; ++i) {
        c17::Op op;
        op.k = static_cast<int>(s.draw(c17::op_count));
        op.n = static_cast<int>(s.draw(5));
        ops.push_back(op);
    }
    h::u32s text;
    static const char* const toks[] = {"12", "-7", " ", "abc", "3.5", ",", "\n", "x", "0", "1e3", "true", "  "};
    for (size_t k = s.len(8, 4, 5); k > 0; --k) {
        if (s.chance(1, 8)) {
            text += gen::scalar(s);
        }
        text += h::ascii32(s.pick(toks));
    }
    gen::fix_scalars(text);
    p.before = s.chance(1, 3);
    p.text = text;
    c.desc([&] {
        std::string o = "operations";
        for (auto& op : ops) {
            o += std::string(" ") + c17::op_name(op.k) + std::to_string(op.n);
        }
        return o + (p.before ? " after {}" : "") + " text " + show(h::u32v(text)) + about(p.kind, w, p.buf);
    });
    auto o = w ? c17::stream_wide(p, ops, true) : c17::stream_narrow(p, ops, true);
    auto d = w ? c17::stream_wide(p, ops, false) : c17::stream_narrow(p, ops, false);
    c.label(d.ok ? "extracted" : "extraction failed");
    uint64_t hsh = hash_str(h::utf8(text));
    for (auto& op : ops) {
        hsh = mix(hsh + static_cast<uint64_t>(op.k * 8 + op.n));
    }
    c.nontrivial(hsh);
    same(o, d, "scanned through an istream");
}

// a scanner walking over the characters by itself
void walking(Src& s, Ctx& c)
{
    bool w = s.chance(1, 3);
    Plan p;
    p.kind = some_kind(s, w);
    p.buf = 1 + s.draw(12);
    p.before = s.chance(1, 2);
    std::vector<c17::Op> ops;
    for (size_t n = 1 + s.len(12, 5, 6); n; --n) {
        c17::Op op;
        op.k = static_cast<int>(s.draw(c17::w_count));
        op.n = static_cast<int>(s.draw(5));
        ops.push_back(op);
    }
    h::u32s text;
    static const char* const toks[] = {"12", "-7", " ", "abc", "3.5", ",", "\n", "x", "0", "  "};
    for (size_t k = s.len(14, 6, 7); k > 0; --k) {
        if (s.chance(1, 8)) {
            text += gen::scalar(s);
        }
        text += h::ascii32(s.pick(toks));
    }
    gen::fix_scalars(text);
    p.text = text;
    c.desc([&] {
        std::string o = "operations";
        for (auto& op : ops) {
            o += std::string(" ") + c17::walk_name(op.k) + std::to_string(op.n);
        }
        return o + (p.before ? " {}{}{}" : " {} {}") + " text " + show(h::u32v(text)) + about(p.kind, w, p.buf);
    });
    auto o = w ? c17::walk_wide(p, ops, true) : c17::walk_narrow(p, ops, true);
    auto d = w ? c17::walk_wide(p, ops, false) : c17::walk_narrow(p, ops, false);
    c.label(d.ok ? "walked" : "no word between");
    uint64_t hsh = hash_str(h::utf8(text));
    for (auto& op : ops) {
        hsh = mix(hsh + static_cast<uint64_t>(op.k * 8 + op.n));
    }
    c.nontrivial(hsh);
    same(o, d, "walking over the source");
}

// sequences, sets, maps and tuples
void containers(Src& s, Ctx& c)
{
    int shape = static_cast<int>(s.draw(c17::n_shapes));
    bool w = s.chance(1, 3);
    int kind = some_kind(s, w);
    size_t buf = 1 + s.draw(12);
    bool whole = s.chance(1, 2);
    std::string text, want;
    c17::make(s, shape, text, want);
    std::string spec = s.chance(1, 3) ? c17::spec_for(s, shape) : "";
    whole = whole && spec.empty();
    if (whole) {
        c.label("well-formed");
    }
    else {
        // damage
        for (size_t k = 1 + s.len(3, 1, 2); k > 0; --k) {
            size_t at = s.draw(text.size() + 1);
            switch (s.draw(4)) {
                case 0:
                    if (at < text.size()) {
                        text.erase(at, 1);
                    }
                    break;
                case 1: text.insert(at, 1, s.pick({'[', ']', '{', '}', '(', ')', ',', ':', ' ', '1', 'a', ';', '.', '\n'})); break;
                case 2: text.resize(at); break;
                default:
                    if (at < text.size()) {
                        text[at] = s.pick({'[', ']', '{', '}', '(', ')', ',', ':', ' ', '1', 'a', ';'});
                    }
            }
        }
    }
    whole = whole && shape != c17::n_shapes - 1;  // which may be too long
    std::string tail = s.flip() ? "" : s.pick({" x", "]", ",1", "}", " "});
    text += tail;
    c.desc([&] { return std::string(c17::shape_name(shape)) + " {:" + spec + "} text " + show(text) + about(kind, w, buf); });
    c.nontrivial(hash_str(text + "\1" + spec) + static_cast<uint64_t>(shape) * 1000 + w);
    c.label(w ? "wide container" : "narrow container");
    auto o = c17::container(shape, kind, text, spec, buf, w);
    auto m = c17::container_model(shape, text, spec);
    if (m.ok != o.ok) {
        fail(std::string(m.ok ? "expected " + h::show(m) : "expected an error") + ", got " + h::show(o));
    }
    if (m.ok) {
        same(o, m, "the container");
        c.label("scanned");
    }
    if (whole && (!o.ok || o.vals[0] != want || o.consumed != static_cast<long>(text.size() - tail.size()))) {
        fail("expected " + want + ", got " + h::show(o));
    }
}
}  // namespace

std::vector<pbt::Sub> pbt::subs()
{
    return {{"delegating", delegating, 6}, {"inheriting", inheriting, 3}, {"errors", errors, 1}, {"locale", locale, 1}, {"streams", streams, 5}, {"containers", containers, 5}, {"walking", walking, 3}};
}
