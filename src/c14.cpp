// C14: numbers and booleans printed in a locale scan back with L in that
// locale; without L no locale makes a difference.
#include "disp.h"
#include "gen.h"
#include <clocale>
#include <iomanip>
#include <locale>
#include <sstream>
const char* const pbt::property_id = "C14";
namespace {
using namespace pbt;
using model::M;
using model::Spec;
using model::Ty;

struct Punct {
    char32_t sep = U',', dp = U'.';
    std::string grouping;
    h::u32s t = U"true", f = U"false";
};
template <typename CharT>
struct punct : std::numpunct<CharT> {
    explicit punct(const Punct& p) : m(p) {}
    Punct m;
    CharT do_decimal_point() const override { return static_cast<CharT>(m.dp); }
    CharT do_thousands_sep() const override { return static_cast<CharT>(m.sep); }
    std::string do_grouping() const override { return m.grouping; }
    std::basic_string<CharT> do_truename() const override { return h::enc<CharT>(m.t); }
    std::basic_string<CharT> do_falsename() const override { return h::enc<CharT>(m.f); }
};
const std::vector<std::locale>& system_locales()
{
    static const auto v = [] {
        std::vector<std::locale> l{std::locale::classic()};
        for (auto n : {"en_US.UTF-8", "fi_FI.UTF-8", "de_DE.UTF-8", "hi_IN", "fr_FR.UTF-8", "de_CH.UTF-8", "pt_BR.UTF-8", "C.UTF-8"}) {
            try {
                l.emplace_back(n);
            }
            catch (const std::runtime_error&) {
            }
        }
        return l;
    }();
    return v;
}
struct Loc {
    std::locale loc;
    std::string about;
};
h::u32s name(Src& s)
{
    if (s.chance(1, 3)) {
        return s.pick({h::u32s(U"yes"), h::u32s(U"no"), h::u32s(U"kyll\u00e4"), h::u32s(U"ei"), h::u32s(U"true"), h::u32s(U"false"), h::u32s(U"\u771f"), h::u32s(U"t"), h::u32s(U"\u5047")});
    }
    h::u32s r;
    for (size_t n = 1 + s.draw(5); n; --n) {
        r += s.pick({U'a', U'b', U't', U'f', U'\u00e4', U'\u00e5', U'x'});
    }
    return r;
}
// wide_seps: separators beyond ASCII (only for wide text)
Loc locale(Src& s, bool wide_seps)
{
    if (s.chance(1, 4)) {
        auto& v = system_locales();
        size_t i = s.draw(v.size());
        return {v[i], v[i].name()};
    }
    Punct p;
    do {
        p.sep = wide_seps && s.chance(1, 3) ? s.pick({U'\u00a0', U'\u202f', U'\u066c', U'\U0001f600'})
                                            : s.pick({U',', U'.', U'\'', U'_', U' ', U';', U':', U'|', U'~', U'\t'});
        p.dp = wide_seps && s.chance(1, 4) ? s.pick({U'\u066b', U'\u00b7'}) : s.pick({U'.', U',', U';', U':', U'#'});
        if (p.sep == p.dp) {
            p.sep = U'_';
        }
    } while (p.sep == p.dp);
    switch (s.draw(5)) {
        case 0:
            break;  // no grouping
        case 1:
            p.grouping = "\3\2";
            break;
        case 2:
            for (size_t n = 1 + s.draw(3); n; --n) {
                p.grouping += static_cast<char>(1 + s.draw(5));
            }
            break;
        case 3:
            p.grouping = std::string(1, static_cast<char>(1 + s.draw(4))) + '\x7f';
            break;
        default:
            p.grouping = "\3";
    }
    p.t = name(s);
    do {
        p.f = name(s);
        if (p.f == p.t) {
            p.f += U"x";
        }
    } while (p.f == p.t);
    std::locale l(std::locale(std::locale::classic(), new punct<char>(p)), new punct<wchar_t>(p));
    std::string a = "sep " + pbt::show(h::u32v(&p.sep, 1)) + " point " + pbt::show(h::u32v(&p.dp, 1)) + " grouping";
    for (char g : p.grouping) {
        a += " " + std::to_string(g);
    }
    return {l, a + " names " + pbt::show(h::u32v(p.t)) + pbt::show(h::u32v(p.f))};
}
template <typename CharT>
h::u32s dec(const std::basic_string<CharT>& v)
{
    h::u32s o;
    for (size_t i = 0; i < v.size();) {
        if constexpr (sizeof(CharT) == 1) {
            char32_t c = 0;
            size_t n = h::utf8_seq(v, i, &c);
            if (!n) {
                throw Discard{};
            }
            o += c;
            i += n;
        }
        else {
            o += static_cast<char32_t>(v[i++]);
        }
    }
    return o;
}
struct Opt {
    char32_t sep = 0, dp = U'.';
};
template <typename CharT>
Opt opt_of(const std::locale& l)
{
    auto& np = std::use_facet<std::numpunct<CharT>>(l);
    Opt o;
    o.dp = static_cast<char32_t>(static_cast<std::make_unsigned_t<CharT>>(np.decimal_point()));
    if (!np.grouping().empty()) {
        o.sep = static_cast<char32_t>(static_cast<std::make_unsigned_t<CharT>>(np.thousands_sep()));
    }
    return o;
}
// sets run_locale or the global locale for one scan
struct Use {
    explicit Use(const std::locale& l, bool global) : m_old(std::locale()), m_l(l), m_global(global)
    {
        if (global) {
            std::locale::global(m_l);
        }
        else {
            h::run_locale = &m_l;
        }
    }
    ~Use()
    {
        h::run_locale = nullptr;
        if (m_global) {
            std::locale::global(m_old);
        }
    }
    std::locale m_old, m_l;
    bool m_global;
};
int pick_kind(Src& s, bool wide)
{
    int k = s.pick({h::k_view, h::k_view, h::k_string, h::k_vector, h::k_deque, h::k_list, h::k_lazy, h::k_file});
    return wide && k == h::k_file ? h::k_fwd : k;
}

h::u32s tail(Src& s, const Opt& o, bool flt)
{
    auto t = s.pick({h::u32s(), h::u32s(), h::u32s(U"z"), h::u32s(U" 12"), h::u32s(U"\n"), h::u32s(U"!7"), h::u32s(U"z,5"), h::u32s(1, 0), h::u32s{0, U'7'}});
    if (!t.empty() && ((o.sep && t[0] == o.sep) || (flt && t[0] == o.dp))) {
        t.clear();
    }
    return t;
}
size_t units(h::u32v t, bool wide) { return wide ? t.size() : h::utf8(t).size(); }

void expect(const h::u32s& pre, const h::u32s& num, const h::u32s& rest, const std::string& val, const h::Out& o, bool wide)
{
    if (!o.ok) {
        fail("expected " + val + ", got " + h::show(o));
    }
    if (o.vals[0] != val) {
        fail("expected " + val + ", got " + h::show(o));
    }
    if (o.consumed != static_cast<long>(units(pre + num, wide))) {
        fail("expected " + std::to_string(units(pre + num, wide)) + " consumed, got " + h::show(o));
    }
}

template <typename CharT, typename V>
h::u32s print_int(V v, char type, const std::locale& l)
{
    std::basic_ostringstream<CharT> os;
    os.imbue(l);
    if (type == 'x') {
        os << std::hex;
    }
    else if (type == 'o') {
        os << std::oct;
    }
    os << v;
    return dec(os.str());
}
h::u32s strip(h::u32s t, char32_t sep)
{
    h::u32s o;
    for (auto c : t) {
        if (!sep || c != sep) {
            o += c;
        }
    }
    return o;
}

template <typename CharT>
void ints(Src& s, Ctx& c)
{
    constexpr bool wide = sizeof(CharT) != 1;
    auto l = locale(s, wide);
    auto o = opt_of<CharT>(l.loc);
    if (!wide && (o.sep > 0x7f || o.dp > 0x7f)) {
        throw Discard{};
    }
    Ty t = static_cast<Ty>(s.range(model::t_schar, model::t_ullong));
    Spec sp;
    sp.L = true;
    sp.type = s.pick({'\0', 'd', 'x', 'o', 'u', 'd'});
    if (model::is_uns(t) && sp.type == 'd' && s.flip()) {
        sp.type = 'u';
    }
    auto v = gen::int_value(s, t);
    if (v > model::int_max(t) || v < model::int_min(t)) {
        v = v % 100;
    }
    if (v < 0 && (sp.type == 'x' || sp.type == 'o' || sp.type == 'u' || model::is_uns(t))) {
        v = -(v + 1);
    }
    auto num = v < 0 || !model::is_uns(t) ? print_int<CharT>(static_cast<long long>(v), sp.type, l.loc)
                                          : print_int<CharT>(static_cast<unsigned long long>(v), sp.type, l.loc);
    auto pre = gen::ws(s, 2);
    auto rest = tail(s, o, false);
    if (!rest.empty() && sp.type == 'x' && model::digit(rest[0]) < 16) {
        rest.clear();
    }
    bool grouped = o.sep && num.find(o.sep) != h::u32s::npos;
    bool moved = false;
    if (o.sep && s.chance(1, 5)) {
        // separators between other digits
        auto d = strip(num, o.sep);
        num.clear();
        for (size_t i = 0; i < d.size(); ++i) {
            if (i && d[i - 1] != U'-' && s.chance(1, 3)) {
                num += o.sep;
            }
            num += d[i];
        }
        moved = true;
    }
    int kind = pick_kind(s, wide);
    bool global = s.chance(1, 4);
    auto fmt = sp.field();
    c.desc([&] { return "locale " + l.about + (global ? " (global)" : "") + " type " + disp::ty_name(t) + " format " + pbt::show(h::u32v(fmt)) + " text " + pbt::show(h::u32v(pre + num + rest)) + (wide ? " wide " : " ") + h::kind_name(kind); });
    c.label(moved ? "moved separators" : grouped ? "grouped int" : "plain int");
    if (grouped) {
        c.nontrivial(hash_str(h::utf8(num + rest)) ^ hash_str(l.about) * 31 ^ static_cast<uint64_t>(t));
    }
    h::Out out;
    {
        Use u(l.loc, global);
        out = disp::run(t, kind, wide, pre + num + rest, fmt, kind == h::k_file ? 1 + s.draw(20) : 0);
    }
    if (moved && !out.ok) {
        return;  // may be refused, but not be another number
    }
    expect(pre, num, rest, model::int_canon(t, v), out, wide);
}

template <typename CharT, typename V>
h::u32s print_flt(V v, int how, int prec, const std::locale& l)
{
    std::basic_ostringstream<CharT> os;
    os.imbue(l);
    if (how == 0) {
        os << std::fixed << std::setprecision(prec);
    }
    else if (how == 1) {
        os << std::scientific << std::setprecision(prec);
    }
    else if (how == 2) {
        os << std::setprecision(prec ? prec : 1);
    }
    else {
        os << std::hexfloat;
    }
    os << v;
    return dec(os.str());
}
template <typename CharT>
void flts(Src& s, Ctx& c)
{
    constexpr bool wide = sizeof(CharT) != 1;
    auto l = locale(s, wide);
    auto o = opt_of<CharT>(l.loc);
    if (!wide && (o.sep > 0x7f || o.dp > 0x7f)) {
        throw Discard{};
    }
    Ty t = s.pick({model::t_float, model::t_double, model::t_ldouble});
    long double v = 0;
    switch (s.draw(5)) {
        case 0:
            v = static_cast<long double>(s.range(-2000000, 2000000)) / 8;
            break;
        case 1:
            v = static_cast<long double>(static_cast<int64_t>(s.bits()));
            break;
        case 2:
            v = static_cast<long double>(s.range(-99999999, 99999999)) / 1000;
            break;
        case 3:
            v = std::ldexp(static_cast<long double>(s.range(1, 1 << 20)), static_cast<int>(s.range(-60, 90)));
            break;
        default:
            v = s.pick({0.0L, -0.0L, 1.0L, 999.5L, 1000.0L, 999999.0L, 1e6L, static_cast<long double>(INFINITY), -static_cast<long double>(INFINITY), static_cast<long double>(NAN)});
    }
    int how = static_cast<int>(s.weighted({3, 3, 3, 1}));
    int prec = static_cast<int>(s.draw(7));
    auto classic = print_flt<CharT>(v, how, prec, std::locale::classic());
    if (how == 3 && s.flip()) {
        classic.resize(std::min(classic.size(), classic.find(U'p')));  // without exponent
    }
    auto num = how == 3 ? classic : print_flt<CharT>(v, how, prec, l.loc);
    if (how == 3) {  // only the decimal point: the stream would group the prefix, too
        std::replace(num.begin(), num.end(), U'.', o.dp);
    }
    Spec sp;
    sp.L = true;
    sp.type = s.pick({'\0', '\0', 'g', how == 1 ? 'e' : how == 0 ? 'f' : how == 3 ? 'a' : 'g'});
    auto m = model::read_float(classic, t, sp.type);
    if (m.st != M::ok || m.end != classic.size()) {
        throw Discard{};
    }
    auto pre = gen::ws(s, 2);
    auto rest = tail(s, o, true);
    // no separator can follow the decimal point, an exponent or a name, and no
    // decimal point another one
    auto point = num.find(o.dp);
    if ((point != h::u32s::npos || !std::isfinite(v) || how == 1) && s.chance(1, 4)) {
        rest = h::u32s(1, o.sep && s.flip() ? o.sep : o.dp) + (s.chance(1, 4) ? U"" : s.flip() ? U"7" : U"500");
    }
    bool moved = false;
    if (o.sep && how != 3 && std::isfinite(v) && s.chance(1, 5)) {
        // separators between other digits before the decimal point
        auto to = std::min(point, num.find(U'e'));
        auto d = strip(num.substr(0, to), o.sep);
        auto after = to == h::u32s::npos ? h::u32s() : num.substr(to);
        num.clear();
        for (size_t i = 0; i < d.size(); ++i) {
            if (i && d[i - 1] != U'-' && s.chance(1, 3)) {
                num += o.sep;
            }
            num += d[i];
        }
        num += after;
        moved = true;
    }
    int kind = pick_kind(s, wide);
    bool global = s.chance(1, 4);
    auto fmt = sp.field();
    bool local = num != classic;
    c.desc([&] { return "locale " + l.about + (global ? " (global)" : "") + " type " + disp::ty_name(t) + " format " + pbt::show(h::u32v(fmt)) + " text " + pbt::show(h::u32v(pre + num + rest)) + (wide ? " wide " : " ") + h::kind_name(kind); });
    c.label(moved ? "moved separators" : local ? "localized float" : "plain float");
    if (local) {
        c.nontrivial(hash_str(h::utf8(num + rest)) ^ hash_str(l.about) * 31 ^ static_cast<uint64_t>(t));
    }
    h::Out out;
    {
        Use u(l.loc, global);
        out = disp::run(t, kind, wide, pre + num + rest, fmt, kind == h::k_file ? 1 + s.draw(20) : 0);
    }
    if (moved && !out.ok) {
        return;  // may be refused, but not be another number
    }
    expect(pre, num, rest, m.val, out, wide);
}

template <typename CharT>
void bools(Src& s, Ctx& c)
{
    constexpr bool wide = sizeof(CharT) != 1;
    auto l = locale(s, wide);
    auto& np = std::use_facet<std::numpunct<CharT>>(l.loc);
    h::u32s tn = dec(np.truename()), fn = dec(np.falsename());
    Spec sp;
    sp.L = true;
    sp.type = s.pick({'\0', 's', 'i', 'd'});
    bool text_ok = !sp.type || sp.type == 's', num_ok = !sp.type || sp.type != 's';
    auto pre = gen::ws(s, 2);
    h::u32s body = s.pick({tn, fn, tn, fn, h::u32s(U"0"), h::u32s(U"1"), h::u32s(U"true"), h::u32s(U"false")});
    if (s.chance(1, 6) && !body.empty()) {
        body.resize(s.draw(body.size()));
    }
    body += s.pick({h::u32s(), h::u32s(), h::u32s(U" "), h::u32s(U"x"), h::u32s(U"1"), h::u32s(U"a")});
    auto starts = [&](const h::u32s& w) { return !w.empty() && body.compare(0, w.size(), w) == 0; };
    // the longest spelling
    int want = -1;
    size_t n = 0;
    if (num_ok && !body.empty() && (body[0] == U'0' || body[0] == U'1')) {
        want = body[0] == U'1';
        n = 1;
    }
    if (text_ok) {
        for (bool b : {false, true}) {
            auto& w = b ? tn : fn;
            if (starts(w) && w.size() > n) {
                want = b;
                n = w.size();
            }
        }
    }
    int kind = pick_kind(s, wide);
    bool global = s.chance(1, 4);
    auto fmt = sp.field();
    c.desc([&] { return "locale " + l.about + (global ? " (global)" : "") + " bool format " + pbt::show(h::u32v(fmt)) + " text " + pbt::show(h::u32v(pre + body)) + (wide ? " wide " : " ") + h::kind_name(kind); });
    c.label(want < 0 ? "no name" : "name");
    c.nontrivial(hash_str(h::utf8(body)) ^ hash_str(l.about) * 31 ^ static_cast<uint64_t>(sp.type));
    h::Out out;
    {
        Use u(l.loc, global);
        out = disp::run(model::t_bool, kind, wide, pre + body, fmt, kind == h::k_file ? 1 + s.draw(20) : 0);
    }
    if (want < 0) {
        if (out.ok) {
            fail("no name of this locale, but " + h::show(out));
        }
        return;
    }
    expect(pre, body.substr(0, n), U"", want ? "true" : "false", out, wide);
}

// without L: whatever locale is passed or global, C or C++
void unlocalized(Src& s, Ctx& c)
{
    bool wide = s.flip();
    auto l = locale(s, wide);
    Ty t;
    do {
        t = static_cast<Ty>(s.draw(model::t_count));
        if (wide && t == model::t_char) {
            t = model::t_wchar;
        }
    } while (wide && t == model::t_char);
    auto sp = gen::spec_for(s, t, s.chance(1, 4));
    sp.L = false;
    auto text = gen::field_text(s, t, sp);
    if (s.chance(1, 3)) {
        // text with this locale's punctuation
        auto o = wide ? opt_of<wchar_t>(l.loc) : opt_of<char>(l.loc);
        for (auto& ch : text) {
            if (s.chance(1, 6)) {
                auto x = s.flip() && o.sep ? o.sep : o.dp;
                if (x && x < (wide ? 0x110000u : 0x80u)) {
                    ch = x;
                }
            }
        }
        gen::fix_scalars(text);
    }
    int kind = t == model::t_view ? h::k_view : pick_kind(s, wide);
    auto fmt = sp.field();
    int mode = static_cast<int>(s.draw(4));
    static const char* const cls[] = {"de_DE.UTF-8", "fi_FI.UTF-8", "en_US.UTF-8", "tr_TR.UTF-8", "ar_SA.UTF-8", "de_DE", "ja_JP.eucjp"};
    auto cl = s.pick(cls);
    c.desc([&] { return std::string("type ") + disp::ty_name(t) + " format " + pbt::show(h::u32v(fmt)) + " text " + pbt::show(h::u32v(text)) + (wide ? " wide " : " ") + h::kind_name(kind) + (mode == 0 ? " passed " + l.about : mode == 1 ? " global " + l.about : mode == 2 ? std::string(" setlocale ") + cl : std::string(" setlocale ") + cl + " and passed " + l.about); });
    c.nontrivial(hash_str(h::utf8(text)) ^ hash_str(h::utf8(fmt)) * 31 ^ static_cast<uint64_t>(t) ^ hash_str(l.about));
    c.label("without L");
    size_t buf = kind == h::k_file ? 1 + s.draw(20) : 0;
    auto a = disp::run(t, kind, wide, text, fmt, buf);
    h::Out b;
    auto go = [&] { b = disp::run(t, kind, wide, text, fmt, buf); };
    if (mode >= 2 && !std::setlocale(LC_ALL, cl)) {
        std::setlocale(LC_ALL, "C");
        throw Discard{};
    }
    std::string before = std::setlocale(LC_ALL, nullptr);
    if (mode == 2) {
        go();
    }
    else {
        Use u(l.loc, mode == 1);
        go();
    }
    if (mode >= 2) {
        std::string after = std::setlocale(LC_ALL, nullptr);
        std::setlocale(LC_ALL, "C");
        if (before != after) {
            fail("the C locale was " + before + " before the scan and is " + after + " after it");
        }
    }
    std::setlocale(LC_ALL, "C");
    if (a.ok != b.ok || a.code != b.code || a.consumed != b.consumed || a.vals != b.vals) {
        fail("without a locale " + h::show(a) + ", with one " + h::show(b));
    }
}
// L without a locale that differs from the classic one is the same as no L,
// and L in a C locale change alone follows the C++ locale
void classic(Src& s, Ctx& c)
{
    bool wide = s.flip();
    Ty t = static_cast<Ty>(s.draw(model::t_string));
    if (s.chance(1, 8)) {
        t = model::t_bool;
    }
    auto sp = gen::spec_for(s, t, s.chance(1, 4));
    if (sp.type == 'b' || sp.type == 'B') {
        sp.type = 0;
    }
    sp.L = false;
    auto text = gen::field_text(s, t, sp);
    auto fmt = sp.field();
    sp.L = true;
    auto fmtL = sp.field();
    int kind = pick_kind(s, wide);
    bool set = s.chance(1, 3);
    c.desc([&] { return std::string("type ") + disp::ty_name(t) + " format " + pbt::show(h::u32v(fmtL)) + " text " + pbt::show(h::u32v(text)) + (wide ? " wide " : " ") + h::kind_name(kind) + (set ? " setlocale de_DE" : ""); });
    c.nontrivial(hash_str(h::utf8(text)) ^ hash_str(h::utf8(fmt)) * 31 ^ static_cast<uint64_t>(t));
    c.label("classic L");
    size_t buf = kind == h::k_file ? 1 + s.draw(20) : 0;
    auto a = disp::run(t, kind, wide, text, fmt, buf);
    if (set) {
        std::setlocale(LC_ALL, "de_DE.UTF-8");
    }
    auto b = disp::run(t, kind, wide, text, fmtL, buf);
    std::setlocale(LC_ALL, "C");
    if (a.ok != b.ok || a.consumed != b.consumed || a.vals != b.vals || (a.code != b.code && !sp.align)) {
        fail("without L " + h::show(a) + ", with L in the classic locale " + h::show(b));
    }
}
void ints_n(Src& s, Ctx& c) { ints<char>(s, c); }
void ints_w(Src& s, Ctx& c) { ints<wchar_t>(s, c); }
void flts_n(Src& s, Ctx& c) { flts<char>(s, c); }
void flts_w(Src& s, Ctx& c) { flts<wchar_t>(s, c); }
void bools_n(Src& s, Ctx& c) { bools<char>(s, c); }
void bools_w(Src& s, Ctx& c) { bools<wchar_t>(s, c); }
}  // namespace
std::vector<pbt::Sub> pbt::subs()
{
    return {{"ints", ints_n, 3, 0}, {"ints_wide", ints_w, 3, 0}, {"floats", flts_n, 3, 0}, {"floats_wide", flts_w, 3, 0},
            {"bools", bools_n, 2, 0}, {"bools_wide", bools_w, 2, 0}, {"unlocalized", unlocalized, 5, 0}, {"classic", classic, 3, 0}};
}
