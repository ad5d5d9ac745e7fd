// C12: /regex/flags fields against the regex engine called directly, anchored
// at the position of the field.
#include "gen.h"
#include <scn/regex.h>
#if SCN_REGEX_BACKEND == 1
#include <boost/regex.hpp>
#include <boost/regex/icu.hpp>
#else
#include <regex>
#endif
const char* const pbt::property_id = "C12";
namespace {
using namespace pbt;
constexpr bool boosted = SCN_REGEX_BACKEND == 1;

// ---------------------------------------------------------------- patterns
// A pattern is generated together with a text it matches (mostly).
struct P {
    h::u32s pat, text;
};
h::u32s damage(Src& s, h::u32s t)
{
    for (size_t n = 1 + s.draw(2); n && !t.empty(); --n) {
        size_t i = s.draw(t.size());
        switch (s.draw(4)) {
            case 0:
                t.erase(i, 1);
                break;
            case 1:
                t.insert(i, 1, t[s.draw(t.size())]);
                break;
            case 2:
                t[i] = s.pick({U'a', U'b', U'0', U' ', U'(', U')', U'*', U'z', U'\u00e4'});
                break;
            default:
                t.resize(i);
        }
    }
    return t;
}
struct G {
    Src& s;
    int groups = 0;                 // opened so far
    std::vector<h::u32s> closed;    // sample text by group number - 1
    std::vector<bool> is_closed;
    std::vector<h::u32s> names;     // by group number - 1, empty: none
    bool has_dot = false;
    int budget = 14, quants = 4;

    char32_t lit()
    {
        return s.pick({U'a', U'b', U'c', U'A', U'B', U'0', U'1', U'7', U'_', U'-', U' ', U'/', U'x', U'\n', U'\u00e4', U'\u20ac', U'\U0001f600', U'=', U',', U'\t', U'}', U'{', U'.'});
    }
    static h::u32s quote(char32_t c)
    {
        if (c == U'/') {
            return U"\\/";
        }
        if (std::u32string_view(U"^$\\.*+?()[]{}|").find(c) != std::u32string_view::npos) {
            return h::u32s(U"\\") + c;
        }
        return h::u32s(1, c);
    }
    P cls()
    {
        P p;
        std::vector<char32_t> in;
        bool inv = s.chance(1, 5);
        p.pat = inv ? U"[^" : U"[";
        for (size_t n = 1 + s.draw(3); n; --n) {
            switch (s.draw(6)) {
                case 0:
                    p.pat += U"a-c";
                    in.push_back(s.pick({U'a', U'b', U'c'}));
                    break;
                case 1:
                    p.pat += U"0-9";
                    in.push_back(s.pick({U'0', U'1', U'7'}));
                    break;
                case 2:
                    p.pat += s.pick({h::u32s(U"[:alpha:]"), h::u32s(U"[:upper:]")});
                    in.push_back(U'B');
                    break;
                case 3:
                    p.pat += s.pick({h::u32s(U"\\d"), h::u32s(U"\\w")});
                    in.push_back(U'1');
                    break;
                case 4:
                    p.pat += U"\\/";
                    in.push_back(U'/');
                    break;
                default: {
                    auto c = s.pick({U'x', U'_', U' ', U'=', U',', U'a', U'B', U'.', U'*', U'}'});
                    p.pat += c;
                    in.push_back(c);
                }
            }
        }
        p.pat += U"]";
        p.text = h::u32s(1, inv ? s.pick({U'!', U'%', U'\u00e4'}) : in[s.draw(in.size())]);
        return p;
    }
    P atom(int depth)
    {
        --budget;
        P p;
        switch (budget < 0 ? 0 : s.weighted({6, 2, 2, 2, 3, 2, 1, 1, depth ? 1u : 0u})) {
            case 1:
                p.pat = U".";
                has_dot = true;
                p.text = h::u32s(1, s.pick({U'a', U'0', U' ', U'/', U'b'}));
                break;
            case 2:
                return cls();
            case 3: {
                auto k = s.draw(5);
                p.pat = std::vector<h::u32s>{U"\\d", U"\\w", U"\\s", U"\\D", U"\\S"}[k];
                p.text = std::vector<h::u32s>{U"1", U"a", U" ", U"-", U"b"}[k];
                break;
            }
            case 4: {
                int me = groups++;
                closed.emplace_back();
                is_closed.push_back(false);
                names.emplace_back();
                h::u32s open = U"(";
                if (boosted && s.chance(1, 2)) {
                    names[me] = h::u32s(1, U'n') + h::ascii32(std::to_string(me)) + (s.flip() ? U"ame" : U"");
                    open = U"(?<" + names[me] + U">";
                }
                auto in = alt(depth - 1);
                p.pat = open + in.pat + U")";
                p.text = in.text;
                closed[me] = in.text;
                is_closed[me] = true;
                break;
            }
            case 5: {
                auto in = alt(depth - 1);
                p.pat = U"(?:" + in.pat + U")";
                p.text = in.text;
                break;
            }
            case 6: {
                std::vector<int> ok;
                for (int i = 0; i < groups && i < 9; ++i) {
                    if (is_closed[i]) {
                        ok.push_back(i);
                    }
                }
                if (ok.empty()) {
                    p.pat = p.text = U"a";
                    break;
                }
                int g = ok[s.draw(ok.size())];
                p.pat = U"\\" + h::ascii32(std::to_string(g + 1)) + U"(?:)";
                p.text = closed[g];
                break;
            }
            case 7: {
                // assertions
                auto k = s.draw(boosted ? 6 : 4);
                if (k < 2) {
                    auto in = lit();
                    p.pat = (k ? U"(?!" : U"(?=") + quote(in) + U")";
                    p.text = k ? h::u32s() : h::u32s(1, in);
                    if (!k) {
                        p.pat += quote(in);
                    }
                }
                else if (k < 4) {
                    p.pat = k == 2 ? U"\\b" : U"\\B";
                }
                else {
                    p.pat = k == 4 ? U"(?<=a)" : U"(?<!a)";
                }
                return p;
            }
            case 8: {
                auto k = s.draw(3);
                p.pat = std::vector<h::u32s>{U"\\x61", U"\\t", U"\\n"}[k];
                p.text = std::vector<h::u32s>{U"a", U"\t", U"\n"}[k];
                break;
            }
            default: {
                auto c = lit();
                p.pat = quote(c);
                p.text = h::u32s(1, c);
            }
        }
        if (quants > 0 && s.chance(1, 3)) {
            // the engines backtrack: few quantifiers, and none but ? around others
            --quants;
            auto k = s.draw(7);
            if (p.pat.find_first_of(U"*+?{") != h::u32s::npos && p.pat.size() > 2) {
                k = 2;
            }
            p.pat += std::vector<h::u32s>{U"*", U"+", U"?", U"{2}", U"{1,3}", U"{0,2}", U"{1,}"}[k];
            size_t n = k == 3 ? 2 : k == 0 || k == 2 || k == 5 ? s.draw(3 - (k == 2)) : 1 + s.draw(2);
            auto one = p.text;
            p.text.clear();
            while (n--) {
                p.text += one;
            }
            if (s.chance(1, 4)) {
                p.pat += U'?';
            }
        }
        return p;
    }
    P seq(int depth)
    {
        P p;
        for (size_t n = 1 + s.len(4, 2, 3); n; --n) {
            auto a = atom(depth);
            p.pat += a.pat;
            p.text += a.text;
        }
        return p;
    }
    P alt(int depth)
    {
        if (depth <= 0) {
            return seq(0);
        }
        auto p = seq(depth);
        if (s.chance(1, 4)) {
            auto q = seq(depth);
            p.pat += U"|" + q.pat;
            if (s.flip()) {
                p.text = q.text;
            }
        }
        return p;
    }
};

// ---------------------------------------------------------------- the engine
struct Eng {
    enum { match, none, bad } st = none;
    size_t len = 0;
    // first < 0: did not take part
    std::vector<std::pair<long, long>> groups;
};
template <typename CharT>
Eng engine(const std::basic_string<CharT>& pat, h::u32v flags, std::basic_string_view<CharT> in, bool one_line_dot = false)
{
    auto has = [&](char32_t f) { return flags.find(f) != h::u32v::npos; };
    Eng e;
#if SCN_REGEX_BACKEND == 1
    boost::regex_constants::syntax_option_type f = boost::regex_constants::perl;
    if (!has('m')) {
        f |= boost::regex_constants::no_mod_m;
    }
    if (has('s')) {
        f |= boost::regex_constants::mod_s;
    }
    else if (one_line_dot) {
        f |= boost::regex_constants::no_mod_s;
    }
    if (has('i')) {
        f |= boost::regex_constants::icase;
    }
    if (has('n')) {
        f |= boost::regex_constants::nosubs;
    }
    try {
        auto re = boost::make_u32regex(pat.data(), pat.data() + pat.size(), f);
        boost::match_results<const CharT*> m;
        if (boost::u32regex_search(in.data(), in.data() + in.size(), m, re, boost::regex_constants::match_continuous)) {
#else
    auto f = std::regex_constants::ECMAScript;
    if (has('m')) {
        f |= std::regex_constants::multiline;
    }
    if (has('i')) {
        f |= std::regex_constants::icase;
    }
    if (has('n')) {
        f |= std::regex_constants::nosubs;
    }
    try {
        std::basic_regex<CharT> re(pat, f);
        std::match_results<const CharT*> m;
        if (std::regex_search(in.data(), in.data() + in.size(), m, re, std::regex_constants::match_continuous)) {
#endif
            e.st = Eng::match;
            e.len = static_cast<size_t>(m.length(0));
            for (size_t i = 0; i < m.size(); ++i) {
                e.groups.emplace_back(m[i].matched ? m[i].first - in.data() : -1, m[i].matched ? m[i].length() : 0);
            }
        }
    }
    catch (const std::exception&) {
        e.st = Eng::bad;
    }
    return e;
}

// ---------------------------------------------------------------- the scan
enum T { t_str, t_xstr, t_view, t_matches };
struct Got {
    bool ok = false;
    int code = 0;
    long consumed = 0;
    std::string text;  // UTF-8
    long at = -1;      // where a view points
    std::vector<std::pair<long, long>> groups;
    std::vector<std::string> names;  // "-" for none
    std::string second;
};
template <typename CharT>
std::string to_utf8(std::basic_string_view<CharT> v)
{
    if constexpr (sizeof(CharT) == 1) {
        return std::string(v);
    }
    else {
        return h::utf8(h::u32s(v.begin(), v.end()));
    }
}
template <typename CharT, typename V>
void take(Got& g, const V& v, const CharT* base)
{
    using X = std::conditional_t<sizeof(CharT) == 1, wchar_t, char>;
    if constexpr (std::is_same_v<V, std::basic_string<CharT>>) {
        g.text = to_utf8<CharT>(v);
    }
    else if constexpr (std::is_same_v<V, std::basic_string<X>>) {
        g.text = to_utf8<X>(v);
    }
    else if constexpr (std::is_same_v<V, std::basic_string_view<CharT>>) {
        g.text = to_utf8<CharT>(v);
        g.at = v.data() - base;
    }
    else {
        for (auto& m : v) {
            g.names.push_back("-");
            if (!m) {
                g.groups.emplace_back(-1, 0);
                continue;
            }
            g.groups.emplace_back(m->get().data() - base, m->get().size());
            if (m->operator*() != m->get() || m->operator->()->size() != m->get().size()) {
                fail("the accessors of one match differ");
            }
#if SCN_REGEX_SUPPORTS_NAMED_CAPTURES
            if (m->name()) {
                g.names.back() = to_utf8<CharT>(*m->name());
            }
#endif
        }
    }
}
template <typename CharT, typename V>
Got scan_as(int kind, std::basic_string_view<CharT> text, std::basic_string_view<CharT> fmt, bool second)
{
    Got g;
    std::basic_string<CharT> str(text);
    std::vector<CharT> vec(text.begin(), text.end());
    auto go = [&](const auto& src, const CharT* base) {
        auto fin = [&](auto& r, auto&& val) {
            g.ok = static_cast<bool>(r);
            if (!r) {
                g.code = static_cast<int>(r.error().code());
                return;
            }
            g.consumed = static_cast<long>(text.size()) - static_cast<long>(std::distance(r->begin(), r->end()));
            take<CharT>(g, val(), base);
        };
        if (second) {
            auto r = scn::scan<V, std::basic_string<CharT>>(src, scn::runtime_format(fmt));
            fin(r, [&]() -> auto& {
                g.second = to_utf8<CharT>(std::get<1>(r->values()));
                return std::get<0>(r->values());
            });
        }
        else {
            auto r = scn::scan<V>(src, scn::runtime_format(fmt));
            fin(r, [&]() -> auto& { return r->value(); });
        }
    };
    switch (kind) {
        case 0: {
            // no terminator and nothing readable behind the text
            std::unique_ptr<CharT[]> ex(new CharT[text.size()]);
            std::copy(text.begin(), text.end(), ex.get());
            go(std::basic_string_view<CharT>(ex.get(), text.size()), ex.get());
            break;
        }
        case 1:
            go(str, str.data());
            break;
        case 2:
            go(vec, vec.data());
            break;
        case 3:
            go(scn::ranges::subrange<const CharT*>(str.data(), str.data() + str.size()), str.data());
            break;
    }
    return g;
}
// non-contiguous sources: only the error is of interest
template <typename CharT, typename V>
int scan_non(int kind, std::basic_string_view<CharT> text, std::basic_string_view<CharT> fmt)
{
    auto go = [&](auto&& src) {
        auto r = scn::scan<V>(src, scn::runtime_format(fmt));
        return r ? -1 : static_cast<int>(r.error().code());
    };
    if (kind == 0) {
        return go(std::deque<CharT>(text.begin(), text.end()));
    }
    if (kind == 1) {
        return go(std::list<CharT>(text.begin(), text.end()));
    }
    if constexpr (sizeof(CharT) == 1) {
        std::string str(text);
        str += '\0';
        FILE* f = ::fmemopen(str.data(), str.size() - 1 ? str.size() - 1 : 1, "r");
        int r = -2;
        {
            auto res = scn::scan<V>(f, scn::runtime_format(fmt));
            r = res ? -1 : static_cast<int>(res.error().code());
        }
        std::fclose(f);
        return r;
    }
    return go(std::forward_list<CharT>(text.begin(), text.end()));
}
template <typename CharT, typename F>
auto with_type(T t, F&& f)
{
    using X = std::conditional_t<sizeof(CharT) == 1, wchar_t, char>;
    switch (t) {
        case t_str:
            return f(std::basic_string<CharT>());
        case t_xstr:
            return f(std::basic_string<X>());
        case t_view:
            return f(std::basic_string_view<CharT>());
        default:
            return f(scn::basic_regex_matches<CharT>());
    }
}

std::string show_g(const std::vector<std::pair<long, long>>& g)
{
    std::string o;
    for (auto& p : g) {
        o += p.first < 0 ? " -" : " " + std::to_string(p.first) + "+" + std::to_string(p.second);
    }
    return o;
}

template <typename CharT>
void one(Src& s, Ctx& c)
{
    constexpr bool wide = sizeof(CharT) != 1;
    G g{s};
    auto p = g.alt(2);
    bool anchored_end = s.chance(1, 8);
    if (anchored_end) {
        p.pat += U'$';
    }
    if (s.chance(1, 10)) {
        // not at the very front: that would be an alignment
        p.pat = U"(?:^)" + p.pat;
    }
    bool damaged = s.chance(1, 25);
    if (damaged) {
        // most of these are not regexes; Boost's own parser reads past some broken ones
        p.pat = boosted ? s.pick({h::u32s(U"(") + p.pat, p.pat + U")", U"(?:" + p.pat, p.pat + U"|)a"}) : damage(s, p.pat);
    }
    // whatever damage did: escape every slash, keep the pattern non-empty
    h::u32s pat, raw;  // as written in the format; as the engine gets it
    bool odd = false;
    for (size_t i = 0; i < p.pat.size(); ++i) {
        if (p.pat[i] == U'\\' && i + 1 < p.pat.size()) {
            if (p.pat[i + 1] == U'/') {
                pat += U"\\/";
                raw += U'/';
            }
            else {
                pat += p.pat.substr(i, 2);
                raw += p.pat.substr(i, 2);
                // an escaped backslash before a slash: whether the slash ends the regex is open
                odd = odd || (p.pat[i + 1] == U'\\' && i + 2 < p.pat.size() && (p.pat[i + 2] == U'/' || p.pat[i + 2] == U'\\'));
            }
            ++i;
        }
        else if (p.pat[i] == U'/') {
            pat += U"\\/";
            raw += U'/';
        }
        else {
            pat += p.pat[i];
            raw += p.pat[i];
        }
    }
    if (odd || pat.empty() || pat.back() == U'\\' || pat[0] == U'^' || pat[0] == U'<' || pat[0] == U'>' || raw.size() > 120) {
        throw Discard{};
    }
    h::u32s flags;
    for (auto f : {U'm', U's', U'i', U'n'}) {
        if (s.chance(1, 6) && (boosted || f != U's')) {
            flags.insert(flags.begin() + static_cast<long>(s.draw(flags.size() + 1)), f);
        }
    }
    // text
    auto body = p.text;
    if (flags.find(U'i') != h::u32s::npos) {
        for (auto& ch : body) {
            if (((ch >= U'a' && ch <= U'z') || (ch >= U'A' && ch <= U'Z')) && s.flip()) {
                ch ^= 0x20;
            }
        }
    }
    switch (s.draw(4)) {
        case 0:
            body = damage(s, body);
            break;
        case 1:
            body = s.pick({h::u32s(U" "), h::u32s(U"x"), h::u32s(U"a"), h::u32s(U"\n")}) + body;
            break;
        default:
            break;
    }
    body += s.pick({h::u32s(), h::u32s(U"zz"), h::u32s(U" z"), h::u32s(U"aab"), h::u32s(U"\nzz"), h::u32s(U"11")});
    if (body.size() > 30) {
        body.resize(30);
    }
    h::u32s pre = s.pick({h::u32s(), h::u32s(), h::u32s(U"a"), h::u32s(U"k="), h::u32s(U"\u20ac")});
    bool second = s.chance(1, 3);
    T t = s.pick({t_str, t_view, t_xstr, t_matches, t_matches});
    auto enc = [&](h::u32v x) { return h::enc<CharT>(x); };
    auto text = enc(pre + body);
    auto fmt = enc(pre + U"{:/" + pat + U"/" + flags + U"}" + (second ? U"{}" : U""));
    size_t off = enc(pre).size();
    c.desc([&] { return "format " + pbt::show(std::basic_string_view<CharT>(fmt)) + " text " + pbt::show(std::basic_string_view<CharT>(text)) + " into " + std::vector<std::string>{"string", "other string", "view", "matches"}[t]; });

    if (s.chance(1, 16)) {
        int kind = static_cast<int>(s.draw(3));
        int r = with_type<CharT>(t, [&](auto v) { return scan_non<CharT, decltype(v)>(kind, text, fmt); });
        c.label("non-contiguous");
        if (r != 1) {
            fail("a regex on a non-contiguous source gave " + std::to_string(r) + " instead of an invalid-format error");
        }
        return;
    }

    auto e = engine<CharT>(enc(raw), flags, std::basic_string_view<CharT>(text).substr(off));
    if (boosted && g.has_dot && flags.find(U's') == h::u32s::npos && body.find(U'\n') != h::u32s::npos) {
        // whether a dot matches a newline by default is open
        auto e2 = engine<CharT>(enc(raw), flags, std::basic_string_view<CharT>(text).substr(off), true);
        if (e2.st != e.st || e2.groups != e.groups) {
            throw Discard{};
        }
    }
    int kind = static_cast<int>(s.draw(4));
    auto o = with_type<CharT>(t, [&](auto v) { return scan_as<CharT, decltype(v)>(kind, text, fmt, second); });
    if (e.st == Eng::match && (off == text.size())) {
        // an empty match at the very end: also end of input
        c.label("at end");
        return;
    }
    c.label(e.st == Eng::match ? e.len ? "match" : "empty match" : e.st == Eng::none ? "no match" : "bad regex");
    if (e.st != Eng::bad) {
        c.nontrivial(hash_str(h::utf8(raw + flags)) ^ hash_str(h::utf8(body)) * 31 ^ static_cast<uint64_t>(t));
    }
    if (e.st == Eng::bad) {
        if (o.ok) {
            fail("the engine refuses this regex, the scan succeeded");
        }
        if (o.code != 1 && !(o.code == 0 && off == text.size())) {
            fail("the engine refuses this regex, the scan gave error " + std::to_string(o.code));
        }
        return;
    }
    if (e.st == Eng::none) {
        if (o.ok) {
            fail("the engine finds no match, the scan gave " + pbt::show(std::string_view(o.text)) + show_g(o.groups));
        }
        if (o.code != 2 && !(o.code == 0 && off == text.size())) {
            fail("no match, but error " + std::to_string(o.code));
        }
        return;
    }
    auto whole = std::basic_string_view<CharT>(text).substr(off, e.len);
    bool whole_ok = wide || h::valid_utf8(to_utf8<CharT>(whole));
    if (!whole_ok) {
        // a match that cuts a code point
        c.label("cuts a code point");
        if (t != t_matches && o.ok) {
            fail("a string with part of a code point");
        }
        if (t != t_matches || !o.ok) {
            return;
        }
        if (second) {
            return;
        }
    }
    auto rest = std::basic_string_view<CharT>(text).substr(off + e.len);
    std::string want2;
    long want_n = static_cast<long>(off + e.len);
    if (second) {
        if (!wide && !h::valid_utf8(to_utf8<CharT>(rest))) {
            return;
        }
        h::u32s r32;
        {
            // decode the rest by position in the code points
            size_t k = 0, u = 0;
            auto all = pre + body;
            while (u < off + e.len) {
                u += wide ? 1 : h::utf8(all[k]).size();
                ++k;
            }
            if (u != off + e.len) {
                return;
            }
            r32 = all.substr(k);
        }
        size_t i = 0;
        while (i < r32.size() && h::is_ws(r32[i])) {
            ++i;
        }
        size_t j = i;
        while (j < r32.size() && !h::is_ws(r32[j])) {
            ++j;
        }
        if (i == r32.size()) {
            if (o.ok) {
                fail("nothing is left for the second field, but the scan succeeded");
            }
            if (o.code != 0) {
                fail("nothing is left for the second field: error " + std::to_string(o.code));
            }
            return;
        }
        want2 = h::utf8(r32.substr(i, j - i));
        want_n += static_cast<long>(enc(r32.substr(0, j)).size());
    }
    if (!o.ok) {
        fail("the engine matches" + show_g(e.groups) + ", the scan gave error " + std::to_string(o.code));
    }
    if (o.consumed != want_n) {
        fail("consumed " + std::to_string(o.consumed) + " instead of " + std::to_string(want_n));
    }
    if (second && o.second != want2) {
        fail("the field after the match is " + pbt::show(std::string_view(o.second)) + " instead of " + pbt::show(std::string_view(want2)));
    }
    if (t != t_matches) {
        if (o.text != to_utf8<CharT>(whole)) {
            fail("the string is " + pbt::show(std::string_view(o.text)));
        }
        if (t == t_view && o.at != static_cast<long>(off) && !o.text.empty()) {
            fail("the view does not point at the match");
        }
        return;
    }
    auto want = e.groups;
    for (auto& w : want) {
        if (w.first >= 0) {
            w.first += static_cast<long>(off);
        }
    }
    if (o.groups != want) {
        fail("groups are" + show_g(o.groups) + " instead of" + show_g(want));
    }
    for (size_t i = 0; i < o.names.size() && !damaged; ++i) {
        // a group that did not take part has no place for its name
        std::string n = "-";
        if (i > 0 && i - 1 < g.names.size() && !g.names[i - 1].empty() && want[i].first >= 0) {
            n = h::utf8(g.names[i - 1]);
        }
        if (o.names[i] != n) {
            fail("the name of group " + std::to_string(i) + " is " + o.names[i] + " instead of " + n);
        }
    }
}
void narrow(Src& s, Ctx& c) { one<char>(s, c); }
void wide(Src& s, Ctx& c) { one<wchar_t>(s, c); }

// flags and delimiters: what is not a regex field is an invalid format
void refused(Src& s, Ctx& c)
{
    std::string f = "{:/" + std::string(s.pick({"a", "(a)b", "a\\/b"})) + "/";
    bool bad = false;
    switch (s.draw(5)) {
        case 0: {
            std::string fl;
            for (size_t n = 1 + s.draw(3); n; --n) {
                fl += s.pick({'m', 's', 'i', 'n'});
            }
            for (char x : fl) {
                bad = bad || std::count(fl.begin(), fl.end(), x) > 1 || (!boosted && x == 's');
            }
            f += fl + "}";
            break;
        }
        case 1:
            f += std::string(1, s.chance(1, 8) ? '\0' : static_cast<char>(s.range(0, 0x7f))) + "}";
            bad = f[f.size() - 2] != 'm' && f[f.size() - 2] != 'i' && f[f.size() - 2] != 'n' && f[f.size() - 2] != 's' && f[f.size() - 2] != '}';
            bad = bad || (!boosted && f[f.size() - 2] == 's');
            if (f[f.size() - 2] == '}') {
                throw Discard{};
            }
            break;
        case 2:
            f = "{://" + std::string(s.pick({"", "i"})) + "}";
            bad = true;
            break;
        case 3:
            f = std::string("{:/a") + s.pick({"", "}", "\\/}", "b", "\\"});
            bad = true;
            break;
        default:
            // precision with a regex is refused
            f = "{:." + std::to_string(1 + s.draw(3)) + "/a/}";
            bad = true;
    }
    c.desc([&] { return "format " + pbt::show(std::string_view(f)); });
    c.nontrivial(hash_str(f));
    int kind = static_cast<int>(s.draw(3));
    auto go = [&](auto v) {
        auto r = scn::scan<decltype(v)>(std::string_view("abab"), scn::runtime_format(f));
        return r ? -1 : static_cast<int>(r.error().code());
    };
    int r = kind == 0 ? go(std::string()) : kind == 1 ? go(std::string_view()) : go(scn::regex_matches());
    if (bad && r != 1) {
        fail("result " + std::to_string(r) + " instead of an invalid-format error");
    }
    if (!bad && r == 1) {
        fail("a valid regex field was refused");
    }
    // only strings and match results take a regex
    if (!bad) {
        auto q = go(int());
        auto w = go(char());
        if (q != 1 || w != 1) {
            fail("a regex for a non-string was not refused");
        }
    }
    auto none = scn::scan<scn::regex_matches>(std::string_view("abab"), scn::runtime_format(s.pick({std::string_view("{}"), std::string_view("{:}"), std::string_view("{:[a]}"), std::string_view("{:s}")})));
    if (none || none.error().code() != scn::scan_error::invalid_format_string) {
        fail("match results without a regex were not refused");
    }
}
// ill-formed text or pattern: a value or an error, and views of the source
void ill_formed(Src& s, Ctx& c)
{
    G g{s};
    g.quants = 2;
    auto p = g.alt(1);
    if (p.pat.empty() || p.pat[0] == U'^' || p.pat[0] == U'<' || p.pat[0] == U'>') {
        throw Discard{};
    }
    auto pat = h::utf8(p.pat), text = h::utf8(p.text);
    auto hurt = [&](std::string& x) {
        for (size_t n = 1 + s.draw(2); n; --n) {
            x.insert(s.draw(x.size() + 1), 1, static_cast<char>(s.range(0x80, 0xff)));
        }
    };
    bool in_pat = s.chance(1, 4);
    hurt(in_pat ? pat : text);
    auto fmt = "{:/" + pat + "/" + s.pick({"", "i"}) + "}";
    T t = s.pick({t_str, t_view, t_xstr, t_matches});
    c.desc([&] { return "format " + pbt::show(std::string_view(fmt)) + " text " + pbt::show(std::string_view(text)); });
    c.nontrivial(hash_str(fmt) ^ hash_str(text) * 31 ^ t);
    auto o = with_type<char>(t, [&](auto v) { return scan_as<char, decltype(v)>(0, text, fmt, false); });
    c.label(o.ok ? "ill-formed: value" : "ill-formed: error");
    if (o.ok && t != t_matches && !h::valid_utf8(o.text)) {
        fail("an ill-formed string");
    }
    for (auto& r : o.groups) {
        if (r.first >= 0 && (r.first + r.second > static_cast<long>(text.size()))) {
            fail("a group outside of the source");
        }
    }
}
}  // namespace
std::vector<pbt::Sub> pbt::subs()
{
    return {{"narrow", narrow, 5, 0}, {"wide", wide, 3, 0}, {"refused", refused, 1, 0}, {"ill_formed", ill_formed, 1, 0}};
}
