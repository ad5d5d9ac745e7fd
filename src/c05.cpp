#include "gen.h"
#include "tuples.h"
// C05: remainder, chaining, argument order, determinism.
const char* const pbt::property_id = "C05";
namespace {
using namespace pbt;
using model::Piece;
using model::Spec;
using model::Ty;

template <typename Res>
int code_of(const Res& r) { return static_cast<int>(r.error().code()); }

template <typename CharT, typename Res>
void check_rest(const Res& r, std::basic_string_view<CharT> text, long consumed)
{
    std::basic_string<CharT> rest;
    for (auto it = r->range().begin(); it != r->range().end(); ++it) {
        rest += *it;
    }
    if (consumed < 0 || static_cast<size_t>(consumed) > text.size() || rest != text.substr(static_cast<size_t>(consumed))) {
        fail("the remaining range is not the unread suffix: consumed " + std::to_string(consumed) + ", remaining " + pbt::show(std::basic_string_view<CharT>(rest)));
    }
}

// one scan
template <typename... Ts, typename Source, typename CharT>
h::Out once(Source& src, std::basic_string_view<CharT> text, const std::basic_string<CharT>& fmt)
{
    h::Out o;
    auto r = scn::scan<Ts...>(src, h::rt(fmt));
    h::fill_out(o, r, src.begin());
    if (r) {
        check_rest<CharT>(r, text, o.consumed);
    }
    return o;
}
// a chain of scans of one field each
template <typename A, typename... Ts, typename Begin, typename Range, typename CharT>
void link(h::Out& o, Begin begin, Range&& rng, const std::basic_string<CharT>* fmts)
{
    auto r = scn::scan<A>(std::forward<Range>(rng), h::rt(*fmts));
    if (!r) {
        o.ok = false;
        o.code = code_of(r);
        return;
    }
    o.ok = true;
    o.vals.push_back(h::canon(r->value()));
    o.consumed = static_cast<long>(std::distance(begin, r->begin()));
    if constexpr (sizeof...(Ts) > 0) {
        link<Ts...>(o, begin, r->range(), fmts + 1);
    }
}
template <typename... Ts, typename Source, typename CharT>
void go(Source& src, std::basic_string_view<CharT> text, const std::basic_string<CharT>& all, const std::vector<std::basic_string<CharT>>& parts, Ctx& c, uint64_t key)
{
    std::basic_string<CharT> before(src.begin(), src.end());
    auto a = once<Ts...>(src, text, all);
    auto again = once<Ts...>(src, text, all);
    if (a.ok != again.ok || a.code != again.code || a.vals != again.vals || a.consumed != again.consumed) {
        fail("two scans of the same source differ: " + h::show(a) + " vs " + h::show(again));
    }
    h::Out b;
    link<Ts...>(b, src.begin(), src, parts.data());
    c.label(a.ok ? "value" : "error");
    if (a.ok || a.code != 1) {
        c.nontrivial(key);
    }
    if (a.ok != b.ok || (a.ok ? a.vals != b.vals || a.consumed != b.consumed : a.code != b.code)) {
        fail("one scan: " + h::show(a) + " chain: " + h::show(b));
    }
    if (std::basic_string<CharT>(src.begin(), src.end()) != before) {
        fail("the source was modified");
    }
}
template <typename... Ts, typename CharT>
void kinds(int kind, std::basic_string_view<CharT> v, const std::basic_string<CharT>& all, const std::vector<std::basic_string<CharT>>& parts, Ctx& c, uint64_t key, size_t buf)
{
    switch (kind) {
        case h::k_view: {
            h::Exact<CharT> e(v);
            auto sv = e.view();
            return go<Ts...>(sv, v, all, parts, c, key);
        }
        case h::k_string: {
            std::basic_string<CharT> x(v);
            return go<Ts...>(x, v, all, parts, c, key);
        }
        case h::k_deque: {
            std::deque<CharT> x(v.begin(), v.end());
            return go<Ts...>(x, v, all, parts, c, key);
        }
        case h::k_fwd: {
            std::forward_list<CharT> x(v.begin(), v.end());
            return go<Ts...>(x, v, all, parts, c, key);
        }
        case h::k_lazy: {
            h::lazy_view<CharT> x(v);
            return go<Ts...>(x, v, all, parts, c, key);
        }
        default:
            if constexpr (std::is_same_v<CharT, char>) {
                h::Out a = h::run<Ts...>(h::k_file, v, all, buf), b;
                h::MemFile f(v, buf);
                size_t i = 0;
                b.ok = true;
                auto step = [&](auto tag) {
                    using T = typename decltype(tag)::type;
                    if (!b.ok) {
                        return;
                    }
                    auto r = scn::scan<T>(f.get(), h::rt(parts[i++]));
                    if (!r) {
                        b.ok = false;
                        b.code = code_of(r);
                    }
                    else {
                        b.vals.push_back(h::canon(r->value()));
                        b.consumed = std::ftell(f.get());
                    }
                };
                (step(std::common_type<Ts>{}), ...);
                c.label(a.ok ? "value" : "error");
                if (a.ok || a.code != 1) {
                    c.nontrivial(key);
                }
                if (a.ok != b.ok || (a.ok ? a.vals != b.vals || a.consumed != b.consumed : a.code != b.code)) {
                    fail("one scan of a file: " + h::show(a) + " chain: " + h::show(b));
                }
            }
    }
}

template <typename CharT>
void chain_impl(Src& s, Ctx& c)
{
    using S = std::basic_string<CharT>;
    using namespace model;
    static const std::vector<Ty> tt[] = {{t_int, t_string, t_double}, {t_string, t_string}, {t_char32, t_uint, t_string}, {t_bool, t_llong}, {t_string, t_wchar, t_float, t_int}, {t_view, t_int}};
    size_t tu = s.draw(6);
    int kind = s.pick({h::k_view, h::k_view, h::k_string, h::k_deque, h::k_fwd, h::k_lazy, h::k_file});
    if (tu == 5) {
        kind = h::k_view;
    }
    if (sizeof(CharT) > 1 && kind == h::k_file) {
        kind = h::k_deque;
    }
    auto ps = gen::format_for(s, tt[tu], 3);
    auto text = gen::text_for(s, ps);
    // split the format: each part has one field
    std::vector<std::vector<Piece>> parts(1);
    bool have = false;
    for (size_t i = 0; i < ps.size(); ++i) {
        bool later = false;
        for (size_t j = i; j < ps.size(); ++j) {
            later |= ps[j].k == Piece::field;
        }
        if (have && (ps[i].k == Piece::field || (later && s.flip()))) {
            parts.emplace_back();
            have = false;
        }
        parts.back().push_back(ps[i]);
        have |= ps[i].k == Piece::field;
    }
    auto all = h::enc<CharT>(model::fmt_text(ps));
    std::vector<S> fs;
    for (auto& p : parts) {
        fs.push_back(h::enc<CharT>(model::fmt_text(p)));
    }
    auto x = h::enc<CharT>(text);
    std::basic_string_view<CharT> v(x);
    size_t buf = static_cast<size_t>(s.range(1, 16));
    c.desc([&] {
        std::string d = "tuple " + std::to_string(tu) + " text " + pbt::show(v) + " source " + h::kind_name(kind) + " parts";
        for (auto& f : fs) {
            d += " " + pbt::show(std::basic_string_view<CharT>(f));
        }
        return d;
    });
    auto key = hash_str(h::utf8(text)) ^ hash_str(h::utf8(model::fmt_text(ps))) * 31 ^ parts.size();
    switch (tu) {
        case 0: return kinds<int, S, double>(kind, v, all, fs, c, key, buf);
        case 1: return kinds<S, S>(kind, v, all, fs, c, key, buf);
        case 2: return kinds<char32_t, unsigned, S>(kind, v, all, fs, c, key, buf);
        case 3: return kinds<bool, long long>(kind, v, all, fs, c, key, buf);
        case 4: return kinds<S, wchar_t, float, int>(kind, v, all, fs, c, key, buf);
        default: {
            h::Exact<CharT> e(v);
            auto sv = e.view();
            return go<std::basic_string_view<CharT>, int>(sv, v, all, fs, c, key);
        }
    }
}
void chain(Src& s, Ctx& c) { s.chance(1, 3) ? chain_impl<wchar_t>(s, c) : chain_impl<char>(s, c); }

// explicit numbering: values come in argument order
template <typename CharT, typename A, typename B, typename D>
h::Out three(int kind, const std::basic_string<CharT>& x, const std::basic_string<CharT>& f)
{
    return h::run<A, B, D>(kind, std::basic_string_view<CharT>(x), f);
}
template <typename CharT>
h::Out perm_run(int p, int kind, const std::basic_string<CharT>& x, const std::basic_string<CharT>& f)
{
    using S = std::basic_string<CharT>;
    switch (p) {
        case 0: return three<CharT, int, S, double>(kind, x, f);
        case 1: return three<CharT, int, double, S>(kind, x, f);
        case 2: return three<CharT, S, int, double>(kind, x, f);
        case 3: return three<CharT, S, double, int>(kind, x, f);
        case 4: return three<CharT, double, int, S>(kind, x, f);
        default: return three<CharT, double, S, int>(kind, x, f);
    }
}
template <typename CharT>
void order_impl(Src& s, Ctx& c)
{
    using namespace model;
    // positions of (int, string, double) in the argument list of each permutation
    static const int place[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {2, 0, 1}, {1, 2, 0}, {2, 1, 0}};
    int a = static_cast<int>(s.draw(6));  // order of appearance in the format
    int b = static_cast<int>(s.draw(6));  // order in the argument list
    static const Ty base[3] = {t_int, t_string, t_double};
    std::vector<Ty> ts(3);
    for (int k = 0; k < 3; ++k) {
        ts[static_cast<size_t>(place[a][k])] = base[k];
    }
    auto ps = gen::format_for(s, ts, 2);
    auto text = gen::text_for(s, ps);
    auto fa = model::fmt_text(ps);
    for (auto& p : ps) {
        if (p.k == Piece::field) {
            int k = p.t == t_int ? 0 : p.t == t_string ? 1 : 2;
            p.id = place[b][k];
        }
    }
    auto fb = model::fmt_text(ps);
    int kind = s.flip() ? h::k_view : h::k_deque;
    c.desc([&] { return "text " + pbt::show(h::u32v(text)) + " formats " + pbt::show(h::u32v(fa)) + " and " + pbt::show(h::u32v(fb)); });
    auto x = h::enc<CharT>(text);
    auto oa = perm_run<CharT>(a, kind, x, h::enc<CharT>(fa));
    auto ob = perm_run<CharT>(b, kind, x, h::enc<CharT>(fb));
    c.label(oa.ok ? "value" : "error");
    if (oa.ok || oa.code != 1) {
        c.nontrivial(hash_str(h::utf8(text)) ^ hash_str(h::utf8(fb)) * 31);
    }
    if (oa.ok != ob.ok || (oa.ok ? oa.consumed != ob.consumed : oa.code != ob.code)) {
        fail("automatic: " + h::show(oa) + " explicit: " + h::show(ob));
    }
    if (oa.ok) {
        for (int k = 0; k < 3; ++k) {
            if (oa.vals[static_cast<size_t>(place[a][k])] != ob.vals[static_cast<size_t>(place[b][k])]) {
                fail("values in the wrong place: automatic: " + h::show(oa) + " explicit: " + h::show(ob));
            }
        }
    }
}
void order(Src& s, Ctx& c) { s.chance(1, 3) ? order_impl<wchar_t>(s, c) : order_impl<char>(s, c); }

// sources that are gone when the result is used: the same values, and a
// remaining range only if it can be read
template <typename R>
constexpr bool is_dangling = std::is_same_v<std::decay_t<decltype(std::declval<R&>()->range())>, scn::ranges::dangling>;
template <typename CharT, typename R>
void compare_temp(const char* what, bool expires, const R& r, const h::Out& ref, std::basic_string_view<CharT> x)
{
    auto who = std::string(" (") + what + ")";
    if (r.has_value() != ref.ok || (!r && static_cast<int>(r.error().code()) != ref.code)) {
        fail("scanning a temporary differs from scanning a variable: " + h::show(ref) + who);
    }
    if (!r) {
        return;
    }
    std::vector<std::string> vals;
    std::apply([&](const auto&... v) { (vals.push_back(h::canon(v)), ...); }, r->values());
    if (vals != ref.vals) {
        fail("values of a temporary differ from those of a variable: " + h::show(ref) + who);
    }
    if constexpr (!is_dangling<const R>) {
        if (expires) {
            fail("the result refers to a source that is gone" + who);
        }
        std::basic_string<CharT> rest;
        for (auto ch : r->range()) {
            rest += ch;
        }
        if (rest != x.substr(static_cast<size_t>(ref.consumed))) {
            fail("the remaining range is not the unread rest" + who);
        }
    }
    else if (!expires) {
        fail("no remaining range for a source that lives on" + who);
    }
}
template <typename CharT>
void temporary_impl(Src& s, Ctx& c)
{
    using namespace model;
    using S = std::basic_string<CharT>;
    using V = std::basic_string_view<CharT>;
    auto ps = gen::format_for(s, {t_int, t_string}, 2);
    auto text = gen::text_for(s, ps);
    auto f = h::enc<CharT>(model::fmt_text(ps));
    auto x = h::enc<CharT>(text);
    V v(x);
    c.desc([&] { return "temporaries of " + pbt::show(v) + " with " + pbt::show(V(f)); });
    auto ref = h::run<int, S>(h::k_view, v, f);
    c.label(ref.ok ? "value" : "error");
    if (ref.ok) {
        c.nontrivial(hash_str(h::utf8(text)) ^ hash_str(h::utf8(model::fmt_text(ps))));
    }
    compare_temp<CharT>("string", true, scn::scan<int, S>(S(x), h::rt(f)), ref, v);
    compare_temp<CharT>("const string", true, scn::scan<int, S>(static_cast<const S&&>(S(x)), h::rt(f)), ref, v);
    compare_temp<CharT>("vector", true, scn::scan<int, S>(std::vector<CharT>(x.begin(), x.end()), h::rt(f)), ref, v);
    compare_temp<CharT>("deque", true, scn::scan<int, S>(std::deque<CharT>(x.begin(), x.end()), h::rt(f)), ref, v);
    compare_temp<CharT>("list", true, scn::scan<int, S>(std::list<CharT>(x.begin(), x.end()), h::rt(f)), ref, v);
    compare_temp<CharT>("view", false, scn::scan<int, S>(V(x), h::rt(f)), ref, v);
    std::deque<CharT> d(x.begin(), x.end());
    compare_temp<CharT>("subrange", false, scn::scan<int, S>(scn::ranges::subrange(d.begin(), d.end()), h::rt(f)), ref, v);
    compare_temp<CharT>("variable", false, scn::scan<int, S>(d, h::rt(f)), ref, v);
    const S cs(x);
    compare_temp<CharT>("const variable", false, scn::scan<int, S>(cs, h::rt(f)), ref, v);
}
void temporary(Src& s, Ctx& c) { s.chance(1, 3) ? temporary_impl<wchar_t>(s, c) : temporary_impl<char>(s, c); }

}  // namespace

void many(pbt::Src& s, pbt::Ctx& c);  // c05_many.cpp

std::vector<pbt::Sub> pbt::subs()
{
    return {{"chain", chain, 6, 0}, {"order", order, 3, 0}, {"many", many, 1, 0}, {"temporary", temporary, 2, 0}};
}
