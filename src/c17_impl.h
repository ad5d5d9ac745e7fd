#include "c17.h"
#include <scn/istream.h>
#include <istream>
#include <sstream>
namespace c17 {
inline std::string g_seen;
inline const char* const sep = "\x1f\xff\x1f";  // in no value: they are valid UTF-8
template <typename C>
std::string to8(const std::basic_string<C>& s)
{
    if constexpr (std::is_same_v<C, char>) {
        return s;
    }
    else {
        return h::utf8(h::u32s(s.begin(), s.end()));
    }
}
template <typename C>
std::basic_string<C> lit(const char* s)
{
    return std::basic_string<C>(s, s + std::strlen(s));
}

// ---- delegation
template <typename A, typename B, int Way>
struct Parts {
    A a{};
    B b{};
};
template <typename C>
struct SpecKeeper {
    std::basic_string<C> spec;
    template <typename P>
    constexpr auto parse(P& p) -> typename P::iterator
    {
        auto it = p.begin();
        while (it != p.end() && *it != C{'}'}) {
            spec += *it;
            ++it;
        }
        return it;
    }
};
}  // namespace c17
template <typename A, typename B, typename C>
struct scn::scanner<c17::Parts<A, B, 0>, C> : c17::SpecKeeper<C> {
    template <typename Ctx>
    auto scan(c17::Parts<A, B, 0>& v, Ctx& ctx) const -> scn::scan_expected<typename Ctx::iterator>
    {
        c17::g_seen = c17::to8(this->spec);
        auto f = this->spec;
        for (auto& c : f) {
            c = c == 1 ? C{'{'} : c == 2 ? C{'}'} : c;
        }
        auto r = scn::scan<A, B>(ctx.range(), h::rt(f));
        if (!r) {
            return scn::unexpected(r.error());
        }
        std::tie(v.a, v.b) = r->values();
        return r->begin();
    }
};
template <typename A, typename B, typename C>
struct scn::scanner<c17::Parts<A, B, 1>, C> : c17::SpecKeeper<C> {
    template <typename Ctx>
    auto scan(c17::Parts<A, B, 1>& v, Ctx& ctx) const -> scn::scan_expected<typename Ctx::iterator>
    {
        auto f = c17::lit<C>("{:") + this->spec + c17::lit<C>("}");
        auto r = scn::scan<c17::Parts<A, B, 0>>(ctx.range(), h::rt(f));
        if (!r) {
            return scn::unexpected(r.error());
        }
        v.a = r->value().a;
        v.b = r->value().b;
        return r->begin();
    }
};
template <typename A, typename B, typename C>
struct scn::scanner<c17::Parts<A, B, 2>, C> : scn::scanner<c17::Parts<A, B, 0>, C> {
    template <typename Ctx>
    auto scan(c17::Parts<A, B, 2>& v, Ctx& ctx) const -> scn::scan_expected<typename Ctx::iterator>
    {
        c17::Parts<A, B, 0> x;
        auto r = scn::scanner<c17::Parts<A, B, 0>, C>::scan(x, ctx);
        v.a = x.a;
        v.b = x.b;
        return r;
    }
};
namespace h {
template <typename A, typename B, int W>
struct CanonExt<c17::Parts<A, B, W>> {
    static std::string get(const c17::Parts<A, B, W>& p) { return canon(p.a) + c17::sep + canon(p.b); }
};
}  // namespace h
namespace c17 {
template <typename C, typename... Mid>
h::Out framed(const Plan& p, const h::u32s& mid)
{
    auto text = h::enc<C>(p.text);
    auto fmt = h::enc<C>(p.pre + mid + p.post);
    std::basic_string_view<C> v(text);
    using S = std::basic_string<C>;
    h::Out o;
    if (p.before) {
        o = p.after ? h::run<S, Mid..., int>(p.kind, v, fmt, p.buf) : h::run<S, Mid...>(p.kind, v, fmt, p.buf);
    }
    else {
        o = p.after ? h::run<Mid..., int>(p.kind, v, fmt, p.buf) : h::run<Mid...>(p.kind, v, fmt, p.buf);
    }
    std::vector<std::string> vals;
    for (auto& x : o.vals) {
        auto at = x.find(sep);
        if (sizeof...(Mid) == 1 && at != x.npos) {
            vals.push_back(x.substr(0, at));
            vals.push_back(x.substr(at + std::strlen(sep)));
        }
        else {
            vals.push_back(x);
        }
    }
    o.vals = vals;
    return o;
}
template <typename C, typename A, typename B>
h::Out custom2(const Plan& p)
{
    auto mid = U"{:" + hide(p.inner) + U"}";
    switch (p.way) {
        case 0: return framed<C, Parts<A, B, 0>>(p, mid);
        case 1: return framed<C, Parts<A, B, 1>>(p, mid);
        default: return framed<C, Parts<A, B, 2>>(p, mid);
    }
}
template <typename C>
h::Out custom(const Plan& p, std::string& seen)
{
    using S = std::basic_string<C>;
    using X = std::basic_string<std::conditional_t<std::is_same_v<C, char>, wchar_t, char>>;
    g_seen.clear();
    h::Out o;
    switch (p.tuple) {
        case 0: o = custom2<C, int, S>(p); break;
        case 1: o = custom2<C, double, char32_t>(p); break;
        case 2: o = custom2<C, S, unsigned>(p); break;
        case 3: o = custom2<C, bool, X>(p); break;
        default: o = custom2<C, S, S>(p); break;
    }
    seen = g_seen;
    return o;
}
template <typename C>
h::Out direct(const Plan& p)
{
    using S = std::basic_string<C>;
    using X = std::basic_string<std::conditional_t<std::is_same_v<C, char>, wchar_t, char>>;
    switch (p.tuple) {
        case 0: return framed<C, int, S>(p, p.inner);
        case 1: return framed<C, double, char32_t>(p, p.inner);
        case 2: return framed<C, S, unsigned>(p, p.inner);
        case 3: return framed<C, bool, X>(p, p.inner);
        default: return framed<C, S, S>(p, p.inner);
    }
}

// ---- inheritance
template <typename T>
struct Wrap {
    T v{};
};
}  // namespace c17
template <typename T, typename C>
struct scn::scanner<c17::Wrap<T>, C> : scn::scanner<T, C> {
    template <typename Ctx>
    auto scan(c17::Wrap<T>& w, Ctx& ctx) const -> scn::scan_expected<typename Ctx::iterator>
    {
        return scn::scanner<T, C>::scan(w.v, ctx);
    }
};
namespace h {
template <typename T>
struct CanonExt<c17::Wrap<T>> {
    static std::string get(const c17::Wrap<T>& p) { return canon(p.v); }
};
}  // namespace h
namespace c17 {
template <typename C, typename T>
h::Out wrap1(const Plan& p, bool wrapped)
{
    auto text = h::enc<C>(p.text);
    auto fmt = h::enc<C>(p.inner);
    std::basic_string_view<C> v(text);
    return wrapped ? h::run<Wrap<T>>(p.kind, v, fmt, p.buf) : h::run<T>(p.kind, v, fmt, p.buf);
}
template <typename C>
h::Out wrap(const Plan& p, bool wrapped)
{
    using S = std::basic_string<C>;
    using X = std::basic_string<std::conditional_t<std::is_same_v<C, char>, wchar_t, char>>;
    switch (p.tuple) {
        case 0: return wrap1<C, int>(p, wrapped);
        case 1: return wrap1<C, double>(p, wrapped);
        case 2: return wrap1<C, S>(p, wrapped);
        case 3: return wrap1<C, bool>(p, wrapped);
        case 4: return wrap1<C, char32_t>(p, wrapped);
        case 5: return wrap1<C, void*>(p, wrapped);
        case 6: return wrap1<C, unsigned char>(p, wrapped);
        default: return wrap1<C, X>(p, wrapped);
    }
}

// ---- errors
template <int Depth>
struct Err {};
struct ErrPlan {
    int how, code, used;
};
inline ErrPlan g_err;
}  // namespace c17
template <int D, typename C>
struct scn::scanner<c17::Err<D>, C> {
    template <typename P>
    constexpr auto parse(P& p) -> typename P::iterator
    {
        auto it = p.begin();
        if (D == 0 && c17::g_err.how == 1) {
            throw scn::scan_format_string_error("no");
        }
        if (D == 0 && c17::g_err.how == 2) {
            p.on_error("no");
        }
        while (it != p.end() && *it != C{'}'}) {
            ++it;
        }
        return it;
    }
    template <typename Ctx>
    auto scan(c17::Err<D>&, Ctx& ctx) const -> scn::scan_expected<typename Ctx::iterator>
    {
        if constexpr (D > 0) {
            auto r = scn::scan<c17::Err<D - 1>>(ctx.range(), h::rt(c17::lit<C>(D == 1 ? "{:x}" : "{}")));
            if (!r) {
                return scn::unexpected(r.error());
            }
            return r->begin();
        }
        else {
            auto it = ctx.begin();
            for (int i = 0; i < c17::g_err.used; ++i) {
                if (it == ctx.end()) {
                    std::abort();
                }
                ++it;
            }
            if (c17::g_err.how == 0) {
                return scn::unexpected(scn::scan_error{static_cast<enum scn::scan_error::code>(c17::g_err.code), "no"});
            }
            return it;
        }
    }
};
namespace h {
template <int D>
struct CanonExt<c17::Err<D>> {
    static std::string get(const c17::Err<D>&) { return "e"; }
};
}  // namespace h
namespace c17 {
template <typename C>
h::Out error_of(const Plan& p, int how, int code, int depth, int used)
{
    g_err = {how, code, used};
    auto text = h::enc<C>(p.text);
    std::basic_string_view<C> v(text);
    auto fmt = lit<C>(code % 2 ? "{}" : "{:zz}");
    switch (depth) {
        case 0: return h::run<Err<0>>(p.kind, v, fmt, p.buf);
        case 1: return h::run<Err<1>>(p.kind, v, fmt, p.buf);
        default: return h::run<Err<2>>(p.kind, v, fmt, p.buf);
    }
}

// ---- locales
template <int Nested>
struct Loc {};
inline std::string g_locale;
}  // namespace c17
template <int N, typename C>
struct scn::scanner<c17::Loc<N>, C> {
    template <typename P>
    constexpr auto parse(P& p) -> typename P::iterator
    {
        auto it = p.begin();
        while (it != p.end() && *it != C{'}'}) {
            ++it;
        }
        return it;
    }
    template <typename Ctx>
    auto scan(c17::Loc<N>&, Ctx& ctx) const -> scn::scan_expected<typename Ctx::iterator>
    {
        std::locale l = ctx.locale().template get<std::locale>();
        if constexpr (N) {
            auto r = scn::scan<c17::Loc<0>>(l, ctx.range(), h::rt(c17::lit<C>("{}")));
            if (!r) {
                return scn::unexpected(r.error());
            }
            return r->begin();
        }
        else {
            c17::g_locale = l.name();
            auto it = ctx.begin();
            ++it;
            return it;
        }
    }
};
namespace h {
template <int D>
struct CanonExt<c17::Loc<D>> {
    static std::string get(const c17::Loc<D>&) { return "l"; }
};
}  // namespace h
namespace c17 {
template <typename C>
std::string locale_of(const Plan& p, int form, const std::locale* l)
{
    auto text = h::enc<C>(p.text);
    std::basic_string_view<C> v(text);
    g_locale = "none";
    h::run_locale = l;
    h::Out o;
    switch (form) {
        case 0: o = h::run<Loc<0>>(p.kind, v, lit<C>("{}"), p.buf); break;
        case 1: o = h::run<Loc<0>>(p.kind, v, lit<C>("{:a}"), p.buf); break;
        case 2: o = h::run<Loc<0>, int>(p.kind, v, lit<C>("{} {:L}"), p.buf); break;
        default: o = h::run<Loc<1>>(p.kind, v, lit<C>("{:b}"), p.buf); break;
    }
    h::run_locale = nullptr;
    if (!o.ok) {
        pbt::fail("the scan failed: " + h::show(o));
    }
    return g_locale;
}

// ---- streams
struct Streamed {
    std::string log;
};
inline const std::vector<Op>* g_ops;
template <typename C>
std::basic_istream<C>& operator>>(std::basic_istream<C>& is, Streamed& v)
{
    C last{};
    for (auto& op : *g_ops) {
        std::string val;
        switch (op.k) {
            case op_int: {
                int x = -1;
                is >> x;
                val = h::canon(x);
                break;
            }
            case op_word: {
                std::basic_string<C> x;
                is >> x;
                val = h::canon(x);
                break;
            }
            case op_double: {
                double x = -1;
                is >> x;
                val = h::canon(x);
                break;
            }
            case op_bool: {
                bool x = false;
                is >> x;
                val = h::canon(x);
                break;
            }
            case op_get: {
                auto x = is.get();
                last = static_cast<C>(x);
                val = std::to_string(x);
                break;
            }
            case op_peek: val = std::to_string(is.peek()); break;
            case op_unget: is.unget(); break;
            case op_putback: is.putback(last); break;
            case op_putother: is.putback(static_cast<C>('~')); break;
            case op_ignore: is.ignore(op.n); break;
            case op_read: {
                C b[8] = {};
                is.read(b, op.n);
                val = h::canon(std::basic_string<C>(b, static_cast<size_t>(is.gcount())));
                break;
            }
            case op_getline: {
                std::basic_string<C> x;
                std::getline(is, x);
                val = h::canon(x);
                break;
            }
            case op_clear: is.clear(); break;
            case op_fail:
                if (op.n == 0) {
                    is.setstate(std::ios_base::failbit);
                }
                break;
            default: is >> std::ws; break;
        }
        v.log += val + "/" + std::to_string(is.rdstate()) + " ";
    }
    return is;
}
}  // namespace c17
template <typename C>
struct scn::scanner<c17::Streamed, C> : scn::basic_istream_scanner<C> {};
namespace h {
template <>
struct CanonExt<c17::Streamed> {
    static std::string get(const c17::Streamed& s) { return s.log; }
};
}  // namespace h
namespace c17 {
template <typename C>
h::Out stream_of(const Plan& p, const std::vector<Op>& ops, bool scanned)
{
    g_ops = &ops;
    auto text = h::enc<C>(p.text);
    std::basic_string_view<C> v(text);
    using S = std::basic_string<C>;
    if (scanned) {
        return p.before ? h::run<S, Streamed>(p.kind, v, lit<C>("{}{}"), p.buf) : h::run<Streamed>(p.kind, v, lit<C>("{}"), p.buf);
    }
    h::Out o;
    o.ok = true;
    o.consumed = 0;
    if (p.before) {
        o = h::run<S>(h::k_view, v, lit<C>("{}"), 1);
        if (!o.ok) {
            return o;
        }
    }
    std::basic_istringstream<C> is(text.substr(static_cast<size_t>(o.consumed)));
    Streamed x;
    if (!(is >> x)) {
        o.ok = false;
        o.code = is.eof() ? 0 : is.bad() ? 6 : 2;
        return o;
    }
    auto left = is.rdbuf()->in_avail();
    o.consumed = static_cast<long>(text.size()) - (left > 0 ? left : 0);
    o.vals.push_back(x.log);
    return o;
}
}  // namespace c17

// ---- walking by hand
namespace c17 {
struct Walk {
    std::string log;
};
inline const std::vector<Op>* g_walk;
// turn: goes on with a scanner of the library
template <typename C, typename It, typename End, typename Sub, typename Turn>
It walk(It it, End end, std::string& log, Sub sub, Turn turn)
{
    std::vector<It> saved{it};
    auto other = [&](const Op& op) { return saved[static_cast<size_t>(op.n) % saved.size()]; };
    auto code = [](C ch) { return std::to_string(static_cast<long>(ch)); };
    for (auto& op : *g_walk) {
        log += ' ';
        switch (op.k) {
            case w_step:
                for (int i = 0; i <= op.n && it != end; ++i) {
                    ++it;
                }
                break;
            case w_post:
                if (it != end) {
                    log += code(*it++);
                }
                break;
            case w_look: log += it == end ? "$" : code(*it); break;
            case w_end: log += it == end ? "end" : "more"; break;
            case w_save:
                if (saved.size() < 4) {
                    saved.push_back(it);
                }
                break;
            case w_back: it = other(op); break;
            case w_same: log += it == other(op) ? "same" : "other"; break;
            case w_int:
                if (auto r = scn::scan<int>(sub(it, end), h::rt(lit<C>("{}")))) {
                    log += h::canon(r->value());
                    it = r->begin();
                }
                else {
                    log += "e" + std::to_string(static_cast<int>(r.error().code()));
                }
                break;
            case w_word:
                if (auto r = scn::scan<std::basic_string<C>>(sub(it, end), h::rt(lit<C>("{}")))) {
                    log += h::canon(r->value());
                    it = r->begin();
                }
                else {
                    log += "e" + std::to_string(static_cast<int>(r.error().code()));
                }
                break;
            case w_turn: it = turn(it, log, op.n); break;
            case w_left: {
                long n = 0;
                for (auto i = it; i != end; ++i) {
                    ++n;
                }
                log += std::to_string(n);
                break;
            }
            default:
                for (auto ch : sub(it, end)) {
                    log += code(ch) + ",";
                    if (log.size() % 7 == 0) {
                        break;
                    }
                }
        }
    }
    return it;
}
}  // namespace c17
template <typename C>
struct scn::scanner<c17::Walk, C> {
    template <typename P>
    constexpr auto parse(P& p) -> typename P::iterator
    {
        return p.begin();
    }
    template <typename Ctx>
    auto scan(c17::Walk& v, Ctx& ctx) const -> scn::scan_expected<typename Ctx::iterator>
    {
        using It = typename Ctx::iterator;
        auto range = ctx.range();
        return c17::walk<C>(
            range.begin(), range.end(), v.log, [](It a, auto b) { return scn::ranges::subrange{a, b}; },
            [&](It it, std::string& log, int n) {
                ctx.advance_to(it);
                if (!(ctx.begin() == it)) {
                    log += "moved";
                }
                int i = 0;
                std::basic_string<C> w;
                auto r = n % 2 ? scn::scanner<int, C>{}.scan(i, ctx) : scn::scanner<std::basic_string<C>, C>{}.scan(w, ctx);
                if (!r) {
                    log += "e" + std::to_string(static_cast<int>(r.error().code()));
                    return it;
                }
                log += n % 2 ? h::canon(i) : h::canon(w);
                return *r;
            });
    }
};
namespace h {
template <>
struct CanonExt<c17::Walk> {
    static std::string get(const c17::Walk& w) { return w.log; }
};
}  // namespace h
namespace c17 {
template <typename C>
h::Out walk_of(const Plan& p, const std::vector<Op>& ops, bool scanned)
{
    g_walk = &ops;
    auto text = h::enc<C>(p.text);
    std::basic_string_view<C> v(text);
    using S = std::basic_string<C>;
    if (scanned) {
        return p.before ? h::run<Walk, S, Walk>(p.kind, v, lit<C>("{}{}{}"), p.buf) : h::run<Walk, Walk>(p.kind, v, lit<C>("{} {}"), p.buf);
    }
    h::Out o;
    auto b = v.data(), e = b + v.size();
    auto at = b;
    auto one = [&] {
        std::string log;
        at = walk<C>(
            at, e, log, [](const C* x, const C* y) { return std::basic_string_view<C>(x, static_cast<size_t>(y - x)); },
            [&](const C* it, std::string& l, int n) {
                std::basic_string_view<C> rest(it, static_cast<size_t>(e - it));
                auto o2 = n % 2 ? h::run<int>(h::k_view, rest, lit<C>("{}"), 1) : h::run<S>(h::k_view, rest, lit<C>("{}"), 1);
                l += o2.ok ? o2.vals[0] : "e" + std::to_string(o2.code);
                return it + (o2.ok ? o2.consumed : 0);
            });
        o.vals.push_back(log);
    };
    one();
    auto rest = h::run<S>(h::k_view, std::basic_string_view<C>(at, static_cast<size_t>(e - at)), lit<C>("{}"), 1);
    if (p.before) {
        if (!rest.ok) {
            return rest;
        }
        o.vals.push_back(rest.vals[0]);
        at += rest.consumed;
    }
    else {
        auto ws = h::run<>(h::k_view, std::basic_string_view<C>(at, static_cast<size_t>(e - at)), lit<C>(" "), 1);
        at += ws.consumed;
    }
    one();
    o.ok = true;
    o.consumed = at - b;
    return o;
}
}  // namespace c17
