#include "gen.h"
// C05: argument lists of every length near the library's storage limits, of one type, of several, and with a user's own.
struct Own {
    long v{};
};
namespace h {
static std::string canon(const Own& o) { return "own" + std::to_string(o.v); }
}  // namespace h
template <>
struct scn::scanner<Own, char> : scn::scanner<long, char> {
    template <typename Context>
    auto scan(Own& o, Context& ctx) const
    {
        return scn::scanner<long, char>::scan(o.v, ctx);
    }
};
namespace {
using namespace pbt;

template <int Mix, size_t I>
auto pick()
{
    if constexpr (Mix == 0) {
        return long{};
    }
    else {
        constexpr size_t k = (I * 7 + I / 5) % 5;
        if constexpr (k == 0) {
            return long{};
        }
        else if constexpr (k == 1) {
            return std::string{};
        }
        else if constexpr (k == 2) {
            return static_cast<unsigned short>(0);
        }
        else if constexpr (k == 3) {
            return double{};
        }
        else if constexpr (Mix == 1) {
            return bool{};
        }
        else {
            return Own{};
        }
    }
}
template <typename T>
std::string some(Src& s, std::string& want)
{
    if constexpr (std::is_same_v<T, std::string>) {
        std::string w(1 + s.draw(4), static_cast<char>('a' + s.draw(26)));
        want = h::canon(w);
        return w;
    }
    else if constexpr (std::is_same_v<T, bool>) {
        bool b = s.flip();
        want = h::canon(b);
        return b ? "true" : "false";
    }
    else if constexpr (std::is_same_v<T, double>) {
        double d = static_cast<double>(s.range(-400, 400)) / 4;
        want = h::canon(d);
        return std::to_string(d);
    }
    else if constexpr (std::is_same_v<T, Own>) {
        long v = static_cast<long>(s.range(-1000, 1000));
        want = h::canon(Own{v});
        return std::to_string(v);
    }
    else {
        T v = static_cast<T>(s.range(std::is_signed_v<T> ? -1000 : 0, 1000));
        want = h::canon(v);
        return std::to_string(v);
    }
}
template <typename Source, typename... Ts>
h::Out go(const Source& src, const std::string& fmt)
{
    h::Out o;
    auto r = scn::scan<Ts...>(src, h::rt(fmt));
    o.ok = r.has_value();
    if (!r) {
        o.code = static_cast<int>(r.error().code());
        return o;
    }
    o.consumed = static_cast<long>(std::distance(src.begin(), r->begin()));
    std::apply([&](auto&... v) { (o.vals.push_back(h::canon(v)), ...); }, r->values());
    return o;
}

// the type-erased arguments are the values themselves, in their order, and there are no others
template <typename Context, typename... Ts>
void erased(Src& s)
{
    std::tuple<Ts...> t;
    auto store = scn::make_scan_args<Context>(t);
    scn::basic_scan_args<Context> a(store);
    if (a.size() != sizeof...(Ts)) {
        fail("scan_args::size() is " + std::to_string(a.size()));
    }
    size_t i = 0;
    auto one = [&](auto& v) {
        using T = std::decay_t<decltype(v)>;
        auto arg = a.get(i++);
        if (!arg) {
            fail("no argument " + std::to_string(i - 1));
        }
        bool right = arg.visit([&](auto&& x) {
            using X = std::decay_t<decltype(x)>;
            if constexpr (std::is_same_v<X, T>) {
                return &x == &v;
            }
            else {
                return std::is_same_v<T, Own> && std::is_same_v<X, typename scn::basic_scan_arg<Context>::handle>;
            }
        });
        if (!right) {
            fail("argument " + std::to_string(i - 1) + " is not its value");
        }
    };
    std::apply([&](auto&... v) { (one(v), ...); }, t);
    for (size_t id : {i, i + 1, i + s.draw(40), static_cast<size_t>(s.range(80, 1 << 20)), ~size_t{0}, size_t{1} << 62, (size_t{1} << 32) + s.draw(12)}) {
        auto arg = a.get(id);
        if (arg) {
            fail("there is an argument " + std::to_string(id));
        }
        if (!arg.visit([](auto&& x) { return std::is_same_v<std::decay_t<decltype(x)>, scn::monostate>; })) {
            fail("argument " + std::to_string(id) + " is visited as a value");
        }
    }
}
template <int Mix, size_t... I>
void list(std::index_sequence<I...>, Src& s, Ctx& c)
{
    constexpr size_t N = sizeof...(I);
    erased<scn::scan_context, decltype(pick<Mix, I>())...>(s);
    if constexpr (Mix != 2) {
        erased<scn::wscan_context, decltype(pick<Mix, I>())...>(s);
    }
    bool ids = s.flip();
    // a permutation of the ids
    std::vector<size_t> id(N);
    for (size_t i = 0; i < N; ++i) {
        id[i] = i;
    }
    if (ids && s.chance(3, 4)) {
        for (size_t i = N; i > 1; --i) {
            std::swap(id[i - 1], id[s.draw(i)]);
        }
    }
    std::vector<std::string> exp(N), field(N);
    ((field[I] = some<decltype(pick<Mix, I>())>(s, exp[I])), ...);
    std::string text, fmt;
    for (size_t i = 0; i < N; ++i) {
        text += field[id[i]] + (s.chance(1, 8) ? "\n" : " ");
        fmt += ids ? "{" + std::to_string(id[i]) + "}" : "{}";
        if (s.chance(1, 3)) {
            fmt += " ";
        }
    }
    text += "rest";
    if (fmt.back() == ' ') {
        fmt.pop_back();
    }
    bool seq = s.chance(1, 4);
    c.desc([&] { return std::to_string(N) + " fields, kind " + std::to_string(Mix) + ", format " + pbt::show(fmt) + " text " + pbt::show(text); });
    c.nontrivial(hash_str(text) ^ hash_str(fmt));
    h::Out o;
    if (seq) {
        std::deque<char> d(text.begin(), text.end());
        o = go<std::deque<char>, decltype(pick<Mix, I>())...>(d, fmt);
    }
    else {
        o = go<std::string_view, decltype(pick<Mix, I>())...>(text, fmt);
    }
    if (!o.ok || o.vals != exp || o.consumed != static_cast<long>(text.size() - 5)) {
        fail("wrong values: " + h::show(o));
    }
}
template <size_t N>
void len(Src& s, Ctx& c)
{
    switch (s.draw(3)) {
        case 0: return list<0>(std::make_index_sequence<N>{}, s, c);
        case 1: return list<1>(std::make_index_sequence<N>{}, s, c);
        default: return list<2>(std::make_index_sequence<N>{}, s, c);
    }
}
using Fn = void (*)(Src&, Ctx&);
template <size_t... I>
Fn low(size_t k, std::index_sequence<I...>)
{
    static const Fn f[] = {len<I + 1>...};
    return f[k];
}
}  // namespace

void many(Src& s, Ctx& c)
{
    size_t k = s.draw(24);
    if (k < 18) {
        return low(k, std::make_index_sequence<18>{})(s, c);
    }
    switch (k) {
        case 18: return list<0>(std::make_index_sequence<31>{}, s, c);
        case 19: return list<2>(std::make_index_sequence<32>{}, s, c);
        case 20: return list<0>(std::make_index_sequence<64>{}, s, c);
        case 21: return list<1>(std::make_index_sequence<65>{}, s, c);
        default: return list<0>(std::make_index_sequence<80>{}, s, c);
    }
}
