#include "c17.h"
#include <scn/ranges.h>
#include <map>
#include <set>
// Containers: values, texts, and a reader that composes the scans of the elements.
namespace c17 {
namespace {
using S = std::string;
// holds three elements at most
struct Few : std::vector<int> {
    size_t max_size() const { return 3; }
};
template <typename T>
struct is_pair : std::false_type {};
template <typename A, typename B>
struct is_pair<std::pair<A, B>> : std::true_type {};
template <typename T>
struct is_tuple : std::false_type {};
template <typename... A>
struct is_tuple<std::tuple<A...>> : std::true_type {};
template <typename T, typename = void>
struct has_mapped : std::false_type {};
template <typename T>
struct has_mapped<T, std::void_t<typename T::mapped_type>> : std::true_type {};
template <typename T, typename = void>
struct has_key : std::false_type {};
template <typename T>
struct has_key<T, std::void_t<typename T::key_type>> : std::true_type {};
template <typename T>
struct elem_of {
    using type = typename T::value_type;
};
template <typename K, typename V>
struct elem_of<std::map<K, V>> {
    using type = std::pair<K, V>;
};
template <typename T>
constexpr bool leaf = std::is_arithmetic_v<T> || std::is_same_v<T, S>;

template <typename T>
std::string text_of(const T& v)
{
    if constexpr (leaf<T>) {
        return h::canon(v);
    }
    else if constexpr (is_pair<T>::value) {
        return "(" + text_of(v.first) + "," + text_of(v.second) + ")";
    }
    else if constexpr (is_tuple<T>::value) {
        std::string o = "(";
        std::apply([&](auto&... x) { ((o += text_of(x) + ","), ...); }, v);
        return o + ")";
    }
    else {
        std::string o = "[";
        for (auto& x : v) {
            if constexpr (has_mapped<T>::value) {
                o += text_of(x.first) + ":" + text_of(x.second) + ",";
            }
            else {
                o += text_of(x) + ",";
            }
        }
        return o + "]";
    }
}
std::string gap(pbt::Src& s)
{
    return s.pick({"", "", " ", "  ", "\n", "\t "});
}
template <typename T>
T gen_value(pbt::Src& s, std::string& text)
{
    if constexpr (std::is_same_v<T, S>) {
        S w(1, s.pick({'a', 'b', 'Z', '9', ',', '[', '-', '('}));  // not a closing bracket
        for (size_t k = s.len(6, 2, 3); k > 0; --k) {
            w += s.pick({'a', 'b', 'Z', '9', ',', ']', '}', ')', '[', ':', '-', '_'});
        }
        text += w + " ";  // a word ends at whitespace
        return w;
    }
    else if constexpr (std::is_floating_point_v<T>) {
        char b[64];
        T v = static_cast<T>(s.range(-100000, 100000)) / static_cast<T>(s.pick({1, 2, 8, 10, 1000}));
        std::snprintf(b, sizeof b, "%.17g", v);
        text += b;
        return v;
    }
    else if constexpr (std::is_arithmetic_v<T>) {
        auto lo = std::is_signed_v<T> ? -1000 : 0;
        T v = s.chance(1, 8) ? (s.flip() ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min()) : static_cast<T>(s.range(lo, 1000));
        text += std::to_string(v);
        return v;
    }
    else if constexpr (is_pair<T>::value) {
        text += "(" + gap(s);
        auto a = gen_value<typename T::first_type>(s, text);
        text += gap(s) + "," + gap(s);
        auto b = gen_value<typename T::second_type>(s, text);
        text += gap(s) + ")";
        return {a, b};
    }
    else if constexpr (is_tuple<T>::value) {
        T v;
        text += "(";
        bool first = true;
        std::apply(
            [&](auto&... x) {
                (
                    [&] {
                        text += gap(s) + (first ? "" : ",") + gap(s);
                        first = false;
                        x = gen_value<std::decay_t<decltype(x)>>(s, text);
                    }(),
                    ...);
            },
            v);
        text += gap(s) + ")";
        return v;
    }
    else {
        T v;
        bool curly = has_key<T>::value;
        text += gap(s) + (curly ? "{" : "[");
        size_t n = s.len(5, 3, 4);
        for (size_t i = 0; i < n; ++i) {
            text += gap(s);
            if (i) {
                text += "," + gap(s);
            }
            if constexpr (has_mapped<T>::value) {
                auto k = gen_value<typename T::key_type>(s, text);
                text += gap(s) + ":" + gap(s);
                auto m = gen_value<typename T::mapped_type>(s, text);
                v.insert({k, m});
            }
            else if constexpr (has_key<T>::value) {
                v.insert(gen_value<typename T::value_type>(s, text));
            }
            else {
                v.push_back(gen_value<typename T::value_type>(s, text));
            }
        }
        text += gap(s) + (curly ? "}" : "]");
        return v;
    }
}
// the composed reader
struct In {
    std::string_view x;
    std::string fmt;
    size_t p = 0;
    bool ch(char c)
    {
        size_t q = p;
        while (q < x.size() && h::is_ws(static_cast<unsigned char>(x[q])) && static_cast<unsigned char>(x[q]) < 0x80) {
            ++q;
        }
        if (q < x.size() && x[q] == c) {
            p = q + 1;
            return true;
        }
        return false;
    }
};
template <typename T>
bool read(In& in, T& v)
{
    if constexpr (leaf<T>) {
        auto rest = in.x.substr(in.p);
        auto r = scn::scan<T>(rest, h::rt(in.fmt));
        if (!r) {
            return false;
        }
        v = r->value();
        in.p += static_cast<size_t>(std::distance(rest.begin(), r->begin()));
        return true;
    }
    else if constexpr (is_pair<T>::value) {
        return in.ch('(') && read(in, v.first) && in.ch(',') && read(in, v.second) && in.ch(')');
    }
    else if constexpr (is_tuple<T>::value) {
        bool ok = in.ch('('), first = true;
        std::apply(
            [&](auto&... x) {
                (
                    [&] {
                        ok = ok && (first || in.ch(','));
                        first = false;
                        ok = ok && read(in, x);
                    }(),
                    ...);
            },
            v);
        return ok && in.ch(')');
    }
    else {
        bool curly = has_key<T>::value;
        if (!in.ch(curly ? '{' : '[')) {
            return false;
        }
        for (bool first = true;; first = false) {
            if (in.ch(curly ? '}' : ']')) {
                return true;
            }
            if (!first && !in.ch(',')) {
                return false;
            }
            if (v.size() >= v.max_size()) {
                return false;
            }
            if constexpr (has_mapped<T>::value) {
                std::pair<typename T::key_type, typename T::mapped_type> e;
                if (!read(in, e.first) || !in.ch(':') || !read(in, e.second)) {
                    return false;
                }
                v.insert(e);
            }
            else {
                typename T::value_type e{};
                if (!read(in, e)) {
                    return false;
                }
                if constexpr (has_key<T>::value) {
                    v.insert(e);
                }
                else {
                    v.push_back(e);
                }
            }
        }
    }
}
template <typename F>
auto with(int shape, F f)
{
    switch (shape) {
        case 0: return f(std::vector<int>{});
        case 1: return f(std::vector<double>{});
        case 2: return f(std::list<S>{});
        case 3: return f(std::deque<unsigned>{});
        case 4: return f(std::set<int>{});
        case 5: return f(std::set<S>{});
        case 6: return f(std::map<int, double>{});
        case 7: return f(std::tuple<int, double, S>{});
        case 8: return f(std::pair<long long, int>{});
        case 9: return f(std::vector<std::vector<int>>{});
        case 10: return f(std::map<S, int>{});
        case 11: return f(std::vector<std::pair<int, S>>{});
        case 12: return f(std::vector<std::tuple<unsigned, std::set<int>>>{});
        default: return f(Few{});
    }
}
}  // namespace
}  // namespace c17
namespace h {
template <typename T>
struct CanonExt {
    static std::string get(const T& v) { return c17::text_of(v); }
};
}  // namespace h
namespace c17 {
const char* shape_name(int shape)
{
    static const char* a[] = {"vector<int>", "vector<double>", "list<string>", "deque<unsigned>", "set<int>", "set<string>", "map<int,double>", "tuple<int,double,string>", "pair<long long,int>",
                              "vector<vector<int>>", "map<string,int>", "vector<pair<int,string>>", "vector<tuple<unsigned,set<int>>>", "vector<int> of at most 3"};
    return a[shape];
}
void make(pbt::Src& s, int shape, std::string& text, std::string& want)
{
    with(shape, [&](auto v) {
        text = gap(s);
        want = text_of(gen_value<decltype(v)>(s, text));
    });
}
std::string fmt_of(const std::string& spec)
{
    return spec.empty() ? "{}" : "{:" + spec + "}";
}
std::string spec_for(pbt::Src& s, int shape)
{
    switch (shape) {
        case 0: case 4: case 9: return s.pick({"x", "o", "b", "i", "d", "u", "X"});
        case 1: return s.pick({"f", "e", "g", "a"});
        case 2: case 5: return s.pick({"s", ".3", "[a-z]", "[^,]", ".2s", "[^]]"});
        case 3: return s.pick({"x", "o", "b", "i", "u"});
        default: return "";
    }
}
h::Out container(int shape, int kind, const std::string& text, const std::string& spec, size_t buf, bool wide)
{
    if (wide) {
        auto f = fmt_of(spec);
        std::wstring w(text.begin(), text.end()), wf(f.begin(), f.end());
        return with(shape, [&](auto v) { return h::run<decltype(v)>(kind, std::wstring_view(w), wf, buf); });
    }
    return with(shape, [&](auto v) { return h::run<decltype(v)>(kind, std::string_view(text), fmt_of(spec), buf); });
}
h::Out container_model(int shape, const std::string& text, const std::string& spec)
{
    return with(shape, [&](auto v) {
        h::Out o;
        In in{text, fmt_of(spec)};
        o.ok = read(in, v);
        if (o.ok) {
            o.consumed = static_cast<long>(in.p);
            o.vals.push_back(text_of(v));
        }
        return o;
    });
}
}  // namespace c17
