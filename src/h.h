// Helpers shared by the harnesses: UTF conversions, source kinds, outcomes.
#pragma once
#include "pbt.h"

#include <scn/scan.h>
#include <scn/xchar.h>

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <deque>
#include <forward_list>
#include <list>
#include <locale>
#include <memory>
#include <string>
#include <string_view>
#include <tuple>
#include <vector>

namespace h {

using u32s = std::u32string;
using u32v = std::u32string_view;

inline void put_utf8(std::string& o, char32_t c)
{
    if (c < 0x80) {
        o += static_cast<char>(c);
    }
    else if (c < 0x800) {
        o += static_cast<char>(0xc0 | (c >> 6));
        o += static_cast<char>(0x80 | (c & 0x3f));
    }
    else if (c < 0x10000) {
        o += static_cast<char>(0xe0 | (c >> 12));
        o += static_cast<char>(0x80 | ((c >> 6) & 0x3f));
        o += static_cast<char>(0x80 | (c & 0x3f));
    }
    else {
        o += static_cast<char>(0xf0 | (c >> 18));
        o += static_cast<char>(0x80 | ((c >> 12) & 0x3f));
        o += static_cast<char>(0x80 | ((c >> 6) & 0x3f));
        o += static_cast<char>(0x80 | (c & 0x3f));
    }
}
inline std::string utf8(u32v s)
{
    std::string o;
    for (auto c : s) {
        put_utf8(o, c);
    }
    return o;
}
inline std::string utf8(char32_t c) { return utf8(u32v(&c, 1)); }
inline std::wstring wide(u32v s) { return std::wstring(s.begin(), s.end()); }
inline u32s ascii32(std::string_view s) { return u32s(s.begin(), s.end()); }

template <typename CharT>
std::basic_string<CharT> enc(u32v s)
{
    if constexpr (std::is_same_v<CharT, char>) {
        return utf8(s);
    }
    else {
        return wide(s);
    }
}

// Strict UTF-8 validity, written from the Unicode standard's table 3-7.
// Returns the length of the well-formed sequence at `s[i]`, 0 if ill-formed.
inline size_t utf8_seq(std::string_view s, size_t i, char32_t* out = nullptr)
{
    auto at = [&](size_t k) -> unsigned {
        return k < s.size() ? static_cast<unsigned char>(s[k]) : 0u;
    };
    unsigned a = at(i);
    auto in = [&](size_t k, unsigned lo, unsigned hi) {
        return k < s.size() && at(k) >= lo && at(k) <= hi;
    };
    auto set = [&](char32_t c) {
        if (out) {
            *out = c;
        }
    };
    if (a < 0x80) {
        set(a);
        return 1;
    }
    if (a >= 0xc2 && a <= 0xdf) {
        if (!in(i + 1, 0x80, 0xbf)) {
            return 0;
        }
        set(((a & 0x1f) << 6) | (at(i + 1) & 0x3f));
        return 2;
    }
    if (a >= 0xe0 && a <= 0xef) {
        unsigned lo = a == 0xe0 ? 0xa0 : 0x80, hi = a == 0xed ? 0x9f : 0xbf;
        if (!in(i + 1, lo, hi) || !in(i + 2, 0x80, 0xbf)) {
            return 0;
        }
        set(((a & 0xf) << 12) | ((at(i + 1) & 0x3f) << 6) | (at(i + 2) & 0x3f));
        return 3;
    }
    if (a >= 0xf0 && a <= 0xf4) {
        unsigned lo = a == 0xf0 ? 0x90 : 0x80, hi = a == 0xf4 ? 0x8f : 0xbf;
        if (!in(i + 1, lo, hi) || !in(i + 2, 0x80, 0xbf) || !in(i + 3, 0x80, 0xbf)) {
            return 0;
        }
        set(((a & 7) << 18) | ((at(i + 1) & 0x3f) << 12) | ((at(i + 2) & 0x3f) << 6) |
            (at(i + 3) & 0x3f));
        return 4;
    }
    return 0;
}
inline bool valid_utf8(std::string_view s)
{
    for (size_t i = 0; i < s.size();) {
        size_t n = utf8_seq(s, i);
        if (!n) {
            return false;
        }
        i += n;
    }
    return true;
}
inline bool valid_wide(std::wstring_view s)
{
    for (auto c : s) {
        auto u = static_cast<uint32_t>(c);
        if (u > 0x10ffff || (u >= 0xd800 && u <= 0xdfff)) {
            return false;
        }
    }
    return true;
}

// The documented whitespace set.
inline bool is_ws(char32_t c)
{
    return (c >= 9 && c <= 13) || c == ' ' || c == 0x85 || c == 0x200e || c == 0x200f ||
           c == 0x2028 || c == 0x2029;
}
// Display width of a code point (the documented estimate: that of fmt/std::format).
inline int cp_width(char32_t c)
{
    static const struct {
        char32_t lo, hi;
    } tab[] = {{0x1100, 0x115f},   {0x2329, 0x232a},   {0x2e80, 0x303e},   {0x3040, 0xa4cf},
               {0xac00, 0xd7a3},   {0xf900, 0xfaff},   {0xfe10, 0xfe19},   {0xfe30, 0xfe6f},
               {0xff00, 0xff60},   {0xffe0, 0xffe6},   {0x1f300, 0x1f64f}, {0x1f900, 0x1f9ff},
               {0x20000, 0x2fffd}, {0x30000, 0x3fffd}};
    for (auto& t : tab) {
        if (c >= t.lo && c <= t.hi) {
            return 2;
        }
    }
    return 1;
}

///////////////////////////////////////////////////////////////////////////
// Outcomes

struct Out {
    bool ok = false;
    int code = -1;
    long consumed = -1;             // code units; -1 if not known
    std::vector<std::string> vals;  // canonical spellings
};

inline std::string show(const Out& o)
{
    if (!o.ok) {
        return "error " + std::to_string(o.code);
    }
    std::string s = "ok consumed " + std::to_string(o.consumed) + " [";
    for (auto& v : o.vals) {
        s += pbt::show(v) + " ";
    }
    return s + "]";
}

// Harnesses specialize this for further types.
template <typename T>
struct CanonExt;

template <typename T>
std::string canon(const T& v)
{
    char b[80];
    if constexpr (std::is_same_v<T, bool>) {
        // read the object representation: an invalid bool must not be UB here
        unsigned char raw;
        std::memcpy(&raw, &v, 1);
        return raw == 0 ? "false" : raw == 1 ? "true" : "bool:" + std::to_string(raw);
    }
    else if constexpr (std::is_same_v<T, char32_t> || std::is_same_v<T, wchar_t>) {
        std::snprintf(b, sizeof b, "U+%lX", static_cast<unsigned long>(v));
        return b;
    }
    else if constexpr (std::is_same_v<T, char>) {
        std::snprintf(b, sizeof b, "char %d", static_cast<int>(v));
        return b;
    }
    else if constexpr (std::is_integral_v<T>) {
        return std::to_string(v);
    }
    else if constexpr (std::is_floating_point_v<T>) {
        if (std::isnan(v)) {
            return std::signbit(v) ? "-nan" : "nan";
        }
        std::snprintf(b, sizeof b, "%La", static_cast<long double>(v));
        // whatever the C locale's decimal point is
        std::string o;
        for (const char* p = b; *p; ++p) {
            bool word = (*p >= '0' && *p <= '9') || (*p >= 'a' && *p <= 'z') || *p == '-' || *p == '+';
            if (word || o.empty() || o.back() != '.') {
                o += word ? *p : '.';
            }
        }
        return o;
    }
    else if constexpr (std::is_same_v<T, void*> || std::is_same_v<T, const void*>) {
        std::snprintf(b, sizeof b, "p%llx",
                      static_cast<unsigned long long>(reinterpret_cast<uintptr_t>(v)));
        return b;
    }
    else if constexpr (std::is_same_v<T, std::string> || std::is_same_v<T, std::string_view>) {
        return "'" + std::string(v) + "'";
    }
    else if constexpr (std::is_same_v<T, std::wstring> || std::is_same_v<T, std::wstring_view>) {
        std::string o = "'";
        for (wchar_t c : v) {
            auto u = static_cast<uint32_t>(c);
            if (u > 0x10ffff || (u >= 0xd800 && u <= 0xdfff)) {
                std::snprintf(b, sizeof b, "<bad %x>", u);
                o += b;
            }
            else {
                put_utf8(o, u);
            }
        }
        return o + "'";
    }
    else {
        return CanonExt<T>::get(v);
    }
}

template <typename Tuple>
std::vector<std::string> canon_all(const Tuple& t)
{
    std::vector<std::string> v;
    std::apply([&](const auto&... x) { (v.push_back(canon(x)), ...); }, t);
    return v;
}

// the unread part of a scan of a string, as a string
template <typename Res>
auto rest_of(const Res& r)
{
    using C = std::remove_cv_t<std::remove_reference_t<decltype(*r->begin())>>;
    return std::basic_string<C>(r->begin(), r->end());
}

///////////////////////////////////////////////////////////////////////////
// Sources

enum Kind {
    k_view,      // string_view over an exactly sized heap block
    k_string,    // std::basic_string
    k_vector,    // contiguous container
    k_subrange,  // pointer pair
    k_deque,     // random access, not contiguous
    k_list,      // bidirectional
    k_fwd,       // forward
    k_lazy,      // lazily computed view
    k_file,      // FILE* (narrow only)
    k_count
};
inline const char* kind_name(int k)
{
    static const char* n[] = {"view", "string", "vector", "subrange", "deque",
                              "list", "forward_list", "lazy", "file"};
    return n[k];
}
inline bool contiguous(int k) { return k <= k_subrange; }

// A forward view that computes its characters (and has no addressable storage).
template <typename CharT>
class lazy_view {
public:
    class iterator {
    public:
        using value_type = CharT;
        using reference = CharT;
        using pointer = void;
        using difference_type = std::ptrdiff_t;
        using iterator_category = std::forward_iterator_tag;
        iterator() = default;
        iterator(const CharT* b, size_t p) : m_b(b), m_p(p) {}
        CharT operator*() const { return static_cast<CharT>(m_b[m_p] ^ 0x2a); }
        iterator& operator++()
        {
            ++m_p;
            return *this;
        }
        iterator operator++(int)
        {
            auto t = *this;
            ++m_p;
            return t;
        }
        friend bool operator==(const iterator& a, const iterator& b) { return a.m_p == b.m_p; }
        friend bool operator!=(const iterator& a, const iterator& b) { return a.m_p != b.m_p; }
        size_t pos() const { return m_p; }

    private:
        const CharT* m_b{nullptr};
        size_t m_p{0};
    };
    explicit lazy_view(std::basic_string_view<CharT> s)
        : m_s(std::make_shared<std::vector<CharT>>(s.begin(), s.end()))
    {
        for (auto& c : *m_s) {
            c = static_cast<CharT>(c ^ 0x2a);
        }
    }
    iterator begin() const { return {m_s->data(), 0}; }
    iterator end() const { return {m_s->data(), m_s->size()}; }

private:
    std::shared_ptr<std::vector<CharT>> m_s;
};

// A string in a heap block of exactly its size, so a read beyond either end is
// visible to AddressSanitizer.
template <typename CharT>
struct Exact {
    explicit Exact(std::basic_string_view<CharT> s) : n(s.size()), p(new CharT[s.size() ? s.size() : 1])
    {
        std::copy(s.begin(), s.end(), p.get());
    }
    std::basic_string_view<CharT> view() const { return {p.get(), n}; }
    size_t n;
    std::unique_ptr<CharT[]> p;
};

// A read-only FILE over a string, with a stdio buffer of the given size.
class MemFile {
public:
    MemFile(std::string_view s, size_t bufsize) : m_text(s), m_buf(bufsize ? bufsize : 1)
    {
        m_f = m_text.empty() ? std::fopen("/dev/null", "r")
                             : ::fmemopen(m_text.data(), m_text.size(), "r");
        if (!m_f) {
            std::perror("fmemopen");
            std::abort();
        }
        if (bufsize) {
            std::setvbuf(m_f, m_buf.data(), _IOFBF, bufsize);
        }
    }
    MemFile(const MemFile&) = delete;
    ~MemFile() { std::fclose(m_f); }
    FILE* get() { return m_f; }

private:
    std::string m_text;
    std::vector<char> m_buf;
    FILE* m_f;
};

template <typename Res, typename It>
void fill_out(Out& o, const Res& r, It begin)
{
    if (!r) {
        o.code = static_cast<int>(r.error().code());
        return;
    }
    o.ok = true;
    o.consumed = static_cast<long>(std::distance(begin, r->begin()));
    o.vals = canon_all(r->values());
}

template <typename CharT>
auto rt(std::basic_string_view<CharT> f)
{
    return scn::runtime_format(f);
}
template <typename CharT>
auto rt(const std::basic_string<CharT>& f)
{
    return scn::runtime_format(std::basic_string_view<CharT>(f));
}

// Some harnesses scan with a locale passed.
#ifdef H_LOCALE
inline const std::locale* run_locale = nullptr;
#endif
#ifdef H_ROUTE
// The public entry points that can do the same scan.
enum Route { r_scan, r_value, r_initial, r_value_initial, r_vscan, r_locale, r_locale_initial, r_vscan_locale, r_vscan_value, r_input, r_prompt, r_discard, r_count };
inline const char* route_name(int r)
{
    static const char* a[] = {"scan", "scan_value", "scan with initial values", "scan_value with an initial value", "vscan", "scan with a locale", "scan with a locale and initial values",
                              "vscan with a locale", "vscan_value", "input", "prompt", "scan into discard"};
    return a[r];
}
inline int run_route = r_scan;
template <typename T>
struct is_discard : std::false_type {};
template <typename T>
struct is_discard<scn::discard<T>> : std::true_type {};
template <typename T>
struct CanonExt<scn::discard<T>> {
    static std::string get(const scn::discard<T>&) { return "discarded"; }
};
inline const std::locale* route_locale = nullptr;
inline std::string route_prompt;
template <typename T>
T initial()
{
    if constexpr (std::is_same_v<T, std::string> || std::is_same_v<T, std::string_view>) {
        return "initial value, longer than the small string buffer";
    }
    else if constexpr (std::is_same_v<T, std::wstring> || std::is_same_v<T, std::wstring_view>) {
        return L"initial value, longer than the small string buffer";
    }
    else if constexpr (std::is_pointer_v<T>) {
        return reinterpret_cast<T>(8);
    }
    else if constexpr (std::is_arithmetic_v<T>) {
        return T(1);
    }
    else {
        return T{};
    }
}
template <typename... Ts, typename S, typename CharT>
auto do_route(S&& src, std::basic_string_view<CharT> fmt) -> scn::scan_result_type<S, Ts...>
{
    using ctx = std::conditional_t<std::is_same_v<CharT, char>, scn::scan_context, scn::wscan_context>;
    std::tuple<Ts...> init{initial<Ts>()...};
    switch (run_route) {
        case r_initial: return scn::scan<Ts...>(std::forward<S>(src), rt(fmt), std::move(init));
        case r_vscan: {
            auto res = scn::make_scan_result<S, Ts...>();
            scn::fill_scan_result(res, scn::vscan(std::forward<S>(src), fmt, scn::make_scan_args<ctx>(res->values())));
            return res;
        }
        case r_locale: return scn::scan<Ts...>(*route_locale, std::forward<S>(src), rt(fmt));
        case r_locale_initial: return scn::scan<Ts...>(*route_locale, std::forward<S>(src), rt(fmt), std::move(init));
        case r_vscan_locale: {
            auto res = scn::make_scan_result<S>(std::move(init));
            scn::fill_scan_result(res, scn::vscan(*route_locale, std::forward<S>(src), fmt, scn::make_scan_args<ctx>(res->values())));
            return res;
        }
        default: break;
    }
    if constexpr (sizeof...(Ts) == 1) {
        using T = std::tuple_element_t<0, std::tuple<Ts...>>;
        switch (run_route) {
            case r_value: return scn::scan_value<T>(std::forward<S>(src));
            case r_value_initial: return scn::scan_value<T>(std::forward<S>(src), initial<T>());
            case r_vscan_value: {
                auto res = scn::make_scan_result<S, T>();
                scn::fill_scan_result(res, scn::vscan_value(std::forward<S>(src), scn::detail::make_arg<ctx>(res->value())));
                return res;
            }
            default: break;
        }
    }
    if constexpr (std::is_same_v<std::decay_t<S>, FILE*> && std::is_same_v<CharT, char>) {
        struct Redirect {
            explicit Redirect(FILE* f) : old(stdin) { stdin = f; }
            ~Redirect() { stdin = old; }
            FILE* old;
        } redirect(src);
        if (run_route == r_input) {
            return scn::input<Ts...>(rt(fmt));
        }
        if (run_route == r_prompt) {
            return scn::prompt<Ts...>(route_prompt.c_str(), rt(fmt));
        }
    }
    std::abort();
}
#endif
template <typename... Ts, typename S, typename CharT>
auto do_scan(S&& src, const std::basic_string<CharT>& format)
{
    // the format, too, in a block of exactly its size
    Exact<CharT> exact(format);
    auto fmt = exact.view();
#ifdef H_ROUTE
    if (run_route != r_scan && run_route != r_discard) {
        return do_route<Ts...>(std::forward<S>(src), fmt);
    }
#endif
#ifdef H_LOCALE
    if (run_locale) {
        return scn::scan<Ts...>(*run_locale, std::forward<S>(src), rt(fmt));
    }
#endif
    return scn::scan<Ts...>(std::forward<S>(src), rt(fmt));
}

// Scans `text` with `fmt` into Ts... from a source of the given kind.
template <typename... Ts, typename CharT>
Out run(int kind, std::basic_string_view<CharT> text, const std::basic_string<CharT>& fmt,
        size_t bufsize = 0)
{
    Out o;
#ifdef H_ROUTE
    if constexpr (sizeof...(Ts) != 0 && !(is_discard<Ts>::value || ...)) {
        if (run_route == r_discard) {
            return run<scn::discard<Ts>...>(kind, text, fmt, bufsize);
        }
    }
#endif
    switch (kind) {
        case k_view: {
            Exact<CharT> e(text);
            auto sv = e.view();
            auto r = do_scan<Ts...>(sv, fmt);
            fill_out(o, r, sv.begin());
            break;
        }
        case k_string: {
            std::basic_string<CharT> s(text);
            auto r = do_scan<Ts...>(s, fmt);
            fill_out(o, r, s.begin());
            break;
        }
        case k_vector: {
            std::vector<CharT> s(text.begin(), text.end());
            auto r = do_scan<Ts...>(s, fmt);
            fill_out(o, r, s.begin());
            break;
        }
        case k_subrange: {
            Exact<CharT> e(text);
            auto sr = scn::ranges::subrange<const CharT*>{e.p.get(), e.p.get() + e.n};
            auto r = do_scan<Ts...>(sr, fmt);
            fill_out(o, r, sr.begin());
            break;
        }
        case k_deque: {
            std::deque<CharT> s(text.begin(), text.end());
            auto r = do_scan<Ts...>(s, fmt);
            fill_out(o, r, s.begin());
            break;
        }
        case k_list: {
            std::list<CharT> s(text.begin(), text.end());
            auto r = do_scan<Ts...>(s, fmt);
            fill_out(o, r, s.begin());
            break;
        }
        case k_fwd: {
            std::forward_list<CharT> s(text.begin(), text.end());
            auto r = do_scan<Ts...>(s, fmt);
            fill_out(o, r, s.begin());
            break;
        }
        case k_lazy: {
            lazy_view<CharT> s(text);
            auto r = do_scan<Ts...>(s, fmt);
            fill_out(o, r, s.begin());
            break;
        }
        case k_file: {
            if constexpr (std::is_same_v<CharT, char>) {
                MemFile f(text, bufsize);
                auto r = do_scan<Ts...>(f.get(), fmt);
                if (!r) {
                    o.code = static_cast<int>(r.error().code());
                }
                else {
                    o.ok = true;
                    o.consumed = std::ftell(f.get());
                    o.vals = canon_all(r->values());
                }
            }
            else {
                std::abort();
            }
            break;
        }
    }
    return o;
}

}  // namespace h
