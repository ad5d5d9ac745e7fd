// One build of the library for C21, with whatever options it was compiled with.
#include "c21.h"
#include <scn/scan.h>
#include <scn/xchar.h>
#include <scn/ranges.h>
#if !SCN_DISABLE_REGEX
#include <scn/regex.h>
#endif
#if !SCN_DISABLE_CHRONO
#include <scn/chrono.h>
#endif
#if !SCN_DISABLE_IOSTREAM
#include <scn/istream.h>
#include <istream>
#endif
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <deque>
#include <map>
#include <string>
#include <tuple>
#include <vector>
namespace {
struct Custom {
    int a = 0;
    bool spec = false;
};
struct Streamed {
    int a = 0;
#if !SCN_DISABLE_IOSTREAM
    template <typename CharT>
    friend std::basic_istream<CharT>& operator>>(std::basic_istream<CharT>& is, Streamed& v)
    {
        return is >> v.a;
    }
#endif
};
}  // namespace
template <typename CharT>
struct scn::scanner<Custom, CharT> : scn::scanner<int, CharT> {
    bool spec = false;
    template <typename P>
    constexpr auto parse(P& p) -> typename P::iterator
    {
        auto it = p.begin();
        if (it != p.end() && *it == CharT{'!'}) {
            spec = true;
            ++it;
        }
        if (it != p.end() && *it != CharT{'}'}) {
            p.on_error("only ! is known");
        }
        return it;
    }
    template <typename C>
    auto scan(Custom& v, C& ctx) const -> scn::scan_expected<typename C::iterator>
    {
        v.spec = spec;
        return scn::scanner<int, CharT>::scan(v.a, ctx);
    }
};
#if !SCN_DISABLE_IOSTREAM
template <typename CharT>
struct scn::scanner<Streamed, CharT> : scn::basic_istream_scanner<CharT> {};
#endif
namespace {
thread_local std::string out;
void put(const char* s) { out += s; }
void put_num(long long v) { out += std::to_string(v) + " "; }
void put_num(unsigned long long v) { out += std::to_string(v) + " "; }
void put_float(long double v)
{
    char b[80];
    if (std::isnan(v)) {
        std::snprintf(b, sizeof b, "%snan ", std::signbit(v) ? "-" : "");
    }
    else {
        std::snprintf(b, sizeof b, "%La ", v);
    }
    put(b);
}
template <typename CharT>
void put_str(std::basic_string_view<CharT> s)
{
    put("'");
    for (auto c : s) {
        char b[20];
        std::snprintf(b, sizeof b, "%lx.", static_cast<unsigned long>(static_cast<std::make_unsigned_t<CharT>>(c)));
        put(b);
    }
    put("' ");
}
template <typename T>
void put_val(const T& v)
{
    if constexpr (std::is_floating_point_v<T>) {
        put_float(v);
    }
    else if constexpr (std::is_pointer_v<T>) {
        put_num(static_cast<unsigned long long>(reinterpret_cast<std::uintptr_t>(v)));
    }
    else if constexpr (std::is_same_v<T, char>) {
        put_num(static_cast<long long>(static_cast<signed char>(v)));
    }
    else if constexpr (std::is_integral_v<T>) {
        if constexpr (std::is_signed_v<T>) {
            put_num(static_cast<long long>(v));
        }
        else {
            put_num(static_cast<unsigned long long>(v));
        }
    }
    else if constexpr (std::is_same_v<T, std::string> || std::is_same_v<T, std::string_view>) {
        put_str(std::string_view(v));
    }
    else if constexpr (std::is_same_v<T, std::wstring> || std::is_same_v<T, std::wstring_view>) {
        put_str(std::wstring_view(v));
    }
    else if constexpr (std::is_same_v<T, Custom>) {
        put_num(static_cast<long long>(v.a));
        put(v.spec ? "!" : "");
    }
    else if constexpr (std::is_same_v<T, Streamed>) {
        put_num(static_cast<long long>(v.a));
    }
#if !SCN_DISABLE_CHRONO
    else if constexpr (std::is_same_v<T, std::tm>) {
        for (int f : {v.tm_year, v.tm_mon, v.tm_mday, v.tm_hour, v.tm_min, v.tm_sec, v.tm_wday, v.tm_yday}) {
            put_num(static_cast<long long>(f));
        }
    }
    else if constexpr (std::is_same_v<T, scn::datetime_components>) {
        auto p = [](const auto& o) {
            if (o) {
                put_num(static_cast<long long>(*o));
            }
            else {
                put("- ");
            }
        };
        p(v.year);
        p(v.mday);
        p(v.hour);
        p(v.min);
        p(v.sec);
        if (v.mon) {
            put_num(static_cast<long long>(static_cast<unsigned>(*v.mon)));
        }
        if (v.wday) {
            put_num(static_cast<long long>(v.wday->c_encoding()));
        }
        if (v.subsec) {
            put_float(*v.subsec);
        }
        if (v.tz_offset) {
            put_num(static_cast<long long>(v.tz_offset->count()));
        }
        if (v.tz_name) {
            put_str(std::string_view(*v.tz_name));
        }
    }
#endif
#if !SCN_DISABLE_REGEX
    else if constexpr (std::is_same_v<T, scn::regex_matches> || std::is_same_v<T, scn::wregex_matches>) {
        for (auto& m : v) {
            if (m) {
                put_str(m->get());
            }
            else {
                put("- ");
            }
        }
    }
#endif
    else if constexpr (std::is_same_v<T, std::vector<int>>) {
        for (int i : v) {
            put_num(static_cast<long long>(i));
        }
    }
    else if constexpr (std::is_same_v<T, std::map<int, int>>) {
        for (auto& i : v) {
            put_num(static_cast<long long>(i.first));
            put_num(static_cast<long long>(i.second));
        }
    }
    else {
        put("discarded ");
    }
}
void put_err(const scn::scan_error& e) { out = "error " + std::to_string(static_cast<int>(e.code())); }

template <typename... Ts, typename CharT>
void scan_as(const c21::In& in, std::basic_string_view<CharT> text, std::basic_string_view<CharT> fmt)
{
    auto done = [&](auto&& first, auto begin) {
        using R = std::remove_reference_t<decltype(first)>;
        // hand the result over: assigned to an error, or an error to it
        R r = std::move(first);
        R other = scn::unexpected(scn::scan_error{scn::scan_error::invalid_fill, "an error"});
        if (r) {
            other = std::move(r);
            R third = std::move(other);
            r = std::move(third);
        }
        else {
            other = std::move(r);
            r = std::move(other);
        }
        if (!r) {
            return put_err(r.error());
        }
        if constexpr (!std::is_same_v<decltype(begin), std::FILE*>) {
            put("consumed ");
            put_num(static_cast<long long>(std::distance(begin, r->begin())));
        }
        std::apply([](auto&... v) { (put_val(v), ...); }, r->values());
    };
    constexpr bool borrows = ((std::is_same_v<Ts, std::basic_string_view<CharT>>) || ...);
    if (in.kind == c21::k_view || borrows) {
        done(scn::scan<Ts...>(text, scn::runtime_format(fmt)), text.begin());
    }
    else if constexpr (!borrows) {
        if (in.kind == c21::k_deque || std::is_same_v<CharT, wchar_t>) {
            std::deque<CharT> d(text.begin(), text.end());
            done(scn::scan<Ts...>(d, scn::runtime_format(fmt)), d.begin());
        }
        else if constexpr (std::is_same_v<CharT, char>) {
            std::string t(text);
            std::FILE* f = t.empty() ? std::fopen("/dev/null", "r") : ::fmemopen(t.data(), t.size(), "r");
            if (!f) {
                put("unsupported");
                return;
            }
            char buf[8];
            std::setvbuf(f, buf, _IOFBF, sizeof buf);
            done(scn::scan<Ts...>(f, scn::runtime_format(fmt)), f);
            put(" at ");
            put_num(static_cast<long long>(std::ftell(f)));
            std::fclose(f);
        }
    }
}
template <typename CharT>
void run(const c21::In& in)
{
    using S = std::basic_string<CharT>;
    using V = std::basic_string_view<CharT>;
    constexpr bool wide = std::is_same_v<CharT, wchar_t>;
    V text(static_cast<const CharT*>(in.text), in.text_n), fmt(static_cast<const CharT*>(in.fmt), in.fmt_n);
#define CASE(n, T) \
    case n: return scan_as<T>(in, text, fmt)
    switch (in.ty) {
#if !SCN_DISABLE_TYPE_SCHAR
        CASE(0, signed char);
#endif
#if !SCN_DISABLE_TYPE_SHORT
        CASE(1, short);
#endif
        CASE(2, int);
        CASE(3, long);
#if !SCN_DISABLE_TYPE_LONG_LONG
        CASE(4, long long);
#endif
        CASE(5, unsigned char);
#if !SCN_DISABLE_TYPE_USHORT
        CASE(6, unsigned short);
#endif
        CASE(7, unsigned);
#if !SCN_DISABLE_TYPE_ULONG
        CASE(8, unsigned long);
#endif
        CASE(9, unsigned long long);
#if !SCN_DISABLE_TYPE_FLOAT
        CASE(10, float);
#endif
#if !SCN_DISABLE_TYPE_DOUBLE
        CASE(11, double);
#endif
#if !SCN_DISABLE_TYPE_LONG_DOUBLE
        CASE(12, long double);
#endif
#if !SCN_DISABLE_TYPE_STRING
        CASE(13, S);
#endif
#if !SCN_DISABLE_TYPE_BOOL
        CASE(14, bool);
#endif
#if !SCN_DISABLE_TYPE_CHAR
        CASE(15, CharT);
        CASE(16, wchar_t);
#endif
#if !SCN_DISABLE_TYPE_CHAR32
        CASE(17, char32_t);
#endif
#if !SCN_DISABLE_TYPE_POINTER
        CASE(18, void*);
#endif
#if !SCN_DISABLE_TYPE_STRING
        case 19:
            if constexpr (wide) {
                return scan_as<std::string>(in, text, fmt);
            }
            else {
                return scan_as<std::wstring>(in, text, fmt);
            }
#endif
#if !SCN_DISABLE_TYPE_STRING_VIEW
        CASE(20, V);
#endif
#if !SCN_DISABLE_TYPE_STRING
        case c21::x_pair: return scan_as<int, S>(in, text, fmt);
#endif
#if !SCN_DISABLE_TYPE_DOUBLE
        case c21::x_triple: return scan_as<double, CharT, unsigned long>(in, text, fmt);
#endif
#if !SCN_DISABLE_TYPE_STRING
        case c21::x_discard: return scan_as<scn::discard<int>, S>(in, text, fmt);
#endif
#if !SCN_DISABLE_TYPE_CUSTOM
        CASE(c21::x_custom, Custom);
#endif
        case c21::x_scan_int:
            if constexpr (!wide) {
                long v = 0;
                if (auto r = scn::scan_int<long>(text, in.base)) {
                    put("consumed ");
                    put_num(static_cast<long long>(std::distance(text.begin(), r->begin())));
                    v = r->value();
                    put_num(static_cast<long long>(v));
                }
                else {
                    put_err(r.error());
                }
                return;
            }
            break;
#if !SCN_DISABLE_CHRONO
        CASE(c21::x_tm, std::tm);
        CASE(c21::x_dtc, scn::datetime_components);
#endif
#if !SCN_DISABLE_REGEX
        case c21::x_regex:
            if (in.kind == c21::k_view) {
                if constexpr (wide) {
                    return scan_as<scn::wregex_matches>(in, text, fmt);
                }
                else {
                    return scan_as<scn::regex_matches>(in, text, fmt);
                }
            }
            break;
#endif
        case c21::x_vector: return scan_as<std::vector<int>>(in, text, fmt);
        case c21::x_map: {
            using M = std::map<int, int>;
            return scan_as<M>(in, text, fmt);
        }
#if !SCN_DISABLE_IOSTREAM
        CASE(c21::x_istream, Streamed);
#endif
        default: break;
    }
    put("unsupported");
}
}  // namespace
extern "C" __attribute__((visibility("default"))) const char* c21_run(const c21::In* in)
{
    out.clear();
    if (in->wide) {
        run<wchar_t>(*in);
    }
    else {
        run<char>(*in);
    }
    return out.c_str();
}
