#include "rob.h"
#include <scn/chrono.h>
#include <scn/istream.h>
#include <scn/ranges.h>
#include <scn/regex.h>
#include <istream>
#include <map>
#include <optional>
#include <set>
namespace rob {
struct Streamed {
    std::string s;
    int a = 0;
    template <typename CharT>
    friend std::basic_istream<CharT>& operator>>(std::basic_istream<CharT>& is, Streamed& v)
    {
        is >> v.a;
        auto c = is.get();
        if (is && c != ';') {
            is.unget();
        }
        else if (is) {
            is >> v.a;
        }
        return is;
    }
};
struct Custom {
    int a = 0;
    std::string b;
};
template <typename T>
void touch(std::string& o, const T& v);
template <typename A, typename B>
void touch(std::string& o, const std::pair<A, B>& v)
{
    touch(o, v.first);
    touch(o, v.second);
}
template <typename T>
void touch(std::string& o, const T& v)
{
    if constexpr (std::is_arithmetic_v<T>) {
        o += h::canon(v);
    }
    else if constexpr (std::is_same_v<T, std::string>) {
        o += h::canon(v);
    }
    else {
        for (auto& x : v) {
            touch(o, x);
            o += ' ';
        }
    }
}
}  // namespace rob
template <typename CharT>
struct scn::scanner<rob::Streamed, CharT> : scn::basic_istream_scanner<CharT> {};
template <typename CharT>
struct scn::scanner<rob::Custom, CharT> {
    template <typename P>
    constexpr auto parse(P& p)
    {
        auto it = p.begin();
        while (it != p.end() && *it != CharT{'}'}) {
            ++it;
        }
        return it;
    }
    template <typename Ctx>
    auto scan(rob::Custom& v, Ctx& ctx) const -> scn::scan_expected<typename Ctx::iterator>
    {
        if constexpr (std::is_same_v<CharT, char>) {
            auto r = scn::scan<int, std::string>(ctx.range(), "{} {}");
            if (!r) {
                return scn::unexpected(r.error());
            }
            std::tie(v.a, v.b) = r->values();
            return r->begin();
        }
        else {
            auto r = scn::scan<int, std::string>(ctx.range(), L"{} {}");
            if (!r) {
                return scn::unexpected(r.error());
            }
            std::tie(v.a, v.b) = r->values();
            return r->begin();
        }
    }
};
namespace h {
template <typename T>
struct CanonExt {
    static std::string get(const T& v)
    {
        if constexpr (std::is_base_of_v<std::tm, T>) {
            return std::to_string(v.tm_sec + v.tm_min + v.tm_hour + v.tm_mday + v.tm_mon + v.tm_year + v.tm_wday + v.tm_yday);
        }
        else if constexpr (std::is_same_v<T, scn::datetime_components>) {
            return std::to_string(v.sec.value_or(0) + v.min.value_or(0) + v.hour.value_or(0) + v.year.value_or(0)) +
                   std::to_string(v.subsec.value_or(0)) + v.tz_name.value_or("");
        }
        else if constexpr (std::is_same_v<T, rob::Streamed>) {
            return std::to_string(v.a);
        }
        else if constexpr (std::is_same_v<T, rob::Custom>) {
            return std::to_string(v.a) + v.b;
        }
        else if constexpr (std::is_same_v<T, scn::year_month_day>) {
            return std::to_string(static_cast<int>(v.year())) + std::to_string(static_cast<unsigned>(v.month())) +
                   std::to_string(static_cast<unsigned>(v.day()));
        }
        else if constexpr (std::is_same_v<T, scn::weekday>) {
            return std::to_string(v.c_encoding());
        }
        else if constexpr (std::is_same_v<T, scn::regex_matches> || std::is_same_v<T, scn::wregex_matches>) {
            std::string o;
            for (auto& m : v) {
                if (m) {
                    o += canon(m->get());
                }
                o += ";";
            }
            return o;
        }
        else if constexpr (scn::ranges::range<T>) {
            std::string o;
            rob::touch(o, v);
            return o;
        }
        else if constexpr (std::is_class_v<T>) {
            return "t";
        }
        else {
            return "";
        }
    }
};
}  // namespace h
namespace rob {
template <typename CharT>
h::Out go(int x, int kind, std::basic_string_view<CharT> v, const std::basic_string<CharT>& f, size_t buf)
{
    switch (x) {
        case x_tm: return h::run<std::tm>(kind, v, f, buf);
        case x_tmz: return h::run<scn::tm_with_tz>(kind, v, f, buf);
        case x_dtc: return h::run<scn::datetime_components>(kind, v, f, buf);
        case x_tp: return h::run<std::chrono::time_point<std::chrono::system_clock, std::chrono::nanoseconds>>(kind, v, f, buf);
        case x_ymd: return h::run<scn::year_month_day>(kind, v, f, buf);
        case x_wd: return h::run<scn::weekday>(kind, v, f, buf);
        case x_regex: {
            h::Out o;
            h::Exact<CharT> e(v);
            auto sv = e.view();
            auto r = h::do_scan<std::conditional_t<std::is_same_v<CharT, char>, scn::regex_matches, scn::wregex_matches>>(sv, f);
            h::fill_out(o, r, sv.begin());
            return o;
        }
        case x_discard: return h::run<scn::discard<int>, scn::discard<std::basic_string<CharT>>>(kind, v, f, buf);
        case x_istream: return h::run<Streamed>(kind, v, f, buf);
        case x_custom: return h::run<Custom, Custom>(kind, v, f, buf);
        default: break;
    }
    if constexpr (std::is_same_v<CharT, char>) {
        switch (x) {
            case x_vec: return h::run<std::vector<int>>(kind, v, f, buf);
            case x_vecstr: return h::run<std::vector<std::string>>(kind, v, f, buf);
            case x_map: return h::run<std::map<int, double>>(kind, v, f, buf);
            case x_set: return h::run<std::set<unsigned>>(kind, v, f, buf);
            case x_tuple: return h::run<std::tuple<int, std::string>>(kind, v, f, buf);
            case x_nest: return h::run<std::vector<std::vector<std::pair<int, int>>>>(kind, v, f, buf);
            default: break;
        }
    }
    std::abort();
}
}  // namespace rob
