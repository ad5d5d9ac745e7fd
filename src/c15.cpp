#include "gen.h"

#include <scn/chrono.h>

#include <array>
#include <cstdlib>
#include <ctime>
#include <iomanip>
#include <optional>
#include <sstream>
// C15: dates and times.
const char* const pbt::property_id = "C15";

namespace {
using namespace pbt;
using h::u32s;
using std::chrono::system_clock;
template <typename D>
using tp = std::chrono::time_point<system_clock, D>;
using tp_s = tp<std::chrono::seconds>;
using tp_ms = tp<std::chrono::milliseconds>;
using tp_ns = tp<std::chrono::nanoseconds>;
using tp_min = tp<std::chrono::minutes>;

std::string n(long long v) { return std::to_string(v); }
}  // namespace

namespace h {
inline std::string tm_text(const std::tm& t)
{
    return "s" + n(t.tm_sec) + " m" + n(t.tm_min) + " h" + n(t.tm_hour) + " d" + n(t.tm_mday) + " mon" + n(t.tm_mon) +
           " y" + n(t.tm_year) + " wd" + n(t.tm_wday) + " yd" + n(t.tm_yday) + " off" + n(t.tm_gmtoff);
}
template <>
struct CanonExt<std::tm> {
    static std::string get(const std::tm& t) { return tm_text(t); }
};
template <>
struct CanonExt<scn::tm_with_tz> {
    static std::string get(const scn::tm_with_tz& t)
    {
        return tm_text(t) + (t.tz_offset ? " tzo" + n(t.tz_offset->count()) : "") + (t.tz_name ? " tzn" + *t.tz_name : "");
    }
};
template <>
struct CanonExt<scn::datetime_components> {
    static std::string get(const scn::datetime_components& t)
    {
        std::string o;
        if (!t.year || std::abs(*t.year) < 1000000) {
            // as documented: unset fields are 0, whether it is daylight saving time is not known
            std::tm z{};
            z.tm_sec = t.sec.value_or(0);
            z.tm_min = t.min.value_or(0);
            z.tm_hour = t.hour.value_or(0);
            z.tm_mday = t.mday.value_or(0);
            z.tm_mon = t.mon ? static_cast<int>(static_cast<unsigned>(*t.mon)) - 1 : 0;
            z.tm_year = t.year ? *t.year - 1900 : 0;
            z.tm_wday = t.wday ? static_cast<int>(t.wday->c_encoding()) : 0;
            z.tm_yday = t.yday.value_or(0);
            z.tm_gmtoff = t.tz_offset ? t.tz_offset->count() * 60 : 0;
            auto got = t.to_tm();
            if (tm_text(z) != tm_text(got) || got.tm_isdst != -1) {
                pbt::fail("to_tm gives " + tm_text(got) + " dst" + n(got.tm_isdst) + " instead of " + tm_text(z) + " dst-1");
            }
        }
        if (t.subsec) {
            o += " ss" + canon(*t.subsec);
        }
        if (t.sec) {
            o += " s" + n(*t.sec);
        }
        if (t.min) {
            o += " m" + n(*t.min);
        }
        if (t.hour) {
            o += " h" + n(*t.hour);
        }
        if (t.mday) {
            o += " d" + n(*t.mday);
        }
        if (t.mon) {
            o += " mon" + n(static_cast<unsigned>(*t.mon));
        }
        if (t.year) {
            o += " y" + n(*t.year);
        }
        if (t.wday) {
            o += " wd" + n(t.wday->c_encoding());
        }
        if (t.yday) {
            o += " yd" + n(*t.yday);
        }
        if (t.tz_offset) {
            o += " tzo" + n(t.tz_offset->count());
        }
        if (t.tz_name) {
            o += " tzn" + *t.tz_name;
        }
        return o;
    }
};
template <>
struct CanonExt<scn::weekday> {
    static std::string get(const scn::weekday& t) { return "wd" + n(t.c_encoding()); }
};
template <>
struct CanonExt<scn::day> {
    static std::string get(const scn::day& t) { return "d" + n(static_cast<unsigned>(t)); }
};
template <>
struct CanonExt<scn::month> {
    static std::string get(const scn::month& t) { return "mon" + n(static_cast<unsigned>(t)); }
};
template <>
struct CanonExt<scn::year> {
    static std::string get(const scn::year& t) { return "y" + n(static_cast<int>(t)); }
};
template <>
struct CanonExt<scn::month_day> {
    static std::string get(const scn::month_day& t) { return canon(t.month()) + canon(t.day()); }
};
template <>
struct CanonExt<scn::year_month> {
    static std::string get(const scn::year_month& t) { return canon(t.year()) + canon(t.month()); }
};
template <>
struct CanonExt<scn::year_month_day> {
    static std::string get(const scn::year_month_day& t)
    {
        return canon(t.year()) + canon(t.month()) + canon(t.day());
    }
};
template <typename D>
struct CanonExt<tp<D>> {
    static std::string get(const tp<D>& t) { return "t" + n(t.time_since_epoch().count()); }
};
}  // namespace h

namespace {

enum Target {
    T_tm,
    T_tmz,
    T_dtc,
    T_wd,
    T_d,
    T_m,
    T_y,
    T_md,
    T_ym,
    T_ymd,
    T_tp_s,
    T_tp_ms,
    T_tp_ns,
    T_tp_min,
    T_count
};
const char* target_name(int t)
{
    static const char* a[] = {"tm", "tm_with_tz", "datetime_components", "weekday", "day", "month", "year", "month_day",
                              "year_month", "year_month_day", "time_point<s>", "time_point<ms>", "time_point<ns>",
                              "time_point<min>"};
    return a[t];
}
template <typename CharT>
h::Out go(int t, int kind, const u32s& text, const u32s& fmt, size_t buf)
{
    auto x = h::enc<CharT>(text);
    auto f = h::enc<CharT>(fmt);
    std::basic_string_view<CharT> v(x);
    switch (t) {
        case T_tm: return h::run<std::tm>(kind, v, f, buf);
        case T_tmz: return h::run<scn::tm_with_tz>(kind, v, f, buf);
        case T_dtc: return h::run<scn::datetime_components>(kind, v, f, buf);
        case T_wd: return h::run<scn::weekday>(kind, v, f, buf);
        case T_d: return h::run<scn::day>(kind, v, f, buf);
        case T_m: return h::run<scn::month>(kind, v, f, buf);
        case T_y: return h::run<scn::year>(kind, v, f, buf);
        case T_md: return h::run<scn::month_day>(kind, v, f, buf);
        case T_ym: return h::run<scn::year_month>(kind, v, f, buf);
        case T_ymd: return h::run<scn::year_month_day>(kind, v, f, buf);
        case T_tp_s: return h::run<tp_s>(kind, v, f, buf);
        case T_tp_ms: return h::run<tp_ms>(kind, v, f, buf);
        case T_tp_ns: return h::run<tp_ns>(kind, v, f, buf);
        default: return h::run<tp_min>(kind, v, f, buf);
    }
}

// The calendar fields a format has set.
struct F {
    std::optional<int> sec, min, hour, mday, mon, year, wday, yday, tzo;
    std::optional<u32s> tzn;
    std::optional<u32s> sub;  // digits
};

struct Item {
    char32_t sp = 0;   // specifier, ' ' for whitespace, 'L' for literal text
    char32_t mod = 0;  // 'E', 'O', or '.' for %.S
    u32s text;         // literal or whitespace
    bool pct = false;  // %n, %t or %%
};
u32s spell(const std::vector<Item>& v, bool loc)
{
    u32s o = loc ? U"L" : U"";
    for (auto& i : v) {
        if (i.sp == U' ') {
            o += i.pct ? (i.text[0] == U'\t' ? u32s(U"%t") : u32s(U"%n")) : i.text;
        }
        else if (i.sp == U'\0') {
            o += i.pct ? u32s(U"%%") : i.text;
        }
        else {
            o += U'%';
            if (i.mod) {
                o += i.mod;
            }
            if (i.mod == U'.') {
                o += i.text;  // E or O
            }
            o += i.sp;
        }
    }
    return o;
}

enum Bit {
    b_fy = 1,
    b_sy = 2,
    b_c = 4,
    b_mon = 8,
    b_md = 16,
    b_wd = 32,
    b_yd = 64,
    b_h24 = 128,
    b_h12 = 256,
    b_min = 512,
    b_sec = 1024,
    b_sub = 2048,
    b_ap = 4096,
    b_tzo = 8192,
    b_tzn = 16384
};
// the fields a specifier sets; -1 if it is not supported at all
int bits_of(const Item& i, bool loc)
{
    if (i.sp == U' ' || i.sp == U'\0') {
        return 0;
    }
    if (i.mod == U'.') {
        return b_sec | b_sub;
    }
    if (i.mod == U'E' && i.sp == U'y') {
        return -1;
    }
    switch (i.sp) {
        case 'Y': return b_fy;
        case 'y': return b_sy;
        case 'C': return b_c;
        case 'b':
        case 'B':
        case 'h':
        case 'm': return b_mon;
        case 'd':
        case 'e': return b_md;
        case 'a':
        case 'A':
        case 'w':
        case 'u': return b_wd;
        case 'j': return b_yd;
        case 'H':
        case 'k': return b_h24;
        case 'I':
        case 'l': return b_h12;
        case 'M': return b_min;
        case 'S': return b_sec;
        case 'p':
        case 'P': return b_ap;
        case 'z': return b_tzo;
        case 'Z': return b_tzn;
        case 'c': return b_mon | b_md | b_h24 | b_min | b_sec | b_fy;
        case 'x': return b_mon | b_md | b_fy;
        case 'X':
        case 'T': return b_h24 | b_min | b_sec;
        case 'D': return b_mon | b_md | b_sy;
        case 'F': return b_fy | b_mon | b_md;
        case 'R': return b_h24 | b_min;
        case 'r': return loc ? b_h24 | b_min | b_sec : b_h12 | b_min | b_sec | b_ap;
        default: return -1;
    }
}
enum class Valid { yes, no, open };
Valid valid(const std::vector<Item>& v, bool loc, int target)
{
    int all = 0;
    bool has_c = false;
    for (auto& i : v) {
        int b = bits_of(i, loc);
        if (b < 0 || (all & b)) {
            return Valid::no;
        }
        all |= b;
        has_c = has_c || i.sp == U'c';
    }
    auto has = [&](int b) { return (all & b) != 0; };
    if ((has(b_h24) && has(b_h12)) || (has(b_ap) && !has(b_h12)) || (has(b_fy) && has(b_sy | b_c)) ||
        (has(b_tzo) && has(b_tzn)) || has(b_wd) + has(b_md) + has(b_yd) > 1) {
        return Valid::no;
    }
    bool y = has(b_fy | b_sy | b_c);
    switch (target) {
        case T_tm: return has(b_sub | b_tzn) ? Valid::no : Valid::yes;
        case T_tmz: return has(b_sub) ? Valid::no : Valid::yes;
        case T_dtc: return Valid::yes;
        // further fields may or may not be accepted
        case T_wd:
            // %c has the weekday as well
            return has_c && !loc ? Valid::open : !has(b_wd) ? Valid::no : (all & ~b_wd) ? Valid::open : Valid::yes;
        case T_d: return !has(b_md) ? Valid::no : (all & ~b_md) ? Valid::open : Valid::yes;
        case T_m: return !has(b_mon) ? Valid::no : (all & ~b_mon) ? Valid::open : Valid::yes;
        case T_y: return !y ? Valid::no : (all & ~(b_fy | b_sy | b_c)) ? Valid::open : Valid::yes;
        case T_md: return !has(b_md) || !has(b_mon) ? Valid::no : (all & ~(b_md | b_mon)) ? Valid::open : Valid::yes;
        case T_ym:
            return !y || !has(b_mon) ? Valid::no : (all & ~(b_mon | b_fy | b_sy | b_c)) ? Valid::open : Valid::yes;
        case T_ymd:
            return !y || !has(b_mon) || !has(b_md)             ? Valid::no
                   : (all & ~(b_md | b_mon | b_fy | b_sy | b_c)) ? Valid::open
                                                                 : Valid::yes;
        default:
            // a time point is found from the date and the time
            return has_c && !loc ? Valid::open : has(b_wd | b_yd | b_tzo | b_tzn) ? Valid::no : Valid::yes;
    }
}

const char* const months[] = {"January", "February", "March", "April", "May", "June", "July",
                              "August", "September", "October", "November", "December"};
const char* const days[] = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"};

// The reference reader.
struct Reader {
    const u32s& x;
    size_t p = 0;
    bool bad = false;
    bool open = false;  // the outcome isn't specified
    bool loc = false;
    bool wide = false;
    const std::locale* locale = nullptr;
    F f;
    std::optional<int> century, syear;
    bool h12 = false;
    int pm = -1;

    bool at(char32_t c) const { return p < x.size() && x[p] == c; }
    bool digit() const { return p < x.size() && x[p] >= U'0' && x[p] <= U'9'; }
    int num(int lo, int hi)
    {
        int k = 0, v = 0;
        while (k < hi && digit()) {
            v = v * 10 + static_cast<int>(x[p++] - U'0');
            ++k;
        }
        if (k < lo) {
            bad = true;
            return -1;
        }
        return v;
    }
    void set(std::optional<int>& o, int v, int lo, int hi)
    {
        if (v < lo || v > hi) {
            bad = true;
        }
        o = v;
    }
    bool word(const char* w, size_t len)
    {
        if (p + len > x.size()) {
            return false;
        }
        for (size_t i = 0; i < len; ++i) {
            auto c = x[p + i];
            if (c >= U'A' && c <= U'Z') {
                c += 32;
            }
            auto d = static_cast<char32_t>(w[i] >= 'A' && w[i] <= 'Z' ? w[i] + 32 : w[i]);
            if (c != d) {
                return false;
            }
        }
        p += len;
        return true;
    }
    void name(std::optional<int>& o, const char* const* names, int count, int first)
    {
        for (int i = 0; i < count; ++i) {
            if (word(names[i], std::strlen(names[i]))) {
                o = i + first;
                return;
            }
        }
        for (int i = 0; i < count; ++i) {
            if (word(names[i], 3)) {
                o = i + first;
                return;
            }
        }
        bad = true;
    }
    void ws()
    {
        while (p < x.size() && h::is_ws(x[p])) {
            ++p;
        }
    }
    void lit(char32_t c)
    {
        if (!at(c)) {
            bad = true;
        }
        else {
            ++p;
        }
    }
    template <typename CharT>
    std::optional<std::tm> facet_read(std::string fmt)
    {
        auto rest = h::enc<CharT>(x.substr(p));
        std::basic_istringstream<CharT> is(rest);
        is.imbue(*locale);
        using it = std::istreambuf_iterator<CharT>;
        std::tm t{};
        std::ios_base::iostate err = std::ios_base::goodbit;
        std::basic_string<CharT> f2(fmt.begin(), fmt.end());
        auto& facet = std::use_facet<std::time_get<CharT>>(*locale);
        auto e = facet.get(it(is), it(), is, err, &t, f2.data(), f2.data() + f2.size());
        if (err & std::ios_base::failbit) {
            bad = true;
            return std::nullopt;
        }
        size_t left = 0;
        for (; e != it(); ++e) {
            ++left;
        }
        // back to code points
        size_t used = rest.size() - left;
        size_t k = 0;
        while (used > 0 && p < x.size()) {
            char32_t c = x[p++];
            k += h::enc<CharT>(u32s(1, c)).size();
            if (k == used) {
                used = 0;
            }
            else if (k > used) {
                open = true;  // stopped within a code point
                return std::nullopt;
            }
        }
        return t;
    }
    std::optional<std::tm> facet(std::string fmt)
    {
        return wide ? facet_read<wchar_t>(fmt) : facet_read<char>(fmt);
    }

    void item(const Item& i)
    {
        if (i.sp == U' ') {
            return ws();
        }
        if (i.sp == U'\0') {
            for (auto c : i.text) {
                lit(c);
                if (bad) {
                    return;
                }
            }
            return;
        }
        bool alt = i.mod == U'E' || i.mod == U'O';
        if (loc && i.mod != U'.') {
            std::string fs = "%";
            auto sp = static_cast<char>(i.sp);
            switch (sp) {
                case 'b':
                case 'B':
                case 'h':
                    if (auto t = facet("%b")) {
                        set(f.mon, t->tm_mon + 1, 1, 12);
                    }
                    return;
                case 'a':
                case 'A':
                    if (auto t = facet("%a")) {
                        set(f.wday, t->tm_wday, 0, 6);
                    }
                    return;
                case 'c':
                case 'x':
                case 'X':
                case 'r':
                    if (alt) {
                        fs += 'E';
                    }
                    fs += sp;
                    if (auto t = facet(fs)) {
                        if (sp == 'c' || sp == 'x') {
                            f.year = t->tm_year + 1900;
                            set(f.mon, t->tm_mon + 1, 1, 12);
                            set(f.mday, t->tm_mday, 1, 31);
                        }
                        if (sp != 'x') {
                            set(f.hour, t->tm_hour, 0, 23);
                            set(f.min, t->tm_min, 0, 59);
                            set(f.sec, t->tm_sec, 0, 60);
                        }
                    }
                    return;
                default: break;
            }
            if (alt && std::strchr("YyCmdHMSwI", sp)) {
                if (auto t = facet(std::string("%") + static_cast<char>(i.mod) + sp)) {
                    switch (sp) {
                        case 'Y': f.year = t->tm_year + 1900; break;
                        case 'y': syear = (t->tm_year + 1900) % 100; break;
                        case 'C': century = (t->tm_year + 1900) / 100; break;
                        case 'm': set(f.mon, t->tm_mon + 1, 1, 12); break;
                        case 'd': set(f.mday, t->tm_mday, 1, 31); break;
                        case 'H': set(f.hour, t->tm_hour, 0, 23); break;
                        case 'I':
                            set(f.hour, t->tm_hour % 12 ? t->tm_hour % 12 : 12, 1, 12);
                            h12 = true;
                            break;
                        case 'M': set(f.min, t->tm_min, 0, 59); break;
                        case 'S': set(f.sec, t->tm_sec, 0, 60); break;
                        default: set(f.wday, t->tm_wday, 0, 6); break;
                    }
                }
                return;
            }
            if (alt && i.sp != U'z') {
                // how far the alternative numerals go is the library's business
                open = true;
                return;
            }
        }
        if (i.mod == U'.') {
            set(f.sec, num(1, 2), 0, 60);
            if (bad) {
                return;
            }
            char32_t point = U'.';
            if (loc && (i.text == U"E" || i.text == U"O")) {
                point = wide ? static_cast<char32_t>(std::use_facet<std::numpunct<wchar_t>>(*locale).decimal_point())
                             : static_cast<unsigned char>(std::use_facet<std::numpunct<char>>(*locale).decimal_point());
                if (point >= 0x80) {
                    open = true;
                    return;
                }
            }
            lit(point);
            if (bad) {
                return;
            }
            u32s d;
            while (digit()) {
                d += x[p++];
            }
            if (d.empty()) {
                bad = true;
            }
            f.sub = d;
            return;
        }
        switch (i.sp) {
            case 'Y': f.year = num(4, 4); break;
            case 'y': syear = num(2, 2); break;
            case 'C': century = num(2, 2); break;
            case 'b':
            case 'B':
            case 'h': name(f.mon, months, 12, 1); break;
            case 'm': set(f.mon, num(1, 2), 1, 12); break;
            case 'd':
            case 'e': set(f.mday, num(1, 2), 1, 31); break;
            case 'a':
            case 'A': name(f.wday, days, 7, 0); break;
            case 'w': set(f.wday, num(1, 1), 0, 6); break;
            case 'u':
                set(f.wday, num(1, 1), 1, 7);
                f.wday = *f.wday % 7;
                break;
            case 'j':
                set(f.yday, num(1, 3), 1, 366);
                f.yday = *f.yday - 1;
                break;
            case 'H':
            case 'k': set(f.hour, num(1, 2), 0, 23); break;
            case 'I':
            case 'l':
                set(f.hour, num(1, 2), 1, 12);
                h12 = true;
                break;
            case 'M': set(f.min, num(1, 2), 0, 59); break;
            case 'S': set(f.sec, num(1, 2), 0, 60); break;
            case 'p':
            case 'P': {
                const char* s[] = {"am", "a.m.", "pm", "p.m."};
                for (int k = 0; k < 4; ++k) {
                    if (word(s[k], std::strlen(s[k]))) {
                        pm = k / 2;
                        return;
                    }
                }
                bad = true;
                break;
            }
            case 'z': {
                int sign = 1;
                if (at(U'+') || at(U'-')) {
                    sign = at(U'-') ? -1 : 1;
                    ++p;
                }
                int hh, mm = 0;
                if (!alt) {
                    hh = num(2, 2);
                    if (bad) {
                        return;
                    }
                    size_t q = p;
                    if (at(U':')) {
                        ++p;
                    }
                    if (digit()) {
                        mm = num(2, 2);
                    }
                    else {
                        p = q;
                    }
                }
                else {
                    hh = num(1, 2);
                    if (bad) {
                        return;
                    }
                    size_t q = p;
                    if (at(U':')) {
                        ++p;
                        if (digit()) {
                            mm = num(2, 2);
                        }
                        else {
                            p = q;
                        }
                    }
                }
                if (!bad && (mm > 59 || hh > 23)) {
                    open = true;
                }
                f.tzo = sign * (hh * 60 + mm);
                break;
            }
            case 'Z': {
                u32s o;
                while (p < x.size()) {
                    auto c = x[p];
                    bool in = (c >= U'a' && c <= U'z') || (c >= U'A' && c <= U'Z') || (c >= U'0' && c <= U'9') ||
                              c == U'-' || c == U'+' || c == U'_' || c == U'/';
                    if (!in) {
                        break;
                    }
                    o += c;
                    ++p;
                }
                if (o.empty()) {
                    bad = true;
                }
                f.tzn = o;
                break;
            }
            case 'c': seq("a b d H:M:S Y"); break;
            case 'x': seq("m/d/Y"); break;
            case 'X':
            case 'T': seq("H:M:S"); break;
            case 'D': seq("m/d/y"); break;
            case 'F': seq("Y-m-d"); break;
            case 'R': seq("H:M"); break;
            case 'r': seq("I:M:S p"); break;
            default: std::abort();
        }
    }
    void seq(const char* s)
    {
        for (; *s && !bad; ++s) {
            Item i;
            if (*s == ' ') {
                i.sp = U' ';
            }
            else if (std::strchr(":/-", *s)) {
                i.text = u32s(1, static_cast<char32_t>(*s));
            }
            else {
                i.sp = static_cast<char32_t>(*s);
            }
            item(i);
        }
    }
    void all(const std::vector<Item>& v)
    {
        ws();
        if (p == x.size()) {
            bad = true;
            return;
        }
        for (auto& i : v) {
            item(i);
            if (bad || open) {
                return;
            }
        }
        if (h12 && pm >= 0) {
            f.hour = pm ? (*f.hour == 12 ? 12 : *f.hour + 12) : (*f.hour == 12 ? 0 : *f.hour);
        }
        if (century || syear) {
            f.year = century ? *century * 100 + syear.value_or(0) : *syear >= 69 ? 1900 + *syear : 2000 + *syear;
        }
    }
};

long long days_from_civil(long long y, unsigned m, unsigned d)
{
    y -= m <= 2;
    long long era = (y >= 0 ? y : y - 399) / 400;
    auto yoe = static_cast<unsigned>(y - era * 400);
    unsigned doy = (153 * (m > 2 ? m - 3 : m + 9) + 2) / 5 + d - 1;
    unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + static_cast<long long>(doe) - 719468;
}

std::string expect(int t, const F& f, long utc_minus_local)
{
    switch (t) {
        case T_tm:
        case T_tmz: {
            scn::tm_with_tz z{};
            z.tm_sec = f.sec.value_or(0);
            z.tm_min = f.min.value_or(0);
            z.tm_hour = f.hour.value_or(0);
            z.tm_mday = f.mday.value_or(0);
            z.tm_mon = f.mon.value_or(1) - 1;
            z.tm_year = f.year ? *f.year - 1900 : 0;
            z.tm_wday = f.wday.value_or(0);
            z.tm_yday = f.yday.value_or(0);
            z.tm_gmtoff = f.tzo.value_or(0) * 60;
            if (t == T_tm) {
                return h::canon(static_cast<const std::tm&>(z));
            }
            if (f.tzo) {
                z.tz_offset = std::chrono::minutes(*f.tzo);
            }
            if (f.tzn) {
                z.tz_name = h::utf8(*f.tzn);
            }
            return h::canon(z);
        }
        case T_dtc: {
            scn::datetime_components d;
            auto put = [](auto& to, const std::optional<int>& from) {
                if (from) {
                    to = static_cast<typename std::remove_reference_t<decltype(to)>::value_type>(*from);
                }
            };
            put(d.sec, f.sec);
            put(d.min, f.min);
            put(d.hour, f.hour);
            put(d.mday, f.mday);
            put(d.year, f.year);
            put(d.yday, f.yday);
            if (f.mon) {
                d.mon = scn::month(static_cast<unsigned>(*f.mon));
            }
            if (f.wday) {
                d.wday = scn::weekday(static_cast<unsigned>(*f.wday));
            }
            if (f.tzo) {
                d.tz_offset = std::chrono::minutes(*f.tzo);
            }
            if (f.tzn) {
                d.tz_name = h::utf8(*f.tzn);
            }
            if (f.sub) {
                double v = std::strtod(("0." + h::utf8(*f.sub)).c_str(), nullptr);
                // stays below 1
                d.subsec = std::min(v, std::nextafter(1.0, 0.0));
            }
            return h::canon(d);
        }
        case T_wd: return h::canon(scn::weekday(static_cast<unsigned>(f.wday.value_or(0))));
        case T_d: return h::canon(scn::day(static_cast<unsigned>(*f.mday)));
        case T_m: return h::canon(scn::month(static_cast<unsigned>(*f.mon)));
        case T_y: return h::canon(scn::year(*f.year));
        case T_md:
            return h::canon(scn::month(static_cast<unsigned>(*f.mon))) + h::canon(scn::day(static_cast<unsigned>(*f.mday)));
        case T_ym: return h::canon(scn::year(*f.year)) + h::canon(scn::month(static_cast<unsigned>(*f.mon)));
        case T_ymd:
            return h::canon(scn::year(*f.year)) + h::canon(scn::month(static_cast<unsigned>(*f.mon))) +
                   h::canon(scn::day(static_cast<unsigned>(*f.mday)));
        default: {
            // unset fields are 0, as documented for to_tm
            long long s = (days_from_civil(f.year.value_or(1900), static_cast<unsigned>(f.mon.value_or(1)), 1) - 1 +
                           f.mday.value_or(0)) *
                              86400 +
                          f.hour.value_or(0) * 3600 + f.min.value_or(0) * 60 + f.sec.value_or(0) + utc_minus_local;
            long long ns = 0;
            if (f.sub) {
                std::string d = h::utf8(*f.sub).substr(0, 9);
                d.resize(9, '0');
                ns = std::stoll(d);
            }
            switch (t) {
                case T_tp_s: return "t" + n(s);
                case T_tp_min: return "t" + n(s / 60);
                case T_tp_ns:
                    if (s > 9223372040 || s < -9223372040) {
                        return "x";  // not representable
                    }
                    if (s > 9223372030 || s < -9223372030) {
                        return "";
                    }
                    return "t" + n(s * 1000000000 + ns);
                default: return "t" + n(s * 1000 + ns / 1000000);
            }
        }
    }
}

// text for an item, from a date
struct When {
    int y, mo, d, hh, mi, s, wd, yd, tz;
    u32s sub;
};
u32s pad(int v, size_t w)
{
    auto t = std::to_string(v);
    while (t.size() < w) {
        t = "0" + t;
    }
    return h::ascii32(t);
}
u32s any_case(Src& s, std::string t)
{
    switch (s.weighted({4, 1, 1, 1})) {
        case 0: break;
        case 1:
            for (auto& c : t) {
                c = static_cast<char>(std::toupper(c));
            }
            break;
        case 2:
            for (auto& c : t) {
                c = static_cast<char>(std::tolower(c));
            }
            break;
        default:
            for (auto& c : t) {
                if (s.flip()) {
                    c = static_cast<char>(std::islower(c) ? std::toupper(c) : std::tolower(c));
                }
            }
    }
    return h::ascii32(t);
}
u32s text_of(Src& s, const When& w, const Item& i);
u32s text_seq(Src& s, const When& w, const char* f)
{
    u32s o;
    for (; *f; ++f) {
        Item i;
        if (*f == ' ') {
            i.sp = U' ';
            i.text = U" ";
        }
        else if (std::strchr(":/-", *f)) {
            i.text = u32s(1, static_cast<char32_t>(*f));
        }
        else {
            i.sp = static_cast<char32_t>(*f);
        }
        o += text_of(s, w, i);
    }
    return o;
}
u32s text_of(Src& s, const When& w, const Item& i)
{
    auto two = [&](int v) { return s.chance(1, 4) ? pad(v, 1) : pad(v, 2); };
    if (i.sp == U' ') {
        return s.chance(1, 2) ? u32s(U" ") : gen::ws(s, 3);
    }
    if (i.sp == U'\0') {
        return i.text;
    }
    if (i.mod == U'.') {
        return two(w.s) + U"." + w.sub;
    }
    bool alt = i.mod == U'E' || i.mod == U'O';
    switch (i.sp) {
        case 'Y': return pad(w.y, 4);
        case 'y': return pad(w.y % 100, 2);
        case 'C': return pad(w.y / 100, 2);
        case 'b':
        case 'B':
        case 'h': {
            std::string m = months[w.mo - 1];
            return any_case(s, s.flip() ? m : m.substr(0, 3));
        }
        case 'm': return two(w.mo);
        case 'd':
        case 'e': return two(w.d);
        case 'a':
        case 'A': {
            std::string m = days[w.wd];
            return any_case(s, s.flip() ? m : m.substr(0, 3));
        }
        case 'w': return pad(w.wd, 1);
        case 'u': return pad(w.wd ? w.wd : 7, 1);
        case 'j': return s.flip() ? pad(w.yd + 1, 3) : pad(w.yd + 1, 1);
        case 'H':
        case 'k': return two(w.hh);
        case 'I':
        case 'l': return two(w.hh % 12 ? w.hh % 12 : 12);
        case 'M': return two(w.mi);
        case 'S': return two(w.s);
        case 'p':
        case 'P': return any_case(s, w.hh >= 12 ? (s.flip() ? "PM" : "p.m.") : (s.flip() ? "AM" : "a.m."));
        case 'z': {
            int a = std::abs(w.tz);
            u32s o = w.tz < 0 ? U"-" : s.chance(3, 4) ? U"+" : U"";
            bool mins = a % 60 || s.flip();
            o += alt && s.flip() ? pad(a / 60, 1) : pad(a / 60, 2);
            if (mins) {
                if (alt || s.flip()) {
                    o += U':';
                }
                o += pad(a % 60, 2);
            }
            return o;
        }
        case 'Z': {
            static const char* a[] = {"UTC", "Europe/Helsinki", "EST5EDT", "Etc/GMT+3", "America/Port-au-Prince", "A_b", "Z"};
            return h::ascii32(s.pick(a));
        }
        case 'c': return text_seq(s, w, "a b d H:M:S Y");
        case 'x': return text_seq(s, w, "m/d/Y");
        case 'X':
        case 'T': return text_seq(s, w, "H:M:S");
        case 'D': return text_seq(s, w, "m/d/y");
        case 'F': return text_seq(s, w, "Y-m-d");
        case 'R': return text_seq(s, w, "H:M");
        case 'r': return text_seq(s, w, "I:M:S p");
        default: return U"1";
    }
}
When any_when(Src& s)
{
    When w;
    switch (s.draw(4)) {
        case 0: w.y = static_cast<int>(s.range(1960, 2100)); break;
        case 1: w.y = static_cast<int>(s.range(0, 9999)); break;
        default: w.y = static_cast<int>(s.range(1968, 2040)); break;
    }
    w.mo = static_cast<int>(s.range(1, 12));
    static const int len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    bool leap = w.y % 4 == 0 && (w.y % 100 != 0 || w.y % 400 == 0);
    int ml = len[w.mo - 1] + (leap && w.mo == 2);
    w.d = s.chance(1, 4) ? ml : static_cast<int>(s.range(1, ml));
    w.hh = s.chance(1, 3) ? static_cast<int>(s.pick({0, 11, 12, 13, 23})) : static_cast<int>(s.range(0, 23));
    w.mi = static_cast<int>(s.range(0, 59));
    w.s = s.chance(1, 8) ? 60 : static_cast<int>(s.range(0, 59));
    auto dn = days_from_civil(w.y, static_cast<unsigned>(w.mo), static_cast<unsigned>(w.d));
    w.wd = static_cast<int>(((dn + 4) % 7 + 7) % 7);
    w.yd = static_cast<int>(dn - days_from_civil(w.y, 1, 1));
    w.tz = static_cast<int>(s.range(-14 * 60, 14 * 60));
    if (s.flip()) {
        w.tz = w.tz / 60 * 60;
    }
    for (size_t k = 1 + s.len(s.chance(1, 10) ? 40 : 8); k; --k) {
        w.sub += static_cast<char32_t>(U'0' + (s.chance(1, 4) ? 9 : s.draw(10)));
    }
    return w;
}
char32_t lit_cp(Src& s)
{
    static const char32_t a[] = {'-', '/', ':', 'T', '.', ',', 'x', '1', '9', 'Z', 0xe4, 0x5e74, 0x6708, 0x65e5, 0x1f600, 0xa0};
    return s.pick(a);
}
std::vector<Item> any_items(Src& s, int target)
{
    std::vector<char32_t> sp;
    auto one = [&](const char* c) { sp.push_back(static_cast<char32_t>(c[s.draw(std::strlen(c))])); };
    bool date = target < T_wd || target >= T_y, time = target <= T_dtc || target >= T_tp_s;
    if (target == T_wd) {
        one("aAwu");
    }
    else if (target == T_d) {
        one("de");
    }
    else if (target == T_m) {
        one("bBhm");
    }
    else {
        auto year = [&] {
            switch (s.draw(4)) {
                case 0: sp.push_back('C'); sp.push_back('y'); break;
                case 1: one("yC"); break;
                default: sp.push_back('Y');
            }
        };
        if (date) {
            if (target == T_y) {
                year();
            }
            else if (target == T_md) {
                one("bBhm");
                one("de");
            }
            else if (target == T_ym) {
                year();
                one("bBhm");
            }
            else if (s.chance(2, 5)) {
                one("FFDx");
            }
            else if (s.chance(1, 6) && time) {
                sp.push_back('c');
                time = false;
            }
            else {
                if (target == T_ymd || s.chance(5, 6)) {
                    year();
                }
                if (target == T_ymd || s.chance(5, 6)) {
                    one("bBhm");
                }
                if (target == T_ymd || s.chance(5, 6)) {
                    one(target >= T_wd || s.chance(3, 4) ? "de" : "aAwuj");
                }
            }
        }
        if (time && s.chance(5, 6)) {
            switch (s.draw(6)) {
                case 0: one("XTR"); break;
                case 1: sp.push_back('r'); break;
                case 2:
                    one("Il");
                    if (s.chance(3, 4)) {
                        one("pP");
                    }
                    if (s.flip()) {
                        sp.push_back('M');
                    }
                    break;
                default:
                    one("Hk");
                    if (s.chance(3, 4)) {
                        sp.push_back('M');
                    }
                    if (s.chance(3, 4)) {
                        sp.push_back((target == T_dtc || target >= T_tp_s) && s.flip() ? U'.' : U'S');
                    }
            }
        }
        if (target <= T_dtc && s.chance(1, 3)) {
            one(target == T_tm ? "z" : "zzZ");
        }
    }
    // shuffle now and then
    if (s.chance(1, 3)) {
        for (size_t i = sp.size(); i > 1; --i) {
            std::swap(sp[i - 1], sp[s.draw(i)]);
        }
    }
    if (s.chance(1, 5) || sp.empty()) {
        static const char all[] = "YyCbBhmdeaAwujHkIlMSpPzZcxXDFRrTGgUWVsQq.";
        sp.insert(sp.begin() + static_cast<long>(s.draw(sp.size() + 1)),
                  static_cast<char32_t>(all[s.draw(sizeof all - 1)]));
    }
    std::vector<Item> v;
    for (size_t k = 0; k < sp.size(); ++k) {
        if (k || s.chance(1, 8)) {
            Item i;
            switch (s.weighted({4, 2, 1, 2})) {
                case 0:
                    i.text = u32s(1, lit_cp(s));
                    break;
                case 1:
                    i.sp = U' ';
                    i.text = s.chance(2, 3) ? u32s(U" ") : u32s(1, gen::ws_cp(s));
                    i.pct = s.chance(1, 4) && (i.text[0] == U'\n' || i.text[0] == U'\t' || (i.text = U"\n", true));
                    break;
                case 2:
                    i.text = U"%";
                    i.pct = true;
                    break;
                default: break;
            }
            if (k == 0 && !i.pct) {
                // has to start with a percent sign
                i.sp = U' ';
                i.text = U"\n";
                i.pct = true;
            }
            if (!i.text.empty()) {
                v.push_back(i);
            }
        }
        Item i;
        i.sp = sp[k];
        if (i.sp == U'.') {
            i.mod = U'.';
            i.text = s.chance(1, 4) ? s.pick({U"E", U"O"}) : U"";
            i.sp = U'S';
        }
        else if (s.chance(1, 8)) {
            auto c = static_cast<char>(i.sp);
            if (std::strchr("cCxXyYz", c) && s.flip()) {
                i.mod = U'E';
            }
            else if (std::strchr("deHkIlmMSUwWyz", c)) {
                i.mod = U'O';
            }
        }
        v.push_back(i);
    }
    if (s.chance(1, 5)) {
        Item i;
        i.text = u32s(1, lit_cp(s));
        v.push_back(i);
    }
    return v;
}
void damage(Src& s, u32s& t)
{
    if (t.empty()) {
        return;
    }
    size_t at = s.draw(t.size());
    switch (s.draw(6)) {
        case 0: t.erase(at, 1); break;
        case 1: t.insert(at, 1, static_cast<char32_t>(s.range(0x20, 0x7e))); break;
        case 2: t[at] = static_cast<char32_t>(U'0' + s.draw(10)); break;
        case 3: t[at] = gen::scalar(s); break;
        case 4: t.resize(at); break;
        default: t[at] ^= static_cast<char32_t>(1u << s.draw(6)); break;
    }
    for (auto& c : t) {
        if (c >= 0xd800 && c <= 0xdfff) {
            c = U'?';
        }
    }
}

std::vector<std::string> system_locales()
{
    std::vector<std::string> v;
    for (const char* c : {"fi_FI.UTF-8", "de_DE.UTF-8", "fr_FR.UTF-8", "en_US.UTF-8", "ru_RU.UTF-8", "ja_JP.UTF-8", "es_ES.UTF-8",
                          "sv_SE.UTF-8", "pl_PL.UTF-8", "pt_BR.UTF-8", "ar_EG.UTF-8", "en_GB.UTF-8"}) {
        try {
            std::locale l(c);
            v.push_back(c);
        }
        catch (...) {
        }
    }
    v.push_back("C");
    return v;
}
const std::locale& any_locale(Src& s, std::string& name)
{
    static const std::vector<std::string> names = system_locales();
    static std::map<std::string, std::locale> cache;
    name = s.pick(names);
    auto it = cache.find(name);
    if (it == cache.end()) {
        it = cache.emplace(name, std::locale(name.c_str())).first;
    }
    return it->second;
}
long any_tz(Src& s)
{
    static const struct {
        const char* name;
        long off;
    } z[] = {{"UTC", 0}, {"XYZ+3:30", 12600}, {"ABC-5", -18000}};
    auto& t = s.pick(z);
    static const void* last = nullptr;
    if (last != &t) {
        ::setenv("TZ", t.name, 1);
        ::tzset();
        last = &t;
    }
    return t.off;
}

void judge(Src& s, Ctx& c, int target, const std::vector<Item>& items, bool loc, const std::locale* l,
           const std::string& lname, u32s text, const u32s& tail, bool whole, bool force_narrow)
{
    bool wide = !force_narrow && s.chance(1, 3);
    int kind = static_cast<int>(s.chance(1, 2) ? h::k_view : s.draw(wide ? h::k_file : h::k_count));
    size_t buf = 1 + s.draw(8);
    long off = any_tz(s);
    text += tail;
    u32s fmt = U"{:" + spell(items, loc) + U"}";
    for (auto& i : items) {
        for (auto ch : i.text) {
            if (ch == U'{' || ch == U'}') {
                throw Discard{};
            }
        }
    }
    c.desc([&] {
        return std::string(target_name(target)) + " format " + show(h::utf8(fmt)) + " text " + show(h::utf8(text)) +
               (wide ? " wide" : "") + " " + h::kind_name(kind) + (l ? " locale " + lname : "");
    });
    auto v = valid(items, loc, target);
    Reader r{text};
    r.loc = loc;
    r.wide = wide;
    static const std::locale classic = std::locale::classic();
    r.locale = l ? l : &classic;
    if (v != Valid::no) {
        r.all(items);
    }
    h::run_locale = l;
    auto o = wide ? go<wchar_t>(target, kind, text, fmt, buf) : go<char>(target, kind, text, fmt, buf);
    h::run_locale = nullptr;
    if (v == Valid::no) {
        c.label("invalid format");
        c.nontrivial(std::hash<std::string>()(h::utf8(fmt)) + static_cast<uint64_t>(target));
        if (o.ok) {
            fail("a format that sets fields twice, contradicts itself or does not fit the type was accepted: " + h::show(o));
        }
        return;
    }
    if (r.open) {
        c.label("open");
        return;
    }
    c.nontrivial(std::hash<std::string>()(h::utf8(fmt) + "|" + h::utf8(text)) + static_cast<uint64_t>(target));
    if (r.bad) {
        c.label("mismatch");
        if (o.ok) {
            fail("text that does not match was accepted: " + h::show(o));
        }
        if (v == Valid::yes && o.code == 1) {
            fail("text that does not match a valid format reported as an invalid format");
        }
        return;
    }
    if (v == Valid::open && !o.ok) {
        c.label("open");
        return;
    }
    auto e = expect(target, r.f, off);
    if (e.empty()) {
        c.label("open");
        return;
    }
    if (e == "x") {
        if (o.ok) {
            fail("a value that the type cannot represent: " + h::show(o));
        }
        c.label("not representable");
        return;
    }
    if (!o.ok) {
        fail("expected " + e + ", got " + h::show(o));
    }
    c.label("match");
    if (whole) {
        c.label("undamaged");
    }
    bool same = o.vals[0] == e;
    if (!same && (target == T_tp_ns || target == T_tp_ms) && r.f.sub && (r.f.sub->size() > 9 || e[1] == '-')) {
        // more digits than a nanosecond has, or before the epoch: either neighbour
        auto a = std::stoll(o.vals[0].substr(1)), b = std::stoll(e.substr(1));
        same = a == b + 1 || a == b - 1;
    }
    if (!same) {
        fail("expected " + e + ", got " + h::show(o));
    }
    long used = wide ? static_cast<long>(r.p) : static_cast<long>(h::utf8(text.substr(0, r.p)).size());
    if (o.consumed != used) {
        fail("consumed " + n(o.consumed) + " rather than " + n(used));
    }
}

// formats of any specifiers, texts of the date's spelling, damaged at times
void formats(Src& s, Ctx& c)
{
    int target = static_cast<int>(s.weighted({4, 3, 5, 1, 1, 1, 1, 1, 1, 2, 1, 2, 1, 1}));
    auto items = any_items(s, target);
    auto w = any_when(s);
    u32s text = gen::ws(s, 2);
    for (auto& i : items) {
        text += text_of(s, w, i);
    }
    bool whole = true;
    if (s.chance(1, 3)) {
        damage(s, text);
        whole = false;
    }
    u32s tail;
    switch (s.draw(4)) {
        case 0: tail = u32s(1, lit_cp(s)) + U"z"; break;
        case 1: tail = U" 12"; break;
        case 2: tail = pad(static_cast<int>(s.draw(30)), 1); break;
        default: break;
    }
    // without L, no locale matters
    std::string name;
    const std::locale* l = s.chance(1, 4) ? &any_locale(s, name) : nullptr;
    judge(s, c, target, items, false, l, name, text, tail, whole, false);
}

// what strftime prints in the C locale
void round_trip(Src& s, Ctx& c)
{
    int target = static_cast<int>(s.pick({T_tm, T_tmz, T_dtc, T_tp_s, T_tp_ms, T_tp_ns, T_tp_min, T_ymd}));
    auto w = any_when(s);
    if (w.y < 1000) {
        w.y += 1000;
        w.yd = 0;
        w.wd = 0;
        if (w.d > 28) {
            w.d = 28;
        }
    }
    std::tm t{};
    t.tm_year = w.y - 1900;
    t.tm_mon = w.mo - 1;
    t.tm_mday = w.d;
    t.tm_hour = w.hh;
    t.tm_min = w.mi;
    t.tm_sec = w.s;
    t.tm_wday = w.wd;
    t.tm_yday = w.yd;
    static const char* const f_date[] = {"%F", "%Y-%m-%d", "%d.%m.%Y", "%d %B %Y", "%b %d %Y", "%C%y%m%d", "%h-%d-%Y", "%Y/%Om/%Od"};
    static const char* const f_time[] = {"%T", "%H:%M:%S", "%I:%M:%S %p", "%r", "%R:%S", "%X", "%I.%M.%S%p"};
    std::string f = s.pick(f_date);
    if (target != T_ymd) {
        f += s.flip() ? " " : "T";
        f += s.pick(f_time);
    }
    if (target <= T_dtc && s.chance(1, 5)) {
        f = "%c";
    }
    char buf[200];
    if (!std::strftime(buf, sizeof buf, f.c_str(), &t)) {
        throw Discard{};
    }
    long off = any_tz(s);
    bool wide = s.chance(1, 3);
    int kind = static_cast<int>(s.chance(1, 2) ? h::k_view : s.draw(wide ? h::k_file : h::k_count));
    u32s text = h::ascii32(buf), fmt = U"{:" + h::ascii32(f) + U"}";
    c.desc([&] { return std::string(target_name(target)) + " " + h::utf8(fmt) + " " + show(std::string(buf)) + " " + h::kind_name(kind); });
    F e;
    e.year = w.y;
    e.mon = w.mo;
    e.mday = w.d;
    if (target != T_ymd) {
        e.hour = w.hh;
        e.min = w.mi;
        e.sec = w.s;
    }
    if (f == "%c") {
        e.wday = w.wd;
    }
    auto x = expect(target, e, off);
    if (x.empty() || x == "x") {
        throw Discard{};
    }
    auto o = wide ? go<wchar_t>(target, kind, text, fmt, 3) : go<char>(target, kind, text, fmt, 3);
    c.nontrivial(std::hash<std::string>()(f + "|" + buf) + static_cast<uint64_t>(target));
    if (!o.ok || o.vals[0] != x) {
        fail("expected " + x + ", got " + h::show(o));
    }
    if (o.consumed != static_cast<long>(text.size())) {
        fail("did not consume everything");
    }
}

// with L, names and representations of the locale
void localized(Src& s, Ctx& c)
{
    std::string name;
    const std::locale& l = any_locale(s, name);
    int target = static_cast<int>(s.pick({T_tm, T_tmz, T_dtc}));
    auto w = any_when(s);
    std::vector<Item> items;
    auto add = [&](char32_t sp, char32_t mod = 0) {
        Item i;
        i.sp = sp;
        i.mod = mod;
        items.push_back(i);
    };
    auto lit = [&](u32s t) {
        Item i;
        i.sp = t == U" " ? U' ' : U'\0';
        i.text = t;
        items.push_back(i);
    };
    u32s own;
    switch (s.draw(10)) {
        case 9: {
            // fractions of a second, with the decimal point of the locale
            target = s.pick({T_dtc, T_dtc, T_tp_ms});
            if (target == T_tp_ms) {
                add(U'F');
                lit(U" ");
                own += pad(w.y, 4) + U"-" + pad(w.mo, 2) + U"-" + pad(w.d, 2) + U" ";
            }
            add(U'H');
            lit(U":");
            add(U'M');
            lit(U":");
            add(U'S', U'.');
            items.back().text = s.pick({U"E", U"O", U""});
            char32_t point = static_cast<unsigned char>(std::use_facet<std::numpunct<char>>(l).decimal_point());
            if (items.back().text.empty() || point >= 0x80 || s.chance(1, 8)) {
                point = U'.';
            }
            own += pad(w.hh, 2) + U":" + pad(w.mi, 2) + U":" + pad(w.s, 2) + point + w.sub;
            break;
        }
        case 8: {
            // numbers in the alternative representation
            u32s used;
            for (size_t k = 1 + s.len(4, 1, 2); k > 0; --k) {
                char32_t sp = s.pick({U'm', U'd', U'H', U'M', U'S', U'w', U'Y', U'y', U'C', U'I'});
                if (used.find(sp) != u32s::npos) {
                    continue;
                }
                used += sp;
                if (!items.empty()) {
                    lit(s.pick({U" ", U"-", U":"}));
                }
                add(sp, sp == U'Y' || sp == U'C' ? U'E' : sp == U'y' && s.flip() ? U'E' : U'O');
            }
            break;
        }
        case 0: add(s.pick({U'b', U'B', U'h'})); break;
        case 1: add(s.pick({U'a', U'A'})); break;
        case 2:
            add(U'd');
            lit(s.flip() ? U" " : U"-");
            add(s.pick({U'b', U'B'}));
            lit(U" ");
            add(U'Y');
            break;
        case 3: add(U'x', s.chance(1, 4) ? U'E' : 0); break;
        case 4: add(U'X', s.chance(1, 4) ? U'E' : 0); break;
        case 5: add(U'c', s.chance(1, 4) ? U'E' : 0); break;
        case 6: add(U'r'); break;
        default:
            add(U'x');
            lit(U" ");
            add(U'X');
    }
    std::tm t{};
    t.tm_year = w.y - 1900;
    t.tm_mon = w.mo - 1;
    t.tm_mday = w.d;
    t.tm_hour = w.hh;
    t.tm_min = w.mi;
    t.tm_sec = w.s;
    t.tm_wday = w.wd;
    t.tm_yday = w.yd;
    std::ostringstream os;
    os.imbue(l);
    os << std::put_time(&t, h::utf8(spell(items, false)).c_str());
    std::string out = os.str();
    u32s text = own;
    for (size_t i = 0; own.empty() && i < out.size();) {
        char32_t cp = 0;
        size_t k = h::utf8_seq(out, i, &cp);
        if (!k) {
            throw Discard{};
        }
        text += cp;
        i += k;
    }
    bool whole = true;
    if (s.chance(1, 4)) {
        damage(s, text);
        whole = false;
    }
    u32s tail = s.flip() ? U"" : s.flip() ? U" 7" : U"x";
    judge(s, c, target, items, true, &l, name, text, tail, whole, false);
}

// every spelling of each single number, with up to three digits
void numbers(Src& s, Ctx& c)
{
    static const char sp[] = "yCmdewujHkIlMSY";
    uint64_t k = s.draw(sizeof(sp) - 1);
    Item i;
    i.sp = static_cast<char32_t>(sp[k]);
    std::vector<Item> items{i};
    int top = i.sp == U'Y' ? 10000 : 1000;
    for (int v = 0; v < top; ++v) {
        for (size_t width = 1; width <= (i.sp == U'Y' ? 5u : 4u); ++width) {
            u32s text = pad(v, width);
            Reader r{text};
            r.all(items);
            u32s fmt = U"{:" + spell(items, false) + U"}";
            for (int t : {T_tm, T_dtc}) {
                auto o = go<char>(t, h::k_view, text, fmt, 1);
                auto bad = [&](const std::string& m) {
                    c.desc([&] { return std::string(target_name(t)) + " " + h::utf8(fmt) + " " + show(h::utf8(text)); });
                    fail(m + ": " + h::show(o));
                };
                if (r.bad) {
                    if (o.ok) {
                        bad("out-of-range or short number accepted");
                    }
                    continue;
                }
                auto e = expect(t, r.f, 0);
                if (!o.ok || o.vals[0] != e || o.consumed != static_cast<long>(r.p)) {
                    bad("expected " + e);
                }
            }
        }
    }
    c.desc([&] { return "numbers %" + std::string(1, sp[k]); });
    c.nontrivial(k);
}

// every millisecond
void millis(Src& s, Ctx& c)
{
    uint64_t k = s.draw(20);
    long off = any_tz(s);
    for (uint64_t v = k * 50; v < k * 50 + 50; ++v) {
        u32s text = U"2024-10-01 12:34:56." + pad(static_cast<int>(v), 3);
        auto o = go<char>(T_tp_ms, h::k_view, text, U"{:%Y-%m-%d %H:%M:%.S}", 1);
        F f;
        f.year = 2024;
        f.mon = 10;
        f.mday = 1;
        f.hour = 12;
        f.min = 34;
        f.sec = 56;
        f.sub = pad(static_cast<int>(v), 3);
        auto e = expect(T_tp_ms, f, off);
        if (!o.ok || o.vals[0] != e) {
            c.desc([&] { return show(h::utf8(text)); });
            fail("expected " + e + ", got " + h::show(o));
        }
    }
    c.desc([&] { return "milliseconds " + std::to_string(k * 50); });
    c.nontrivial(k);
}

}  // namespace

std::vector<pbt::Sub> pbt::subs()
{
    return {{"formats", formats, 10}, {"round_trip", round_trip, 4}, {"localized", localized, 3},
            {"numbers", numbers, 0, 15}, {"millis", millis, 0, 20}};
}
