// C08: what the compile-time check says about chrono formats against what
// scanning does.
#include <scn/chrono.h>
#include <scn/scan.h>
#include <scn/xchar.h>
#include <ctime>
#include "c08_chr.h"
#include "c08chr.h"
#include "h.h"
namespace {
using namespace pbt;

template <typename T>
int scan_narrow(const std::string& t, const char* f)
{
    auto r = scn::scan<T>(t, scn::runtime_format(std::string_view(f)));
    return r ? -1 : static_cast<int>(r.error().code());
}
template <typename T>
int scan_wide(const std::wstring& t, const wchar_t* f)
{
    auto r = scn::scan<T>(t, scn::runtime_format(std::wstring_view(f)));
    return r ? -1 : static_cast<int>(r.error().code());
}
template <typename T>
int one(const c08::ChrEntry& e, h::u32v t, bool wide)
{
    return wide ? scan_wide<T>(h::wide(t), e.wfmt) : scan_narrow<T>(h::utf8(t), e.fmt);
}
int run(const c08::ChrEntry& e, h::u32v t, bool w)
{
    using std::chrono::system_clock;
    switch (e.type) {
        case 0: return one<std::tm>(e, t, w);
        case 1: return one<scn::tm_with_tz>(e, t, w);
        case 2: return one<scn::datetime_components>(e, t, w);
        case 3: return one<scn::weekday>(e, t, w);
        case 4: return one<scn::day>(e, t, w);
        case 5: return one<scn::month>(e, t, w);
        case 6: return one<scn::year>(e, t, w);
        case 7: return one<scn::year_month>(e, t, w);
        case 8: return one<scn::month_day>(e, t, w);
        case 9: return one<scn::year_month_day>(e, t, w);
        case 10: return one<system_clock::time_point>(e, t, w);
        default: return one<std::chrono::time_point<system_clock, std::chrono::seconds>>(e, t, w);
    }
}

// whether the format sets every field that a calendar type is made of
bool complete(int type, const std::string& f)
{
    bool wday = false, mday = false, mon = false, year = false;
    for (size_t i = 0; i + 1 < f.size(); ++i) {
        if (f[i] != '%') {
            continue;
        }
        char c = f[++i];
        if ((c == 'E' || c == 'O' || c == '.') && i + 1 < f.size()) {
            c = f[++i];
        }
        auto in = [&](const char* s) { return std::strchr(s, c) != nullptr; };
        wday = wday || in("aAwuc");
        mday = mday || in("decxDF");
        mon = mon || in("bBhmcxDF");
        year = year || in("YyCcxDF");
    }
    switch (type) {
        case 3: return wday;
        case 4: return mday;
        case 5: return mon;
        case 6: return year;
        case 7: return year && mon;
        case 8: return mon && mday;
        case 9: return year && mon && mday;
        default: return true;
    }
}
}  // namespace

void c08::chrono_compile_time(Src& s, Ctx& c)
{
    auto k = s.draw(n_chr);
    auto& e = chr_entries[k];
    std::string f = e.fmt;
    // the field's specifier alone
    auto b = f.find(':'), end = f.find('}');
    std::string inner = b == f.npos || end == f.npos || end < b ? "" : f.substr(b + 1, end - b - 1);
    std::string text;
    if (s.draw(4)) {
        std::time_t t = static_cast<std::time_t>(s.draw(4000000000u));
        std::tm tm{};
        ::gmtime_r(&t, &tm);
        std::string in = inner;
        if (!in.empty() && in[0] == 'L') {
            in.erase(0, 1);
        }
        // strftime has no fractions
        for (size_t p; (p = in.find("%.")) != in.npos;) {
            in.erase(p + 1, in.compare(p + 2, 1, "S") == 0 ? 1 : 2);
        }
        char buf[400];
        size_t n = in.empty() ? 0 : std::strftime(buf, sizeof buf, in.c_str(), &tm);
        text = f.substr(0, f.find('{')) + std::string(buf, n);
    }
    else {
        text = s.pick({"", "2024", "12", "Monday", " 01-02", "a", "x 13"});
    }
    h::u32s t32;
    for (size_t i = 0; i < text.size();) {
        char32_t cp = 0;
        size_t n = h::utf8_seq(text, i, &cp);
        if (n == 0) {
            throw Discard{};
        }
        t32 += cp;
        i += n;
    }
    bool wide = s.draw(2) != 0;
    static const char* const names[] = {"tm", "tm_with_tz", "datetime_components", "weekday", "day", "month", "year", "year_month",
                                        "month_day", "year_month_day", "time_point", "time_point of seconds"};
    c.desc([&] { return std::string(names[e.type]) + " format " + pbt::show(f) + " text " + pbt::show(text) + (wide ? " wide" : ""); });
    c.label(e.narrow ? "chrono accepted" : "chrono rejected");
    c.nontrivial(k + 1000003);
    if (e.narrow != e.wide) {
        fail(std::string("the compile-time check ") + (e.narrow ? "accepts" : "rejects") + " the narrow format and not the wide one");
    }
    int code = run(e, t32, wide);
    if (e.narrow) {
        if (code == 1 && complete(e.type, inner)) {
            fail("accepted at compile time, an invalid format at run time");
        }
    }
    else {
        if (code == -1) {
            fail("rejected at compile time, scanned at run time");
        }
        bool alone = f.compare(0, 1, "{") == 0 && std::count(f.begin(), f.end(), '{') == 1 && std::count(f.begin(), f.end(), '}') == 1;
        if (alone && code != 1) {
            fail("rejected at compile time, error " + std::to_string(code) + " at run time");
        }
    }
}
unsigned c08::chrono_entries() { return n_chr; }
