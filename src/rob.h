// Scans of further types, for the robustness harness.
#pragma once
#include "disp.h"
namespace rob {
// types beyond disp's
enum Extra { x_tm, x_tmz, x_dtc, x_tp, x_ymd, x_wd, x_regex, x_discard, x_vec, x_vecstr, x_map, x_set, x_tuple, x_nest, x_istream, x_custom, x_count };
constexpr int narrow_only = x_vec;  // and up to x_nest
inline const char* name(int x)
{
    static const char* a[] = {"tm", "tm_with_tz", "datetime_components", "time_point", "year_month_day", "weekday",
                              "regex_matches", "discard", "vector<int>", "vector<string>", "map<int,double>", "set<unsigned>",
                              "tuple", "vector<vector<pair>>", "istream type", "custom type"};
    return a[x];
}
h::Out run_narrow(int x, int kind, std::string_view text, const std::string& fmt, size_t buf);
h::Out run_wide(int x, int kind, std::wstring_view text, const std::wstring& fmt, size_t buf);
}  // namespace rob
