// Scans several fields: a fixed family of argument lists.
#pragma once
#include "disp.h"
namespace tuples {
constexpr int count = 9;
h::Out run_narrow(int tuple, int kind, std::string_view text, const std::string& fmt, size_t buf);
h::Out run_wide(int tuple, int kind, std::wstring_view text, const std::wstring& fmt, size_t buf);
inline std::vector<model::Ty> types(int t)
{
    using namespace model;
    switch (t) {
        case 0: return {t_int, t_string};
        case 1: return {t_string, t_string};
        case 2: return {t_double, t_char32, t_int};
        case 3: return {t_string, t_bool};
        case 4: return {t_uint, t_uint, t_uint};
        case 5: return {t_string, t_double, t_string, t_schar};
        case 6: return {t_ptr, t_llong};
        case 7: return {t_wchar, t_xstring};
        default: return {};
    }
}
inline h::Out run(int tuple, int kind, bool wide, h::u32v text, h::u32v fmt, size_t buf = 0)
{
    if (wide) {
        return run_wide(tuple, kind, h::wide(text), h::wide(fmt), buf);
    }
    return run_narrow(tuple, kind, h::utf8(text), h::utf8(fmt), buf);
}
}  // namespace tuples
