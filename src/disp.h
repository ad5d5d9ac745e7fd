// Scans one field of any built-in type from any kind of source.
#pragma once
#include "model.h"
namespace disp {
using model::Ty;
h::Out run_narrow(Ty t, int kind, std::string_view text, const std::string& fmt, size_t buf);
h::Out run_wide(Ty t, int kind, std::wstring_view text, const std::wstring& fmt, size_t buf);

inline const char* ty_name(Ty t)
{
    static const char* n[] = {"schar", "short", "int", "long", "llong", "uchar", "ushort", "uint", "ulong", "ullong",
                              "float", "double", "ldouble", "string", "bool", "char", "wchar", "char32", "ptr",
                              "xstring", "view"};
    return n[t];
}
// char can't be read from a wide source, and a file is narrow only
inline bool legal(Ty t, int kind, bool wide)
{
    if (wide && (t == model::t_char || kind == h::k_file)) {
        return false;
    }
    if (t == model::t_view && !h::contiguous(kind)) {
        return false;
    }
    return true;
}
inline h::Out run(Ty t, int kind, bool wide, h::u32v text, h::u32v fmt, size_t buf = 0)
{
    if (wide) {
        return run_wide(t, kind, h::wide(text), h::wide(fmt), buf);
    }
    return run_narrow(t, kind, h::utf8(text), h::utf8(fmt), buf);
}
}  // namespace disp
