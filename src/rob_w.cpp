#include "rob_impl.h"
h::Out rob::run_wide(int x, int kind, std::wstring_view text, const std::wstring& fmt, size_t buf) { return go<wchar_t>(x, kind, text, fmt, buf); }
