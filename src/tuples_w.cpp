#include "tuples_impl.h"
h::Out tuples::run_wide(int t, int kind, std::wstring_view v, const std::wstring& f, size_t b) { return go<wchar_t>(t, kind, v, f, b); }
