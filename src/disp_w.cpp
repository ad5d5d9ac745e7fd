#include "disp_impl.h"
h::Out disp::run_wide(Ty t, int kind, std::wstring_view v, const std::wstring& f, size_t b)
{
    return disp_run<wchar_t>(t, kind, v, f, b);
}
