#include "disp_impl.h"
h::Out disp::run_narrow(Ty t, int kind, std::string_view v, const std::string& f, size_t b)
{
    return disp_run<char>(t, kind, v, f, b);
}
