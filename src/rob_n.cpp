#include "rob_impl.h"
h::Out rob::run_narrow(int x, int kind, std::string_view text, const std::string& fmt, size_t buf) { return go<char>(x, kind, text, fmt, buf); }
