#include "tuples_impl.h"
h::Out tuples::run_narrow(int t, int kind, std::string_view v, const std::string& f, size_t b) { return go<char>(t, kind, v, f, b); }
