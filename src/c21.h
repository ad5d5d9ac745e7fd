// Scans in a library built with other options (a module, loaded at run time).
#pragma once
#include <cstddef>
namespace c21 {
// beyond model::Ty
enum Extra { x_pair = 100, x_triple, x_discard, x_custom, x_scan_int, x_tm, x_dtc, x_regex, x_vector, x_map, x_istream, x_end };
enum Kind { k_view, k_deque, k_file };
struct In {
    int ty, kind;
    bool wide;
    int base;  // x_scan_int
    const void* text;
    size_t text_n;
    const void* fmt;
    size_t fmt_n;
};
// the outcome as text; "unsupported" where the options leave the type out
using Run = const char* (*)(const In*);
}  // namespace c21
