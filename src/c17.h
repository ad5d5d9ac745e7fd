#pragma once
#include "gen.h"
#include "disp.h"
namespace c17 {
using model::Ty;
struct Plan {
    int tuple = 0, way = 0, kind = 0;
    size_t buf = 1;
    bool before = false, after = false;
    h::u32s pre, inner, post, text;
};
constexpr int n_parts = 5, n_ways = 3, n_wraps = 8;
inline std::vector<Ty> part_types(int t)
{
    using namespace model;
    switch (t) {
        case 0: return {t_int, t_string};
        case 1: return {t_double, t_char32};
        case 2: return {t_string, t_uint};
        case 3: return {t_bool, t_xstring};
        default: return {t_string, t_string};
    }
}
inline Ty wrap_types(int t)
{
    using namespace model;
    switch (t) {
        case 0: return t_int;
        case 1: return t_double;
        case 2: return t_string;
        case 3: return t_bool;
        case 4: return t_char32;
        case 5: return t_ptr;
        case 6: return t_uchar;
        default: return t_xstring;
    }
}
// The inner format within the specifier: braces become control characters.
inline h::u32s hide(h::u32s f)
{
    for (auto& c : f) {
        c = c == U'{' ? 1 : c == U'}' ? 2 : c;
    }
    return f;
}
h::Out custom_narrow(const Plan& p, std::string& seen);
h::Out custom_wide(const Plan& p, std::string& seen);
h::Out direct_narrow(const Plan& p);
h::Out direct_wide(const Plan& p);
h::Out wrap_narrow(const Plan& p, bool wrapped);
h::Out wrap_wide(const Plan& p, bool wrapped);
h::Out error_narrow(const Plan& p, int how, int code, int depth, int used);
h::Out error_wide(const Plan& p, int how, int code, int depth, int used);
std::string locale_narrow(const Plan& p, int form, const std::locale* l);
std::string locale_wide(const Plan& p, int form, const std::locale* l);

enum OpKind { op_int, op_word, op_double, op_get, op_peek, op_unget, op_putback, op_putother, op_ignore, op_read, op_getline, op_bool, op_clear, op_fail, op_ws, op_count };
struct Op {
    int k, n;
};
inline const char* op_name(int k)
{
    static const char* a[] = {"int", "word", "double", "get", "peek", "unget", "putback", "putother", "ignore", "read", "getline", "bool", "clear", "fail", "ws"};
    return a[k];
}
h::Out stream_narrow(const Plan& p, const std::vector<Op>& ops, bool scanned);
h::Out stream_wide(const Plan& p, const std::vector<Op>& ops, bool scanned);

// a scanner that walks over the source by itself
enum WalkKind { w_step, w_post, w_look, w_end, w_save, w_back, w_same, w_int, w_word, w_turn, w_left, w_loop, w_count };
inline const char* walk_name(int k)
{
    static const char* const a[] = {"step", "step-after", "look", "at-end", "save", "back", "same", "scan-int", "scan-word", "delegate", "count", "range-for"};
    return a[k];
}
h::Out walk_narrow(const Plan& p, const std::vector<Op>& ops, bool scanned);
h::Out walk_wide(const Plan& p, const std::vector<Op>& ops, bool scanned);

constexpr int n_shapes = 14;
const char* shape_name(int shape);
void make(pbt::Src& s, int shape, std::string& text, std::string& want);
// the specifier of a sequence's or set's elements
std::string spec_for(pbt::Src& s, int shape);
h::Out container(int shape, int kind, const std::string& text, const std::string& spec, size_t buf, bool wide);
h::Out container_model(int shape, const std::string& text, const std::string& spec);
}  // namespace c17
