#include "c17_impl.h"
namespace c17 {
h::Out custom_wide(const Plan& p, std::string& seen) { return custom<wchar_t>(p, seen); }
h::Out direct_wide(const Plan& p) { return direct<wchar_t>(p); }
h::Out wrap_wide(const Plan& p, bool w) { return wrap<wchar_t>(p, w); }
h::Out error_wide(const Plan& p, int how, int code, int depth, int used) { return error_of<wchar_t>(p, how, code, depth, used); }
std::string locale_wide(const Plan& p, int form, const std::locale* l) { return locale_of<wchar_t>(p, form, l); }
h::Out stream_wide(const Plan& p, const std::vector<Op>& ops, bool scanned) { return stream_of<wchar_t>(p, ops, scanned); }
h::Out walk_wide(const Plan& p, const std::vector<Op>& ops, bool scanned) { return walk_of<wchar_t>(p, ops, scanned); }
}  // namespace c17
