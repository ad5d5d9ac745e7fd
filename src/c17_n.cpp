#include "c17_impl.h"
namespace c17 {
h::Out custom_narrow(const Plan& p, std::string& seen) { return custom<char>(p, seen); }
h::Out direct_narrow(const Plan& p) { return direct<char>(p); }
h::Out wrap_narrow(const Plan& p, bool w) { return wrap<char>(p, w); }
h::Out error_narrow(const Plan& p, int how, int code, int depth, int used) { return error_of<char>(p, how, code, depth, used); }
std::string locale_narrow(const Plan& p, int form, const std::locale* l) { return locale_of<char>(p, form, l); }
h::Out stream_narrow(const Plan& p, const std::vector<Op>& ops, bool scanned) { return stream_of<char>(p, ops, scanned); }
h::Out walk_narrow(const Plan& p, const std::vector<Op>& ops, bool scanned) { return walk_of<char>(p, ops, scanned); }
}  // namespace c17
