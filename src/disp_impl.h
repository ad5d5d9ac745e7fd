#include "disp.h"
namespace disp {
template <typename CharT>
h::Out disp_run(Ty t, int kind, std::basic_string_view<CharT> v, const std::basic_string<CharT>& f, size_t buf)
{
    using Other = std::conditional_t<std::is_same_v<CharT, char>, wchar_t, char>;
    switch (t) {
        case model::t_schar: return h::run<signed char>(kind, v, f, buf);
        case model::t_short: return h::run<short>(kind, v, f, buf);
        case model::t_int: return h::run<int>(kind, v, f, buf);
        case model::t_long: return h::run<long>(kind, v, f, buf);
        case model::t_llong: return h::run<long long>(kind, v, f, buf);
        case model::t_uchar: return h::run<unsigned char>(kind, v, f, buf);
        case model::t_ushort: return h::run<unsigned short>(kind, v, f, buf);
        case model::t_uint: return h::run<unsigned>(kind, v, f, buf);
        case model::t_ulong: return h::run<unsigned long>(kind, v, f, buf);
        case model::t_ullong: return h::run<unsigned long long>(kind, v, f, buf);
        case model::t_float: return h::run<float>(kind, v, f, buf);
        case model::t_double: return h::run<double>(kind, v, f, buf);
        case model::t_ldouble: return h::run<long double>(kind, v, f, buf);
        case model::t_string: return h::run<std::basic_string<CharT>>(kind, v, f, buf);
        case model::t_xstring: return h::run<std::basic_string<Other>>(kind, v, f, buf);
        case model::t_bool: return h::run<bool>(kind, v, f, buf);
        case model::t_wchar: return h::run<wchar_t>(kind, v, f, buf);
        case model::t_char32: return h::run<char32_t>(kind, v, f, buf);
        case model::t_ptr: return h::run<void*>(kind, v, f, buf);
        case model::t_char:
            if constexpr (std::is_same_v<CharT, char>) {
                return h::run<char>(kind, v, f, buf);
            }
            break;
        case model::t_view: {
            h::Out o;
            h::Exact<CharT> e(v);
            auto sv = e.view();
            auto r = h::do_scan<std::basic_string_view<CharT>>(sv, f);
            h::fill_out(o, r, sv.begin());
            if (r) {
                auto x = r->value();
                if (!x.empty() && (x.data() < sv.data() || x.data() + x.size() > sv.data() + sv.size())) {
                    pbt::fail("a scanned string view lies outside of the source");
                }
            }
            return o;
        }
        default: break;
    }
    std::abort();
}
}  // namespace disp
