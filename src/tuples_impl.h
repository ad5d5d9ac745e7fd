#include "tuples.h"
namespace tuples {
template <typename CharT>
h::Out go(int tuple, int kind, std::basic_string_view<CharT> v, const std::basic_string<CharT>& f, size_t buf)
{
    using S = std::basic_string<CharT>;
    using X = std::basic_string<std::conditional_t<std::is_same_v<CharT, char>, wchar_t, char>>;
    switch (tuple) {
        case 0: return h::run<int, S>(kind, v, f, buf);
        case 1: return h::run<S, S>(kind, v, f, buf);
        case 2: return h::run<double, char32_t, int>(kind, v, f, buf);
        case 3: return h::run<S, bool>(kind, v, f, buf);
        case 4: return h::run<unsigned, unsigned, unsigned>(kind, v, f, buf);
        case 5: return h::run<S, double, S, signed char>(kind, v, f, buf);
        case 6: return h::run<void*, long long>(kind, v, f, buf);
        case 7: return h::run<wchar_t, X>(kind, v, f, buf);
        default: return h::run<>(kind, v, f, buf);
    }
}
}  // namespace tuples
