#include "gen.h"
#include "rob.h"
#include "tuples.h"
// C18: the convenience entry points agree with scn::scan.
const char* const pbt::property_id = "C18";
namespace c18 {
// adds to what it holds, so that the initial value shows; can't be copied
struct Sum {
    long total = 0;
    std::unique_ptr<std::string> names;
};
}  // namespace c18
template <typename C>
struct scn::scanner<c18::Sum, C> {
    template <typename P>
    constexpr auto parse(P& p) -> typename P::iterator
    {
        return p.begin();
    }
    template <typename Ctx>
    auto scan(c18::Sum& v, Ctx& ctx) const -> scn::scan_expected<typename Ctx::iterator>
    {
        const C f[] = {C{'{'}, C{'}'}, 0};
        auto r = scn::scan<int>(ctx.range(), h::rt(std::basic_string<C>(f)));
        if (!r) {
            return scn::unexpected(r.error());
        }
        v.total += r->value();
        if (v.names) {
            *v.names += "+" + std::to_string(r->value());
        }
        return r->begin();
    }
};
namespace {
using namespace pbt;
using model::Ty;

template <typename C>
struct Punct : std::numpunct<C> {
    C do_decimal_point() const override { return C{','}; }
    C do_thousands_sep() const override { return C{'.'}; }
    std::string do_grouping() const override { return "\3"; }
    std::basic_string<C> do_truename() const override { return {C{'j'}, C{'a'}}; }
    std::basic_string<C> do_falsename() const override { return {C{'n'}, C{'o'}}; }
};
const std::locale& puncts()
{
    static const std::locale l{std::locale{std::locale::classic(), new Punct<char>}, new Punct<wchar_t>};
    return l;
}

std::string g_written;         // what went to the replaced stdout
long g_written_at_first_read;  // how much of it when stdin was first read
struct Cookie {
    std::string text;
    size_t p = 0;
};
ssize_t put(void*, const char* b, size_t n)
{
    g_written.append(b, n);
    return static_cast<ssize_t>(n);
}
ssize_t get(void* v, char* b, size_t n)
{
    auto* c = static_cast<Cookie*>(v);
    if (g_written_at_first_read < 0) {
        g_written_at_first_read = static_cast<long>(g_written.size());
    }
    n = std::min(n, c->text.size() - c->p);
    std::memcpy(b, c->text.data() + c->p, n);
    c->p += n;
    return static_cast<ssize_t>(n);
}
struct Stdout {
    Stdout() : old(stdout)
    {
        g_written.clear();
        g_written_at_first_read = -1;
        cookie_io_functions_t io{};
        io.write = put;
        stdout = ::fopencookie(nullptr, "w", io);
    }
    ~Stdout()
    {
        std::fclose(stdout);
        stdout = old;
    }
    FILE* old;
};
struct Routed {
    Routed(int r, const std::locale* l)
    {
        h::run_route = r;
        h::route_locale = l;
    }
    ~Routed() { h::run_route = h::r_scan; }
};
std::string prompt_text(Src& s)
{
    std::string o;
    for (size_t k = s.len(5, 2, 3); k > 0; --k) {
        o += s.pick({"%s", "Give a number: ", "%", "\n", "%n%d", "{}", "\xc3\xa4", "x", "%%", "\\"});
    }
    return o;
}

template <typename Run>
void compare(Src& s, Ctx& c, int route, int kind, bool w, const std::string& what, uint64_t hsh, Run run)
{
    bool classic = s.flip();
    h::route_prompt = prompt_text(s);
    c.desc([&] { return std::string(h::route_name(route)) + (route == h::r_prompt ? " " + show(h::route_prompt) : "") + ": " + what + " " + h::kind_name(kind) + (w ? " wide" : ""); });
    auto plain = run();
    h::Out o;
    {
        Routed r(route, classic ? &std::locale::classic() : &puncts());
        if (route == h::r_prompt) {
            Stdout out;
            o = run();
        }
        else {
            o = run();
        }
    }
    c.label(h::route_name(route));
    if (plain.ok || plain.code != 1) {
        c.nontrivial(hsh * 31 + static_cast<uint64_t>(route * 10 + kind));
    }
    if (route == h::r_discard) {
        if (o.ok != plain.ok || o.vals.size() != plain.vals.size()) {
            fail("scan gives " + h::show(plain) + ", into discard " + h::show(o));
        }
        o.vals = plain.vals;
    }
    if (o.ok != plain.ok || (o.ok ? o.consumed != plain.consumed || o.vals != plain.vals : o.code != plain.code)) {
        fail("scan gives " + h::show(plain) + ", " + h::route_name(route) + " " + h::show(o));
    }
    if (route == h::r_prompt && g_written != h::route_prompt) {
        fail("prompt wrote " + show(g_written));
    }
}
int some_kind(Src& s, bool w, int route)
{
    if (route == h::r_input || route == h::r_prompt) {
        return h::k_file;
    }
    return static_cast<int>(s.chance(1, 3) ? h::k_view : s.draw(w ? h::k_file : h::k_count));
}
int some_route(Src& s, bool single)
{
    for (;;) {
        int r = 1 + static_cast<int>(s.draw(h::r_count - 1));
        if (single || (r != h::r_value && r != h::r_value_initial && r != h::r_vscan_value)) {
            return r;
        }
    }
}
bool value_route(int r)
{
    return r == h::r_value || r == h::r_value_initial || r == h::r_vscan_value;
}

void single(Src& s, Ctx& c)
{
    int route = some_route(s, true);
    bool w = route != h::r_input && route != h::r_prompt && s.chance(1, 3);
    int kind = some_kind(s, w, route);
    Ty t = static_cast<Ty>(s.draw(model::t_view + 1));
    if (!disp::legal(t, kind, w) || (t == model::t_view && (route == h::r_discard || kind == h::k_file))) {
        throw Discard{};
    }
    size_t buf = 1 + s.draw(12);
    auto ps = gen::format_for(s, {t}, value_route(route) || s.chance(1, 3) ? 0 : 2);
    h::u32s fmt = model::fmt_text(ps), text;
    if (value_route(route) || s.chance(1, 3)) {
        // text made for another specifier is as good
        fmt = U"{}";
    }
    text = gen::text_for(s, ps);
    if (s.chance(1, 4)) {
        text = gen::ws(s, 3) + text;
    }
    if (s.chance(1, 8) && !text.empty()) {
        text.resize(s.draw(text.size()));
    }
    gen::fix_scalars(text);
    compare(s, c, route, kind, w, std::string(disp::ty_name(t)) + " " + show(h::u32v(fmt)) + " text " + show(h::u32v(text)) + " buffer " + std::to_string(buf),
            hash_str(h::utf8(fmt) + "\1" + h::utf8(text)) + static_cast<uint64_t>(t) * 77, [&] { return disp::run(t, kind, w, text, fmt, buf); });
}

void several(Src& s, Ctx& c)
{
    int route = some_route(s, false);
    bool w = route != h::r_input && route != h::r_prompt && s.chance(1, 3);
    int kind = some_kind(s, w, route);
    int tuple = static_cast<int>(s.draw(tuples::count));
    size_t buf = 1 + s.draw(12);
    auto ps = gen::format_for(s, tuples::types(tuple), 2);
    h::u32s fmt = model::fmt_text(ps), text = gen::text_for(s, ps);
    gen::fix_scalars(text);
    compare(s, c, route, kind, w, "list " + std::to_string(tuple) + " " + show(h::u32v(fmt)) + " text " + show(h::u32v(text)) + " buffer " + std::to_string(buf),
            hash_str(h::utf8(fmt) + "\1" + h::utf8(text)) + static_cast<uint64_t>(tuple) * 77, [&] { return tuples::run(tuple, kind, w, text, fmt, buf); });
}

// chrono, regex, container and user-defined types
void others(Src& s, Ctx& c)
{
    struct Row {
        int x;
        const char* fmt;
        const char* text;
    };
    static const Row rows[] = {
        {rob::x_tm, "{:%Y-%m-%d}", "2024-02-29"},     {rob::x_tm, "{:%H:%M:%S}", "23:59:01"},      {rob::x_tmz, "{:%d.%m.%Y %H:%M %z}", "01.12.1999 12:30 +0230"},
        {rob::x_dtc, "{:%a %e %b %H}", "Tue  3 Mar 11"}, {rob::x_tp, "{:%Y-%m-%dT%H:%M:%S}", "1999-12-31T23:59:58.25"}, {rob::x_ymd, "{:%Y-%m-%d}", "1999-12-31"},
        {rob::x_wd, "{:%a}", "Sat"},                  {rob::x_wd, "{}", "Sunday"},                 {rob::x_ymd, "{}", "1999-12-31"},
        {rob::x_regex, "{:/([a-z]+)=(.*)/}", "key=value"}, {rob::x_regex, "{:/[0-9]+/}", "123abc"},   {rob::x_vec, "{}", "[1, 2 ,3]"},
        {rob::x_vec, "{:x}", "[ff, 10]"},             {rob::x_vecstr, "{}", "[ab , cd ]"},         {rob::x_map, "{}", "{1: 2.5, -3:4}"},
        {rob::x_set, "{}", "{3,2, 1}"},               {rob::x_tuple, "{}", "(7, word )"},          {rob::x_nest, "{}", "[[(1,2)],[ ]]"},
        {rob::x_istream, "{}", " 42"},                {rob::x_custom, "{}{}", "1 a 2 b"},          {rob::x_istream, "{}", "x"},
    };
    auto row = s.pick(rows);
    bool single = row.x != rob::x_custom, deflt = std::string(row.fmt) == "{}";
    int route = some_route(s, single && deflt);
    if (row.x == rob::x_regex && (route == h::r_input || route == h::r_prompt || route == h::r_discard)) {
        throw Discard{};
    }
    bool w = route != h::r_input && route != h::r_prompt && (row.x <= rob::x_regex || row.x == rob::x_istream || row.x == rob::x_custom) && s.chance(1, 3);
    int kind = row.x == rob::x_regex ? static_cast<int>(h::k_view) : some_kind(s, w, route);
    size_t buf = 1 + s.draw(12);
    std::string text = row.text;
    if (s.chance(1, 2)) {
        text = s.pick({" ", "\n", "x", "", "-"}) + text;
    }
    for (size_t k = s.len(2, 1, 2); k > 0 && !text.empty(); --k) {
        size_t at = s.draw(text.size());
        switch (s.draw(3)) {
            case 0: text.erase(at, 1); break;
            case 1: text[at] = static_cast<char>(s.range(0x20, 0x7e)); break;
            default: text.insert(at, 1, static_cast<char>(s.range(0x20, 0x7e)));
        }
    }
    text += s.pick({"", " ", ",", "]", "tail"});
    auto t32 = h::ascii32(text.c_str());
    auto f32 = h::ascii32(row.fmt);
    compare(s, c, route, kind, w, std::string(rob::name(row.x)) + " " + row.fmt + " text " + show(text) + " buffer " + std::to_string(buf), hash_str(row.fmt + text) + static_cast<uint64_t>(row.x),
            [&] { return w ? rob::run_wide(row.x, kind, h::wide(t32), h::wide(f32), buf) : rob::run_narrow(row.x, kind, text, row.fmt, buf); });
}

// a session on standard input: prompts are shown before the input is read,
// and each call goes on where the last one stopped
void session(Src& s, Ctx& c)
{
    std::string text;
    for (size_t k = 1 + s.len(8, 3, 4); k > 0; --k) {
        text += s.pick({"12", "-7", " ", "word", "3.5", "\n", ",", "x", "0x1f", "\xc3\xa4", "  ", "9"});
    }
    struct Step {
        int how, what;
        std::string msg;
    };
    std::vector<Step> steps;
    for (size_t k = 1 + s.len(5, 2, 3); k > 0; --k) {
        int how = static_cast<int>(s.draw(4)), what = static_cast<int>(s.draw(4));
        steps.push_back({how, what, how == 1 ? prompt_text(s) : ""});
    }
    size_t buf = 1 + s.draw(9);
    c.desc([&] {
        std::string o = "text " + show(text) + " buffer " + std::to_string(buf);
        for (auto& st : steps) {
            static const char* const hows[] = {" input", " prompt", " scan(stdin)", " scan_value(stdin)"};
            static const char* const whats[] = {"<int>", "<string>", "<int,string> '{},{}'", "<char>"};
            o += std::string(hows[st.how]) + whats[st.what] + show(st.msg);
        }
        return o;
    });
    uint64_t hsh = hash_str(text);
    for (auto& st : steps) {
        hsh = mix(hsh + static_cast<uint64_t>(st.how * 4 + st.what)) + hash_str(st.msg);
    }
    c.nontrivial(hsh);
    std::vector<char> b1(buf);
    h::MemFile ref(text, buf);
    Cookie ck{text};
    cookie_io_functions_t io{};
    io.read = get;
    FILE* in = ::fopencookie(&ck, "r", io);
    std::setvbuf(in, b1.data(), _IOFBF, buf);
    struct In {
        explicit In(FILE* f) : old(stdin), mine(f) { stdin = f; }
        ~In()
        {
            stdin = old;
            std::fclose(mine);
        }
        FILE *old, *mine;
    } redirect(in);
    std::string why;
    std::string expect;
    {
        Stdout out;
        long at_start = 0;
        for (auto& st : steps) {
            auto both = [&](auto ref_result, auto result) {
                std::string a = ref_result ? "ok" : "error " + std::to_string(static_cast<int>(ref_result.error().code()));
                std::string b = result ? "ok" : "error " + std::to_string(static_cast<int>(result.error().code()));
                if (ref_result) {
                    for (auto& x : h::canon_all(ref_result->values())) {
                        a += " " + x;
                    }
                }
                if (result) {
                    for (auto& x : h::canon_all(result->values())) {
                        b += " " + x;
                    }
                    if (result->file() != in) {
                        b += " (file() is not stdin)";
                    }
                }
                if (a != b && why.empty()) {
                    why = "scan(FILE*): " + a + ", here: " + b;
                }
            };
            auto step = [&](auto tag, const std::string& fmt) {
                using T = decltype(tag);
                auto go = [&](auto... t) {
                    auto r0 = scn::scan<decltype(t)...>(ref.get(), h::rt(fmt));
                    g_written_at_first_read = -1;
                    if (st.how == 0) {
                        both(std::move(r0), scn::input<decltype(t)...>(h::rt(fmt)));
                    }
                    else if (st.how == 1) {
                        expect += st.msg;
                        both(std::move(r0), scn::prompt<decltype(t)...>(st.msg.c_str(), h::rt(fmt)));
                        if (g_written_at_first_read >= 0 && g_written_at_first_read != at_start + static_cast<long>(st.msg.size()) && why.empty()) {
                            why = "the prompt was not shown before the input was read";
                        }
                        at_start += static_cast<long>(st.msg.size());
                    }
                    else {
                        if constexpr (sizeof...(t) == 1) {
                            if (st.how == 3 && fmt == "{}") {
                                both(std::move(r0), scn::scan_value<decltype(t)...>(stdin));
                                return;
                            }
                        }
                        both(std::move(r0), scn::scan<decltype(t)...>(stdin, h::rt(fmt)));
                    }
                };
                std::apply(go, T{});
            };
            switch (st.what) {
                case 0: step(std::tuple<int>{}, "{}"); break;
                case 1: step(std::tuple<std::string>{}, "{}"); break;
                case 2: step(std::tuple<int, std::string>{}, "{},{}"); break;
                default: step(std::tuple<char>{}, "{}");
            }
        }
    }
    if (why.empty() && g_written != expect) {
        why = "written: " + show(g_written);
    }
    // what is left in either stream
    if (why.empty()) {
        for (;;) {
            int a = std::getc(ref.get()), b = std::getc(in);
            if (a != b) {
                why = "the streams go on differently";
                break;
            }
            if (a == EOF) {
                break;
            }
        }
    }
    if (!why.empty()) {
        fail(why);
    }
}

template <typename T>
void int_routes(std::string_view valid, std::string_view text, int base, const char* fmt)
{
    h::Exact<char> e(text);
    auto sv = e.view();
    auto a = scn::scan_int<T>(sv, base);
    auto b = scn::scan<T>(sv, h::rt(std::string(fmt)));
    if (a.has_value() != b.has_value() || (a ? a->value() != b->value() || a->begin() != b->begin() : a.error().code() != b.error().code())) {
        fail("scan_int and scan differ");
    }
    h::Exact<char> ev(valid);
    auto v = ev.view();
    auto x = scn::scan_int_exhaustive_valid<T>(v);
    auto y = scn::scan_int<T>(v);
    if (!y || y->value() != x) {
        fail("scan_int_exhaustive_valid gives " + h::canon(x));
    }
}
void ints(Src& s, Ctx& c)
{
    Ty t = static_cast<Ty>(s.draw(10));
    struct Base {
        int base;
        const char* fmt;
        char type;
    };
    static const Base bs[] = {{10, "{}", 'd'}, {10, "{:d}", 'd'}, {0, "{:i}", 'i'}, {2, "{:b}", 'b'}, {8, "{:o}", 'o'}, {16, "{:x}", 'x'}};
    auto b = s.pick(bs);
    auto text = h::utf8(gen::ws(s, 2) + gen::int_text(s, t, b.type));
    if (s.chance(1, 4)) {
        text += s.pick({" ", "x", "0", ".", "-", "_", "\xff"});
    }
    auto v = gen::int_value(s, t);
    v = std::min(std::max(v, model::int_min(t)), model::int_max(t));
    std::string valid = v < 0 ? "-" : "";
    valid += h::utf8(gen::to_base(v < 0 ? -v : v, 10, false, 0));
    c.desc([&] { return std::string(disp::ty_name(t)) + " base " + std::to_string(b.base) + " " + show(text) + ", valid " + show(valid); });
    c.nontrivial(hash_str(text + "\1" + valid) + static_cast<uint64_t>(t * 40 + b.base));
    switch (t) {
        case model::t_schar: return int_routes<signed char>(valid, text, b.base, b.fmt);
        case model::t_short: return int_routes<short>(valid, text, b.base, b.fmt);
        case model::t_int: return int_routes<int>(valid, text, b.base, b.fmt);
        case model::t_long: return int_routes<long>(valid, text, b.base, b.fmt);
        case model::t_llong: return int_routes<long long>(valid, text, b.base, b.fmt);
        case model::t_uchar: return int_routes<unsigned char>(valid, text, b.base, b.fmt);
        case model::t_ushort: return int_routes<unsigned short>(valid, text, b.base, b.fmt);
        case model::t_uint: return int_routes<unsigned>(valid, text, b.base, b.fmt);
        case model::t_ulong: return int_routes<unsigned long>(valid, text, b.base, b.fmt);
        default: return int_routes<unsigned long long>(valid, text, b.base, b.fmt);
    }
}

// initial values: what the scan doesn't touch keeps them
struct Init {
    long total;
    int word;
    bool named;
    c18::Sum make() const
    {
        c18::Sum v;
        v.total = total;
        if (named) {
            v.names = std::make_unique<std::string>("n");
        }
        return v;
    }
};
std::string sum_is(const c18::Sum& v) { return std::to_string(v.total) + (v.names ? "=" + *v.names : ""); }
template <typename C, typename S, typename... Pos>
h::Out with_initial(int route, S&& src, const Init& a, const Init& b, bool by_value, const Pos&... pos)
{
    using X = std::basic_string<C>;
    h::Out o;
    auto done = [&](const auto& r) {
        if (!r) {
            o.code = static_cast<int>(r.error().code());
            return;
        }
        o.ok = true;
        if constexpr (sizeof...(Pos) != 0) {
            o.consumed = static_cast<long>(std::distance(pos..., r->begin()));
        }
    };
    X one{C{'{'}, C{'}'}}, fmt = one + one + one;
    if (by_value) {
        if (route == 0) {
            auto r = scn::scan_value<c18::Sum>(std::forward<S>(src));
            done(r);
            o.vals = {r ? sum_is(r->value()) : ""};
        }
        else {
            auto r = scn::scan_value<c18::Sum>(std::forward<S>(src), a.make());
            done(r);
            o.vals = {r ? sum_is(r->value()) : ""};
        }
        return o;
    }
    auto all = [&](const auto& r) {
        done(r);
        if (r) {
            auto& [x, w, y] = r->values();
            o.vals = {sum_is(x), h::canon(w), sum_is(y)};
        }
    };
    std::tuple<c18::Sum, X, c18::Sum> init{a.make(), X(static_cast<size_t>(a.word), C{'i'}), b.make()};
    switch (route) {
        case 0: all(scn::scan<c18::Sum, X, c18::Sum>(std::forward<S>(src), h::rt(fmt))); break;
        case 1: all(scn::scan<c18::Sum, X, c18::Sum>(std::forward<S>(src), h::rt(fmt), std::move(init))); break;
        case 2: all(scn::scan<c18::Sum, X, c18::Sum>(puncts(), std::forward<S>(src), h::rt(fmt))); break;
        default: all(scn::scan<c18::Sum, X, c18::Sum>(puncts(), std::forward<S>(src), h::rt(fmt), std::move(init)));
    }
    return o;
}
template <typename C>
void initials_impl(Src& s, Ctx& c)
{
    int route = static_cast<int>(s.draw(4)), kind = static_cast<int>(s.draw(sizeof(C) == 1 ? 4 : 3));
    bool by_value = s.chance(1, 3);
    Init a{s.range(-50, 50), static_cast<int>(s.draw(40)), s.flip()}, b{s.range(-50, 50), 0, s.flip()};
    h::u32s text = gen::ws(s, 2);
    auto number = [&] { return s.chance(1, 12) ? gen::word(s, 0, 3) : h::ascii32(std::to_string(s.range(-999, 999))); };
    text += number() + U" " + gen::word(s, 1, 6) + gen::ws(s, 2) + (s.chance(1, 10) ? U"" : U" ") + number();
    if (s.chance(1, 3)) {
        text += U" 5";
    }
    auto x = h::enc<C>(text);
    std::basic_string_view<C> v(x);
    size_t buf = 1 + s.draw(9);
    static const char* const routes[] = {"scan", "scan with initial values", "scan with a locale", "scan with a locale and initial values"};
    static const char* const kinds[] = {"view", "deque", "list", "file"};
    c.desc([&] {
        return std::string(by_value ? "scan_value, " : "") + routes[route] + " from a " + kinds[kind] + " text " + show(h::u32v(text)) + (sizeof(C) > 1 ? " wide" : "") + " initially " + sum_is(a.make()) + ", " + sum_is(b.make());
    });
    // what it is made of
    using X = std::basic_string<C>;
    X one{C{'{'}, C{'}'}}, fmt = one + one + one;
    h::Out ref;
    bool keeps = by_value ? route != 0 : route % 2 == 1;
    auto plus = [&](const Init& i, int n) {
        c18::Sum q = keeps ? i.make() : c18::Sum{};
        q.total += n;
        if (q.names) {
            *q.names += "+" + std::to_string(n);
        }
        return sum_is(q);
    };
    if (by_value) {
        if (auto r = scn::scan<int>(v, h::rt(one))) {
            ref.ok = true;
            ref.consumed = static_cast<long>(r->begin() - v.begin());
            ref.vals = {plus(a, r->value())};
        }
        else {
            ref.code = static_cast<int>(r.error().code());
        }
    }
    else if (auto r = scn::scan<int, X, int>(v, h::rt(fmt))) {
        auto& [p, w, q] = r->values();
        ref.ok = true;
        ref.consumed = static_cast<long>(r->begin() - v.begin());
        ref.vals = {plus(a, p), h::canon(w), plus(b, q)};
    }
    else {
        ref.code = static_cast<int>(r.error().code());
    }
    c.label(keeps ? "initial values" : "no initial values");
    c.nontrivial(hash_str(h::utf8(text)) + static_cast<uint64_t>(route * 8 + kind * 2 + by_value) + static_cast<uint64_t>(a.total * 100 + b.total) * 77);
    h::Out o;
    switch (kind) {
        case 0: o = with_initial<C>(route, v, a, b, by_value, v.begin()); break;
        case 1: {
            std::deque<C> d(x.begin(), x.end());
            o = with_initial<C>(route, d, a, b, by_value, d.begin());
            break;
        }
        case 2: {
            std::list<C> d(x.begin(), x.end());
            o = with_initial<C>(route, d, a, b, by_value, d.begin());
            break;
        }
        default:
            if constexpr (sizeof(C) == 1) {
                h::MemFile f(x, buf);
                o = with_initial<C>(route, f.get(), a, b, by_value);
                o.consumed = ref.consumed;
            }
    }
    if (o.ok != ref.ok || (o.ok ? o.consumed != ref.consumed || o.vals != ref.vals : o.code != ref.code)) {
        fail("expected " + h::show(ref) + ", got " + h::show(o));
    }
}
void initials(Src& s, Ctx& c) { s.chance(1, 3) ? initials_impl<wchar_t>(s, c) : initials_impl<char>(s, c); }
}  // namespace

std::vector<pbt::Sub> pbt::subs()
{
    return {{"single", single, 6}, {"several", several, 5}, {"others", others, 3}, {"session", session, 2}, {"ints", ints, 3}, {"initials", initials, 2}};
}
