#include "c21.h"
#include "disp.h"
#include "gen.h"
#include <cstdlib>
#include <dlfcn.h>
// C21: build options change nothing but what they name.
const char* const pbt::property_id = "C21";
namespace {
using namespace pbt;
using model::Ty;

struct Module {
    std::string name;
    c21::Run run;
};
// the first is the default build
const std::vector<Module>& modules()
{
    static const std::vector<Module> m = [] {
        std::vector<Module> o;
        const char* e = std::getenv("PBT_MODULES");
        std::string s = e ? e : "";
        for (size_t i = 0; i < s.size();) {
            auto eq = s.find('=', i), end = s.find(';', eq);
            auto path = s.substr(eq + 1, end - eq - 1);
            void* h = ::dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
            auto f = h ? reinterpret_cast<c21::Run>(::dlsym(h, "c21_run")) : nullptr;
            if (!f) {
                std::fprintf(stderr, "%s\n", ::dlerror());
                std::_Exit(3);
            }
            o.push_back({s.substr(i, eq - i), f});
            i = end == std::string::npos ? s.size() : end + 1;
        }
        return o;
    }();
    return m;
}
bool has(h::u32v t, char32_t c) { return t.find(c) != h::u32v::npos; }

struct Case {
    int ty, kind;
    bool wide;
    int base;
    h::u32s text, fmt;
    std::string raw;  // instead of the text, when not empty
};
const char* ty_name(int t)
{
    static const char* a[] = {"int and string", "double, char and unsigned long", "discard and string", "custom type", "scan_int", "tm", "datetime_components", "regex_matches", "vector<int>", "map<int, int>", "istream type"};
    return t >= c21::x_pair ? a[t - c21::x_pair] : disp::ty_name(static_cast<Ty>(t));
}
std::string run_one(const Module& m, const Case& k)
{
    auto n = k.raw.empty() ? h::utf8(k.text) : k.raw;
    auto nf = h::utf8(k.fmt);
    auto w = h::wide(k.text), wf = h::wide(k.fmt);
    h::Exact<char> en(n), ef(nf);
    h::Exact<wchar_t> ew(w), ewf(wf);
    c21::In in{k.ty, k.kind, k.wide, k.base,
               k.wide ? static_cast<const void*>(ew.p.get()) : en.p.get(), k.wide ? w.size() : n.size(),
               k.wide ? static_cast<const void*>(ewf.p.get()) : ef.p.get(), k.wide ? wf.size() : nf.size()};
    return m.run(&in);
}
void check(Ctx& c, const Case& k)
{
    c.desc([&] {
        return std::string(ty_name(k.ty)) + " format " + pbt::show(h::u32v(k.fmt)) + (k.raw.empty() ? " text " + pbt::show(h::u32v(k.text)) : " bytes " + pbt::show(k.raw)) + (k.wide ? " wide" : "") +
               (k.kind == c21::k_view ? " view" : k.kind == c21::k_deque ? " deque" : " file") + (k.ty == c21::x_scan_int ? " base " + std::to_string(k.base) : "");
    });
    auto& ms = modules();
    auto want = run_one(ms[0], k);
    c.label(want.substr(0, 1) == "e" ? "error" : "value");
    if (want != "error 1" && want != "unsupported") {
        c.nontrivial(hash_str(h::utf8(k.text)) ^ hash_str(k.raw) ^ hash_str(h::utf8(k.fmt)) * 31 ^ static_cast<uint64_t>(k.ty * 8 + k.kind * 2 + k.wide));
    }
    bool regex = has(k.fmt, '/');
    for (size_t i = 1; i < ms.size(); ++i) {
        auto& m = ms[i];
        // an invalid regular expression ends a program without exceptions
        if (regex && (m.name == "noexc" || m.name == "minimal" || m.name == "noregex")) {
            continue;
        }
        // localization is what these lack
        if ((m.name == "nolocale" || m.name == "minimal") && has(k.fmt, 'L')) {
            continue;
        }
        // and time zone names and fractions of a second need strings and floats
        if (m.name == "notext" && (k.fmt.find(U"%Z") != h::u32s::npos || k.fmt.find(U"%.") != h::u32s::npos)) {
            continue;
        }
        auto got = run_one(m, k);
        if (got == "unsupported") {
            continue;
        }
        c.label(m.name.c_str());
        if (got != want) {
            fail("the build " + m.name + " gives " + got + ", the default build " + want);
        }
    }
}
Case base_case(Src& s)
{
    Case k;
    k.wide = s.chance(1, 3);
    k.kind = s.pick({c21::k_view, c21::k_view, c21::k_deque, c21::k_file});
    k.base = 10;
    return k;
}
void single(Src& s, Ctx& c)
{
    auto k = base_case(s);
    Ty t = static_cast<Ty>(s.draw(model::t_count));
    if (t == model::t_wchar && !k.wide) {
        t = model::t_char;
    }
    k.ty = t;
    auto sp = gen::spec_for(s, t, s.chance(1, 2));
    k.text = gen::field_text(s, t, sp);
    gen::fix_scalars(k.text);
    k.fmt = sp.field();
    check(c, k);
}
void several(Src& s, Ctx& c)
{
    auto k = base_case(s);
    std::vector<Ty> ts;
    switch (s.draw(3)) {
        case 0:
            k.ty = c21::x_pair;
            ts = {model::t_int, model::t_string};
            break;
        case 1:
            k.ty = c21::x_discard;
            ts = {model::t_int, model::t_string};
            break;
        default:
            k.ty = c21::x_triple;
            ts = {model::t_double, k.wide ? model::t_wchar : model::t_char, model::t_ulong};
    }
    auto ps = gen::format_for(s, ts, 3);
    k.text = gen::text_for(s, ps);
    gen::fix_scalars(k.text);
    k.fmt = model::fmt_text(ps);
    check(c, k);
}
h::u32s of(const char* t)
{
    h::u32s o;
    std::string_view v(t);
    for (size_t i = 0; i < v.size();) {
        char32_t cp = 0;
        i += h::utf8_seq(v, i, &cp);
        o += cp;
    }
    return o;
}
void extras(Src& s, Ctx& c)
{
    auto k = base_case(s);
    static const char* const chr[][2] = {{"%Y", "2024"}, {"%m", "07"}, {"%d", "30"}, {"%H", "23"}, {"%M", "59"}, {"%S", "60"}, {"%y", "68"}, {"%b", "Mar"}, {"%B", "march"}, {"%A", "Sunday"}, {"%a", "tue"}, {"%j", "366"}, {"%F", "1999-12-31"}, {"%T", "01:02:03"}, {"%D", "12/31/99"}, {"%R", "10:20"}, {"%I", "12"}, {"%p", "PM"}, {"%C", "20"}, {"%u", "7"}, {"%w", "0"}, {"%z", "+0230"}, {"%Z", "EET"}, {"%.S", "12.75"}, {"%n", " \n"}, {"%%", "%"}, {"%e", "5"}, {"%EY", "2001"}, {"%Ez", "+2:30"}, {"%s", "1700000000"}, {"%U", "10"}, {"%V", "53"}, {"%G", "2020"}, {"%c", "Sun Mar  1 10:20:30 2020"}, {"%x", "03/01/20"}, {"%X", "10:20:30"}, {"%h", "Dec"}, {"%r", "10:20:30 AM"}};
    k.ty = c21::x_custom + static_cast<int>(s.draw(c21::x_end - c21::x_custom));
    switch (k.ty) {
        case c21::x_custom:
            k.fmt = of(s.pick({"{}", "{:!}", "{:}", "{:d}", "{:!", "a{}b"}));
            k.text = gen::int_text(s, model::t_int, 0) + gen::word(s, 0, 3);
            break;
        case c21::x_scan_int:
            k.wide = false;
            k.base = static_cast<int>(s.range(2, 36));
            k.text = gen::int_text(s, model::t_long, s.pick({'d', 'x', 'o', 'b', 'i'}));
            break;
        case c21::x_tm:
        case c21::x_dtc: {
            k.fmt = U"{:";
            for (size_t n = 1 + s.draw(5); n; --n) {
                auto& e = chr[s.draw(std::size(chr))];
                k.fmt += of(e[0]);
                k.text += of(e[1]);
                if (s.flip()) {
                    auto l = s.pick({U'-', U' ', U'/', U'T', U'\u00e4'});
                    k.fmt += l;
                    k.text += l;
                }
            }
            k.fmt += U'}';
            break;
        }
        case c21::x_regex:
            k.kind = c21::k_view;
            k.fmt = of(s.pick({"{:/([a-c]+)(\\d*)/}", "{:/(a)|(b)/i}", "{:/\\w+?\\b/}", "{:/./}", "{}", "{:/[^ ]*/}"}));
            k.text = of(s.pick({"abc123", "B", "aa bb", "", " x", "abcabc", "\xc3\xa4"}));
            break;
        case c21::x_vector:
        case c21::x_map:
            k.fmt = U"{}";
            k.text = of(s.pick({"[1, 2, 3]", "[]", "[1,2", "{1: 2, 3: 4}", "{}", "{1:2,}", "[ 1 ,2 ]", "1", "{1: 2, 1: 3} x"}));
            break;
        default:
            k.fmt = U"{}";
            k.text = gen::int_text(s, model::t_int, 0) + gen::word(s, 0, 3);
    }
    for (size_t n = s.len(3, 1, 2); n; --n) {
        // small damage
        auto& x = s.flip() ? k.text : k.fmt;
        size_t at = s.draw(x.size() + 1);
        switch (s.draw(3)) {
            case 0: x.insert(at, 1, gen::scalar(s)); break;
            case 1: x.resize(at); break;
            default:
                if (at < x.size()) {
                    x.erase(at, 1);
                }
        }
    }
    gen::fix_scalars(k.text);
    gen::fix_scalars(k.fmt);
    check(c, k);
}
// any format, ill-formed text
void any(Src& s, Ctx& c)
{
    auto k = base_case(s);
    static const char32_t a[] = {'{', '}', '{', '}', ':', '0', '1', '2', '.', '<', '>', '^', '*', 'd', 's', 'x', 'c', 'L', '[', ']', '-', 'a', 'z', ' ', 'i', 'f', 'e', 'g', 'p', 'u', 'b', 'o', '?', '\'', 0xe4, 0x6f22, 0x1f600};
    bool shape = s.chance(3, 4);
    if (shape) {
        k.fmt = U"{:";
    }
    for (size_t n = s.len(10, 3, 4); n; --n) {
        k.fmt += s.pick(a);
    }
    if (shape) {
        k.fmt += U"}";
    }
    for (size_t n = s.len(12, 5, 6); n; --n) {
        k.text += s.chance(1, 8) ? gen::scalar(s) : s.pick(a);
    }
    k.ty = static_cast<int>(s.draw(model::t_count));
    if (k.ty == model::t_wchar) {
        k.ty = model::t_int;
    }
    if (!k.wide && s.chance(1, 3)) {
        k.raw = h::utf8(k.text);
        k.raw.insert(k.raw.begin() + static_cast<long>(s.draw(k.raw.size() + 1)), static_cast<char>(s.range(0x80, 0xff)));
    }
    check(c, k);
}
}  // namespace

std::vector<pbt::Sub> pbt::subs()
{
    return {{"single", single, 6, 0}, {"several", several, 4, 0}, {"extras", extras, 3, 0}, {"any", any, 3, 0}};
}
