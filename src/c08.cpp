#include "fmtparse.h"
#include "tuples.h"
#ifdef C08_CT
#include "c08_chr.h"
#include "c08ct.h"
#endif
// C08: which format strings are accepted.
const char* const pbt::property_id = "C08";
namespace {
using namespace pbt;
using fmtparse::Parsed;
using model::M;
using model::Piece;
using model::Ty;

// argument lists: the fixed families, then single types
constexpr int n_lists = tuples::count + model::t_count;
std::vector<Ty> list_types(int l)
{
    if (l < tuples::count) {
        return tuples::types(l);
    }
    return {static_cast<Ty>(l - tuples::count)};
}
h::Out run(int l, int kind, bool wide, h::u32v text, h::u32v fmt, size_t buf)
{
    if (l < tuples::count) {
        return tuples::run(l, kind, wide, text, fmt, buf);
    }
    return disp::run(static_cast<Ty>(l - tuples::count), kind, wide, text, fmt, buf);
}
bool legal(int l, int kind, bool wide)
{
    for (auto t : list_types(l)) {
        if (!disp::legal(t, kind, wide)) {
            return false;
        }
    }
    return !(wide && kind == h::k_file);
}

// judges a run-time outcome
std::string judge(const Parsed& p, const h::u32s& text, const h::Out& o, bool wide)
{
    if (p.st == Parsed::open) {
        return "";
    }
    auto m = model::match(text, 0, p.pieces, !wide);
    if (p.st == Parsed::invalid) {
        if (o.ok) {
            return "an invalid format (" + p.why + ") was accepted: " + h::show(o);
        }
        if (m.st == M::ok && o.code != 1) {
            return "an invalid format (" + p.why + ") was reported as " + h::show(o);
        }
        return "";
    }
    if (!o.ok && o.code == 1) {
        return "a valid format was rejected";
    }
    if (m.st == M::ok) {
        // values come in argument order
        std::vector<std::string> v(m.vals.size());
        size_t k = 0;
        for (auto& pc : p.pieces) {
            if (pc.k == Piece::field) {
                v[static_cast<size_t>(pc.id)] = m.vals[k++];
            }
        }
        m.vals = v;
    }
    for (auto& pc : p.pieces) {
        if (pc.k == Piece::field && pc.sp.L) {
            return "";  // decided elsewhere
        }
    }
    return model::diff(m, o, wide ? m.end : model::units<char>(text, m.end));
}

h::u32s text_for(Src& s, const Parsed& p)
{
    auto t = gen::text_for(s, p.pieces);
    // often exactly what the format wants
    if (s.chance(3, 4)) {
        for (int tries = 0; tries < 6; ++tries) {
            if (model::match(t, 0, p.pieces, true).st == M::ok) {
                break;
            }
            t = gen::text_for(s, p.pieces);
        }
    }
    return t;
}

void mutate(Src& s, h::u32s& f)
{
    static const char32_t a[] = {'{', '}', ':', '.', '0', '1', '2', '9', 'L', '<', '>', '^', '[', ']', '-', 'd', 'x', 'b', 'i', 'u', 'o', 'O', 'B', 'X', 's', 'c', 'a',
                                 'e', 'f', 'g', 'p', 'r', '?', ' ', '*', '/', '\\', '+', '#', '_', 'q', 'Q', 'z', '!', '%', 0xe4, 0x6f22, 0x2028};
    switch (s.draw(5)) {
        case 3: {
            // a number at the edge of what fits
            static const char32_t* const big[] = {U"2147483646", U"2147483647", U"2147483648", U"2147483649", U"2147483650", U"4294967295",
                                                  U"4294967296", U"4294967297", U"4294967298", U"9223372036854775808", U"18446744073709551616",
                                                  U"18446744073709551617", U"18446744073709551618", U"99999999999999999999999"};
            size_t a = f.find_first_of(U"0123456789");
            if (a != h::u32s::npos && s.chance(2, 3)) {
                for (size_t k = s.draw(3); k; --k) {
                    size_t b = f.find_first_of(U"0123456789", f.find_first_not_of(U"0123456789", a));
                    if (b == h::u32s::npos) {
                        break;
                    }
                    a = b;
                }
                size_t e = f.find_first_not_of(U"0123456789", a);
                f.replace(a, e == h::u32s::npos ? e : e - a, s.pick(big));
            }
            else {
                a = f.find(s.flip() ? U':' : U'{');
                f.insert(a == h::u32s::npos ? 0 : a + 1, s.pick(big));
            }
            break;
        }
        case 0:
            if (!f.empty()) {
                f.erase(s.draw(f.size()), 1);
            }
            break;
        case 1: f.insert(s.draw(f.size() + 1), 1, s.pick(a)); break;
        case 2:
            if (!f.empty()) {
                f[s.draw(f.size())] = s.pick(a);
            }
            break;
        default: {
            if (f.empty()) {
                break;
            }
            size_t i = s.draw(f.size()), n = 1 + s.draw(4);
            f.insert(s.draw(f.size() + 1), f.substr(i, n));
        }
    }
}

void number(Src& s, std::vector<Piece>& ps, size_t n)
{
    std::vector<int> ids;
    for (size_t i = 0; i < n; ++i) {
        ids.insert(ids.begin() + static_cast<long>(s.draw(ids.size() + 1)), static_cast<int>(i));
    }
    size_t k = 0;
    for (auto& p : ps) {
        if (p.k == Piece::field) {
            p.id = ids[k++];
        }
    }
}

h::u32s some_format(Src& s, const std::vector<Ty>& ts)
{
    std::vector<Ty> order = ts;
    auto ps = gen::format_for(s, ts, 2);
    if (s.chance(1, 3)) {
        // explicit numbering: a specifier suits its own argument
        std::vector<Piece> fields;
        for (auto& p : ps) {
            if (p.k == Piece::field) {
                fields.push_back(p);
            }
        }
        number(s, ps, ts.size());
        for (auto& p : ps) {
            if (p.k == Piece::field) {
                int id = p.id;
                p = fields[static_cast<size_t>(id)];
                p.id = id;
            }
        }
    }
    for (auto& p : ps) {
        if (p.k == Piece::field && s.chance(1, 15)) {
            p.sp.L = true;
        }
    }
    return model::fmt_text(ps);
}

void mutated(Src& s, Ctx& c)
{
    int l = static_cast<int>(s.draw(n_lists));
    auto ts = list_types(l);
    bool wide = s.chance(1, 3);
    int kind = s.pick({h::k_view, h::k_view, h::k_string, h::k_vector, h::k_subrange, h::k_deque, h::k_list, h::k_lazy, h::k_file});
    if (!legal(l, kind, wide)) {
        wide = false;
        kind = h::k_view;
    }
    auto fmt = some_format(s, ts);
    for (size_t n = s.weighted({3, 5, 3, 1}); n; --n) {
        mutate(s, fmt);
    }
    auto p = fmtparse::parse(fmt, ts);
    auto text = text_for(s, p);
    c.desc([&] {
        std::string w = "arguments";
        for (auto t : ts) {
            w += std::string(" ") + disp::ty_name(t);
        }
        return w + " format " + pbt::show(h::u32v(fmt)) + " text " + pbt::show(h::u32v(text)) + " source " + h::kind_name(kind) + (wide ? " wide" : "");
    });
    c.label(p.st == Parsed::valid ? "valid" : p.st == Parsed::open ? "open" : "invalid");
    if (p.st == Parsed::invalid) {
        c.label(("invalid: " + p.why).c_str());
    }
    if (p.st != Parsed::open && !fmt.empty()) {
        c.nontrivial(hash_str(h::utf8(fmt)) + static_cast<uint64_t>(l));
    }
    auto d = judge(p, text, run(l, kind, wide, text, fmt, 1 + s.draw(12)), wide);
    if (!d.empty()) {
        fail(d);
    }
}

// every short specifier over the characters specifiers are made of
constexpr char abc[] = "{}:.0159L<>^[]-dxbiuoOBXscaefgpEAFGr?*a/";
constexpr uint64_t nabc = sizeof abc - 1;
void shorts(Src& s, Ctx& c)
{
    uint64_t k = s.draw(nabc * nabc * nabc);
    auto t = static_cast<Ty>(s.draw(model::t_count));
    h::u32s fmt = U"{:";
    // all of lengths 0..3: an index with leading terminators
    for (int i = 0; i < 3; ++i, k /= nabc) {
        fmt += static_cast<char32_t>(abc[k % nabc]);
    }
    size_t cut = s.draw(4);
    fmt.resize(fmt.size() - std::min<size_t>(cut, 3));
    fmt += U'}';
    bool wide = s.chance(1, 4) && t != model::t_char;
    auto p = fmtparse::parse(fmt, {t});
    auto text = text_for(s, p);
    c.desc([&] { return std::string(disp::ty_name(t)) + " format " + pbt::show(h::u32v(fmt)) + " text " + pbt::show(h::u32v(text)) + (wide ? " wide" : ""); });
    c.label(p.st == Parsed::valid ? "valid" : p.st == Parsed::open ? "open" : "invalid");
    if (p.st != Parsed::open) {
        c.nontrivial(hash_str(h::utf8(fmt)) + static_cast<uint64_t>(t));
    }
    auto d = judge(p, text, disp::run(t, h::k_view, wide, text, fmt), wide);
    if (!d.empty()) {
        fail(d);
    }
}

// ill-formed text in a format
void encoding(Src& s, Ctx& c)
{
    bool wide = s.chance(1, 4);
    if (wide) {
        wchar_t bad = s.pick({static_cast<wchar_t>(0x110000), static_cast<wchar_t>(0x110001), static_cast<wchar_t>(0x7fffffff), static_cast<wchar_t>(-1)});
        std::wstring b(1, bad);
        int where = static_cast<int>(s.draw(4));
        std::wstring pre = s.flip() ? L"ab" : L"";
        std::wstring fmt, text = pre + b + L"5";
        switch (where) {
            case 0: fmt = pre + b + L"{}"; break;
            case 1: fmt = pre + L"{}" + b; text = pre + L"5" + b; break;
            case 2: fmt = pre + L"{:" + b + L">}"; break;
            default: fmt = pre + L"{:[" + b + L"5]}"; break;
        }
        c.desc([&] { return "wide format " + pbt::show(std::wstring_view(fmt)) + " text " + pbt::show(std::wstring_view(text)); });
        c.nontrivial(static_cast<uint64_t>(bad) * 16 + static_cast<uint64_t>(where) * 2 + pre.size());
        auto o = where == 3 ? disp::run_wide(model::t_string, h::k_view, text, fmt, 0) : disp::run_wide(model::t_int, h::k_view, text, fmt, 0);
        if (o.ok || o.code != 1) {
            fail("an ill-formed format gave " + h::show(o));
        }
        return;
    }
    // an ill-formed sequence
    std::string b;
    switch (s.draw(5)) {
        case 0: b = std::string(1, static_cast<char>(s.range(0x80, 0xbf))); break;
        case 1: b = std::string(1, static_cast<char>(s.range(0xf8, 0xff))); break;
        case 2: b = h::utf8(static_cast<char32_t>(s.range(0x80, 0x10ffff))); b.pop_back(); break;
        case 3: b = s.pick({std::string("\xc0\x80"), std::string("\xc1\xbf"), std::string("\xe0\x80\x80"), std::string("\xe0\x9f\xbf"), std::string("\xf0\x8f\xbf\xbf"), std::string("\xf0\x80\x80\x80")}); break;
        default: b = s.pick({std::string("\xed\xa0\x80"), std::string("\xed\xbf\xbf"), std::string("\xf4\x90\x80\x80"), std::string("\xf7\xbf\xbf\xbf")});
    }
    if (h::valid_utf8(b)) {
        throw Discard{};
    }
    int where = static_cast<int>(s.draw(6));
    std::string pre = s.flip() ? "ab" : "", fmt, text = pre + b + "5";
    switch (where) {
        case 0: fmt = pre + b + "{}"; break;
        case 1: fmt = pre + "{}" + b; text = pre + "5" + b; break;
        case 2: fmt = pre + "{:" + b + ">}"; break;
        case 3: fmt = pre + "{:[" + b + "5]}"; break;
        case 4: fmt = pre + "{:[!-" + b + "]}"; break;
        default: fmt = pre + "{:" + b + ">>}"; break;
    }
    c.desc([&] { return "format " + pbt::show(fmt) + " text " + pbt::show(text); });
    c.nontrivial(hash_str(fmt));
    int kind = s.pick({h::k_view, h::k_list, h::k_file});
    auto o = disp::run_narrow(where == 3 || where == 4 ? model::t_string : model::t_int, kind, text, fmt, 3);
    if (o.ok || o.code != 1) {
        fail("an ill-formed format gave " + h::show(o));
    }
}

// long argument lists
template <size_t... I>
h::Out many_impl(std::index_sequence<I...>, const std::string& text, const std::string& fmt)
{
    return h::run<std::conditional_t<(I == I), int, int>...>(h::k_view, std::string_view(text), fmt, 0);
}
template <size_t N>
h::Out many_n(const std::string& text, const std::string& fmt)
{
    return many_impl(std::make_index_sequence<N>{}, text, fmt);
}
void many(Src& s, Ctx& c)
{
    static const size_t sizes[] = {3, 10, 11, 12, 13, 17, 63, 64, 65, 70, 129};
    size_t w = s.draw(11), n = sizes[w];
    bool expl = s.flip();
    std::vector<size_t> ids;
    for (size_t i = 0; i < n; ++i) {
        ids.push_back(i);
    }
    if (expl && s.flip()) {
        for (size_t i = n - 1; i > 0; --i) {
            std::swap(ids[i], ids[s.draw(i + 1)]);
        }
    }
    int dmg = static_cast<int>(s.weighted({3, 1, 1, 1, 1}));
    bool valid = true;
    size_t at = s.draw(n);
    switch (dmg) {
        case 1: ids.erase(ids.begin() + static_cast<long>(at)); valid = false; break;            // one missing
        case 2: ids.insert(ids.begin() + static_cast<long>(at), s.draw(n)); valid = false; break;  // one twice
        case 3:
            if (expl) {
                ids[at] = n + s.draw(200);
                valid = false;
            }
            break;
        case 4:
            if (expl) {
                ids[at] = s.draw(n);
                std::vector<bool> seen(n);
                for (auto i : ids) {
                    valid = valid && !seen[i];
                    seen[i] = true;
                }
            }
            break;
        default: break;
    }
    std::string fmt, text;
    std::vector<std::string> want(n);
    for (size_t i = 0; i < ids.size(); ++i) {
        fmt += expl ? "{" + std::to_string(ids[i]) + "}" : "{}";
        text += std::to_string(i * 7) + " ";
        if (ids[i] < n && valid) {
            want[expl ? ids[i] : i] = std::to_string(i * 7);
        }
    }
    c.desc([&] { return std::to_string(n) + " arguments, format " + pbt::show(fmt); });
    c.label(valid ? "valid" : "invalid");
    c.nontrivial(hash_str(fmt) + n);
    h::Out o;
    switch (w) {
        case 0: o = many_n<3>(text, fmt); break;
        case 1: o = many_n<10>(text, fmt); break;
        case 2: o = many_n<11>(text, fmt); break;
        case 3: o = many_n<12>(text, fmt); break;
        case 4: o = many_n<13>(text, fmt); break;
        case 5: o = many_n<17>(text, fmt); break;
        case 6: o = many_n<63>(text, fmt); break;
        case 7: o = many_n<64>(text, fmt); break;
        case 8: o = many_n<65>(text, fmt); break;
        case 9: o = many_n<70>(text, fmt); break;
        default: o = many_n<129>(text, fmt);
    }
    if (!valid) {
        if (o.ok || o.code != 1) {
            fail("an argument list used wrongly gave " + h::show(o));
        }
    }
    else if (!o.ok || o.vals != want) {
        fail("expected all the values, got " + h::show(o));
    }
}

#ifdef C08_CT
// the same format strings at compile time
void compile_time(Src& s, Ctx& c)
{
    auto k = s.draw(c08::n_entries);
    auto& e = c08::entries[k];
    h::u32s fmt;
    std::string n = e.fmt;
    for (size_t i = 0; i < n.size();) {
        char32_t cp = 0;
        i += h::utf8_seq(n, i, &cp);
        fmt += cp;
    }
    auto ts = list_types(e.list);
    auto p = fmtparse::parse(fmt, ts);
    auto text = text_for(s, p);
    bool wide = s.chance(1, 3) && legal(e.list, h::k_view, true);
    c.desc([&] { return "argument list " + std::to_string(e.list) + " format " + pbt::show(n) + " text " + pbt::show(h::u32v(text)) + (wide ? " wide" : ""); });
    c.label(e.narrow ? "accepted" : "rejected");
    c.nontrivial(k);
    if (legal(e.list, h::k_view, true) && e.narrow != e.wide) {
        fail(std::string("the compile-time check ") + (e.narrow ? "accepts" : "rejects") + " the narrow format and not the wide one");
    }
    if (p.st != Parsed::open && e.narrow != (p.st == Parsed::valid)) {
        fail(std::string("the compile-time check ") + (e.narrow ? "accepts an invalid format (" + p.why + ")" : "rejects a valid format"));
    }
    auto o = run(e.list, h::k_view, wide, text, fmt, 0);
    if (e.narrow && !o.ok && o.code == 1) {
        fail("accepted at compile time, an invalid format at run time");
    }
    if (!e.narrow && o.ok) {
        fail("rejected at compile time, accepted at run time: " + h::show(o));
    }
    auto d = judge(p, text, o, wide);
    if (!d.empty()) {
        fail(d);
    }
}
#endif
}  // namespace

std::vector<pbt::Sub> pbt::subs()
{
    return {{"mutated", mutated, 10, 0},
            {"shorts", shorts, 4, nabc * nabc * nabc},
            {"encoding", encoding, 1, 0},
            {"many", many, 1, 0},
#ifdef C08_CT
            {"compile_time", compile_time, 3, c08::n_entries},
            {"compile_time_chrono", c08::chrono_compile_time, 2, c08::chrono_entries()},
#endif
    };
}
