// C20: concurrent scans do not interfere.
#include "gen.h"
#include "disp.h"
#include <scn/chrono.h>
#include <scn/istream.h>
#include <scn/ranges.h>
#include <scn/regex.h>
#include <scn/xchar.h>
#include <pthread.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <clocale>
#include <condition_variable>
#include <functional>
#include <istream>
#include <locale>
#include <memory>
#include <mutex>
#include <thread>
const char* const pbt::property_id = "C20";

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define C20_TSAN 1
#endif
#endif

// a type read through operator>>
struct Streamed {
    int a{}, b{};
    friend std::istream& operator>>(std::istream& is, Streamed& x)
    {
        return is >> x.a >> x.b;
    }
};
template <>
struct scn::scanner<Streamed> : scn::istream_scanner {};
// a type that rejects its specifier with a message made on the spot
struct Picky {
    int v{};
};
template <>
struct scn::scanner<Picky> : scn::scanner<int> {
    template <typename ParseCtx>
    auto parse(ParseCtx& pctx) -> typename ParseCtx::iterator
    {
        std::string spec;
        auto it = pctx.begin();
        for (; it != pctx.end() && *it != '}'; ++it) {
            spec += *it;
        }
        if (!spec.empty()) {
            throw scn::scan_format_string_error("this type can't be read with the specifier '" + spec + "', whatever the text is");
        }
        return it;
    }
    template <typename Context>
    auto scan(Picky& x, Context& ctx) const -> scan_expected<typename Context::iterator>
    {
        return scn::scanner<int>::scan(x.v, ctx);
    }
};
template <>
struct h::CanonExt<Picky> {
    static std::string get(const Picky& v) { return std::to_string(v.v); }
};
template <>
struct h::CanonExt<std::vector<int>> {
    static std::string get(const std::vector<int>& v)
    {
        std::string o;
        for (int i : v) {
            o += std::to_string(i) + ",";
        }
        return o;
    }
};
template <>
struct h::CanonExt<Streamed> {
    static std::string get(const Streamed& v) { return std::to_string(v.a) + "/" + std::to_string(v.b); }
};

namespace {
using namespace pbt;
using model::Ty;

// ---- running threads

// Runs fn(0..n-1) on n threads that start together; fails the case when they do
// not finish.
void together(size_t n, std::function<void(size_t)> fn)
{
    struct State {
        std::function<void(size_t)> fn;
        std::atomic<size_t> ready{0};
        std::mutex m;
        std::condition_variable cv;
        size_t done = 0;
    };
    auto st = std::make_shared<State>();
    st->fn = std::move(fn);
    for (size_t i = 0; i < n; ++i) {
        std::thread([st, i, n] {
            st->ready.fetch_add(1);
            while (st->ready.load() < n) {
                std::this_thread::yield();
            }
            st->fn(i);
            std::lock_guard<std::mutex> g(st->m);
            ++st->done;
            st->cv.notify_all();
        }).detach();
    }
    std::unique_lock<std::mutex> l(st->m);
    if (!st->cv.wait_for(l, std::chrono::seconds(45), [&] { return st->done == n; })) {
        fail("threads that scan concurrently did not finish: deadlock?");
    }
}

// calls again(round) until `base` rounds are done; when a failure is being
// reproduced, for longer
template <typename F>
void rounds(Ctx& c, unsigned base, F again)
{
    auto t0 = std::chrono::steady_clock::now();
    for (unsigned i = 0;; ++i) {
        again(i);
        if (i + 1 >= base &&
            (!c.rerun || std::chrono::steady_clock::now() - t0 > std::chrono::milliseconds(2500))) {
            break;
        }
    }
}

// ---- tasks: one scan with everything it needs, giving its outcome in words

struct Task {
    std::string text;
    std::function<std::string()> run;
};

template <typename R>
std::string outcome(const R& r, const std::string& src)
{
    if (!r) {
        return "error " + std::to_string(static_cast<int>(r.error().code())) + " " + r.error().msg();
    }
    std::string o = "rest " + std::to_string(static_cast<size_t>(src.data() + src.size() - r->range().data()));
    for (auto& v : h::canon_all(r->values())) {
        o += " " + pbt::show(v);
    }
    return o;
}
template <typename R>
std::string outcome(const R& r, const std::wstring& src)
{
    if (!r) {
        return "error " + std::to_string(static_cast<int>(r.error().code())) + " " + r.error().msg();
    }
    std::string o = "rest " + std::to_string(static_cast<size_t>(src.data() + src.size() - r->range().data()));
    for (auto& v : h::canon_all(r->values())) {
        o += " " + pbt::show(v);
    }
    return o;
}

std::string tm_words(const std::tm& t)
{
    return std::to_string(t.tm_year) + "," + std::to_string(t.tm_mon) + "," + std::to_string(t.tm_mday) + "," +
           std::to_string(t.tm_hour) + "," + std::to_string(t.tm_min) + "," + std::to_string(t.tm_sec) + "," +
           std::to_string(t.tm_wday) + "," + std::to_string(t.tm_yday);
}

struct Punct : std::numpunct<char> {
    char point, sep;
    std::string grp;
    Punct(char p, char s, std::string g) : point(p), sep(s), grp(std::move(g)) {}
    char do_decimal_point() const override { return point; }
    char do_thousands_sep() const override { return sep; }
    std::string do_grouping() const override { return grp; }
    std::string do_truename() const override { return "ja"; }
    std::string do_falsename() const override { return "nej"; }
};
struct WPunct : std::numpunct<wchar_t> {
    wchar_t point, sep;
    WPunct(wchar_t p, wchar_t s) : point(p), sep(s) {}
    wchar_t do_decimal_point() const override { return point; }
    wchar_t do_thousands_sep() const override { return sep; }
    std::string do_grouping() const override { return "\3"; }
};

// The character caches of the ctype facets are filled racily (by design) in
// headers of the C++ library: fill them here.
void warm(const std::locale& l)
{
    auto& ct = std::use_facet<std::ctype<char>>(l);
    for (int i = 0; i < 256; ++i) {
        (void)ct.narrow(static_cast<char>(i), '\0');
        (void)ct.narrow(static_cast<char>(i), ' ');
        (void)ct.widen(static_cast<char>(i));
    }
    char in[256], out[256];
    for (int i = 0; i < 256; ++i) {
        in[i] = static_cast<char>(i);
    }
    ct.widen(in, in + 256, out);
    ct.narrow(in, in + 256, 0, out);
}

const std::vector<std::locale>& locales()
{
    static const std::vector<std::locale> ls = [] {
        std::vector<std::locale> v;
        v.push_back(std::locale::classic());
        for (auto n : {"de_DE.utf8", "fi_FI.utf8", "fr_FR.utf8"}) {
            try {
                v.emplace_back(n);
            }
            catch (const std::exception&) {
                v.push_back(std::locale::classic());
            }
        }
        v.emplace_back(std::locale(std::locale::classic(), new Punct(',', '.', "\3")), new WPunct(L',', L'.'));
        for (auto& l : v) {
            warm(l);
        }
        return v;
    }();
    return ls;
}

// Text for a number with the L option in locales()[4]
std::string grouped(Src& s)
{
    std::string o;
    for (size_t n = s.range(1, 4); n; --n) {
        if (!o.empty()) {
            o += '.';
        }
        o += std::to_string(100 + s.draw(900));
    }
    if ((s.draw(2) != 0)) {
        o += "," + std::to_string(s.draw(1000000));
    }
    return o;
}

Task field_task(Src& s, bool floats)
{
    static const Ty all[] = {model::t_int,    model::t_ulong,  model::t_llong,  model::t_float,  model::t_double,
                             model::t_ldouble, model::t_string, model::t_xstring, model::t_view,  model::t_bool,
                             model::t_char,   model::t_char32, model::t_ptr};
    static const Ty fl[] = {model::t_float, model::t_double, model::t_ldouble};
    Ty t = floats ? s.pick(fl) : s.pick(all);
    auto sp = gen::spec_for(s, t, true);
    auto text = gen::field_text(s, t, sp);
    bool wide = (s.draw(2) != 0);
    int kind = static_cast<int>(s.draw(h::k_count));
    if (!disp::legal(t, kind, wide)) {
        kind = h::k_view;
        wide = wide && t != model::t_char;
    }
    size_t buf = kind == h::k_file ? static_cast<size_t>(s.range(1, 24)) : 0;
    auto fmt = sp.field();
    Task k;
    k.text = std::string(disp::ty_name(t)) + (wide ? " wide " : " ") + h::kind_name(kind) + " " +
             pbt::show(h::u32v(fmt)) + " of " + pbt::show(h::u32v(text));
    k.run = [=] { return h::show(disp::run(t, kind, wide, text, fmt, buf)); };
    return k;
}

template <typename T>
Task plain(std::shared_ptr<const std::string> src, std::string fmt, const char* name)
{
    return {std::string(name) + " " + pbt::show(fmt) + " of " + pbt::show(*src),
            [=] { return outcome(scn::scan<T>(*src, scn::runtime_format(std::string_view(fmt))), *src); }};
}
template <typename T>
Task wplain(std::shared_ptr<const std::wstring> src, std::wstring fmt, std::string words)
{
    return {std::move(words),
            [=] { return outcome(scn::scan<T>(*src, scn::runtime_format(std::wstring_view(fmt))), *src); }};
}
template <typename T>
Task located(std::shared_ptr<const std::string> src, size_t loc, std::string fmt, const char* name)
{
    return {std::string(name) + " " + pbt::show(fmt) + " of " + pbt::show(*src) + " in locale " + std::to_string(loc),
            [=] {
                return outcome(scn::scan<T>(locales()[loc], *src, scn::runtime_format(std::string_view(fmt))), *src);
            }};
}

Task other_task(Src& s, std::shared_ptr<const std::string> shared)
{
    auto own = [&](std::string x) { return shared ? shared : std::make_shared<const std::string>(std::move(x)); };
    switch (s.draw(13)) {
        case 0: return located<double>(own(grouped(s)), 4, "{:L}", "double");
        case 1: return located<long>(own(grouped(s)), 4, "{:L}", "long");
        case 2: {
            auto x = grouped(s);
            auto w = std::make_shared<const std::wstring>(x.begin(), x.end());
            return {"wide double {:L} of " + pbt::show(x), [=] {
                        return outcome(scn::scan<double>(locales()[4], *w, scn::runtime_format(std::wstring_view(L"{:L}"))), *w);
                    }};
        }
        case 3: {
            static const char* const re[] = {"{:/[a-z]+/}", "{:/([a-z]+)([0-9]+)/}", "{:/(a|b)*c?/}", "{:/[[:alpha:]]+/i}"};
            static const char* const tx[] = {"abc123 x", "ababc", "XyZ9", "hello"};
            std::string f = s.pick(re);
            auto src = own(s.pick(tx));
            if ((s.draw(2) != 0)) {
                return plain<std::string>(src, f, "regex to string");
            }
            return {"regex matches " + f + " of " + pbt::show(*src), [=] {
                        auto r = scn::scan<scn::regex_matches>(*src, scn::runtime_format(std::string_view(f)));
                        if (!r) {
                            return "error " + std::to_string(static_cast<int>(r.error().code()));
                        }
                        std::string o = "matches";
                        for (auto& m : r->value()) {
                            o += m ? " " + pbt::show(m->get()) : " none";
                        }
                        return o;
                    }};
        }
        case 4: {
            char b[40];
            std::snprintf(b, sizeof b, "%d-%02d-%02d %02d:%02d:%02d", static_cast<int>(s.range(1, 9999)),
                          static_cast<int>(s.range(1, 12)), static_cast<int>(s.range(1, 31)), static_cast<int>(s.draw(24)),
                          static_cast<int>(s.draw(60)), static_cast<int>(s.draw(60)));
            auto src = own(b);
            return {std::string("tm of ") + pbt::show(*src), [=] {
                        auto r = scn::scan<std::tm>(*src, "{:%Y-%m-%d %H:%M:%S}");
                        return r ? tm_words(r->value()) : "error " + std::to_string(static_cast<int>(r.error().code()));
                    }};
        }
        case 5: {
            static const char* const days[] = {"Monday", "Montag", "maanantaina", "lundi", "Freitag"};
            auto src = own(s.pick(days));
            size_t l = s.draw(4);
            return {"localized weekday of " + pbt::show(*src) + " in locale " + std::to_string(l), [=] {
                        auto r = scn::scan<std::tm>(locales()[l], *src, "{:L%A}");
                        return r ? tm_words(r->value()) : "error " + std::to_string(static_cast<int>(r.error().code()));
                    }};
        }
        case 6: {
            auto src = own(std::to_string(s.draw(0)));
            int base = static_cast<int>(s.range(2, 36));
            return {"scan_int of " + pbt::show(*src) + " base " + std::to_string(base),
                    [=] { return outcome(scn::scan_int<long>(*src, base), *src); }};
        }
        case 7: {
            // floating-point values out of range, and of many digits
            static const char* const tx[] = {"1e999", "1e-999", "3.25", "0x1.8p3", "123456789012345678901234567890.5",
                                             "-1e-400", "4.9e-324", "inf", "1.5e4000"};
            std::string x = s.pick(tx);
            if (shared) {
                x = *shared;
            }
            auto w = std::make_shared<const std::wstring>(x.begin(), x.end());
            switch (s.draw(3)) {
                case 0: return wplain<long double>(w, L"{}", "wide long double of " + x);
                case 1: return wplain<double>(w, L"{}", "wide double of " + x);
                default: return plain<double>(own(x), "{}", "double");
            }
        }
        case 9: return plain<std::vector<int>>(own("[1, " + std::to_string(s.draw(1000)) + ", -3] x"), "{}", "vector");
        case 11: {
            static const char* const sp[] = {"{:abcdef}", "{:q}", "{}", "{:a rather long specifier for a type}", "{:!}"};
            return plain<Picky>(own("42 rest"), s.pick(sp), "picky type");
        }
        case 10: return plain<Streamed>(own(std::to_string(s.draw(1000)) + " 17x"), "{}", "istream type");
        case 8: {
            auto src = own("12 ab 3.5");
            return {"int, string, double of " + pbt::show(*src),
                    [=] { return outcome(scn::scan<int, std::string, double>(*src, "{} {} {}"), *src); }};
        }
        default: {
            auto src = own(std::to_string(s.draw(0)) + " tail");
            return plain<unsigned long>(src, "{:.5}", "unsigned long");
        }
    }
}

// the C locale of the process, changed for a case
class CLocale {
public:
    explicit CLocale(const char* n)
    {
        if (n) {
            std::setlocale(LC_ALL, n);
        }
        m_name = std::setlocale(LC_ALL, nullptr);
    }
    ~CLocale() { std::setlocale(LC_ALL, "C"); }
    void check() const
    {
        std::string now = std::setlocale(LC_ALL, nullptr);
        if (now != m_name) {
            fail("concurrent scans left the C locale of the process at " + now + ", it was " + m_name);
        }
    }

private:
    std::string m_name;
};

void run_tasks(Src& s, Ctx& c, const std::vector<std::vector<Task>>& tasks)
{
    (void)locales();
    bool cold = s.draw(4) == 0;
    const char* cl = s.draw(3) == 0 ? nullptr : (s.draw(2) != 0) ? "de_DE.utf8" : "fr_FR.utf8";
    c.desc([&] {
        std::string o = std::to_string(tasks.size()) + " threads, C locale " + (cl ? cl : "C") + (cold ? ", cold" : "");
        for (size_t i = 0; i < tasks.size(); ++i) {
            for (auto& t : tasks[i]) {
                o += "; " + std::to_string(i) + ": " + t.text;
            }
        }
        return o;
    });
    CLocale loc(cl);
    auto one = [](const Task& t) -> std::string {
        try {
            return t.run();
        }
        catch (const Fail& f) {
            return "check failed: " + f.msg;
        }
        catch (const std::exception& e) {
            return std::string("exception: ") + e.what();
        }
    };
    std::vector<std::vector<std::string>> expected(tasks.size());
    auto alone = [&] {
        for (size_t i = 0; i < tasks.size(); ++i) {
            expected[i].clear();
            for (auto& t : tasks[i]) {
                expected[i].push_back(one(t));
            }
        }
    };
    if (!cold) {
        alone();
    }
    rounds(c, 2, [&](unsigned) {
        // per thread: outcomes of each repetition
        std::vector<std::vector<std::vector<std::string>>> got(tasks.size());
        together(tasks.size(), [&](size_t i) {
            for (int rep = 0; rep < 6; ++rep) {
                got[i].emplace_back();
                for (auto& t : tasks[i]) {
                    got[i].back().push_back(one(t));
                }
            }
        });
        loc.check();
        if (cold && expected[0].empty()) {
            alone();
        }
        for (size_t i = 0; i < tasks.size(); ++i) {
            for (auto& rep : got[i]) {
                for (size_t k = 0; k < rep.size(); ++k) {
                    if (rep[k] != expected[i][k]) {
                        fail("a scan with others running concurrently gives " + rep[k] + ", alone " + expected[i][k] +
                             " (" + tasks[i][k].text + ")");
                    }
                }
            }
        }
    });
    uint64_t key = cold;
    for (auto& v : tasks) {
        for (auto& t : v) {
            key = mix(key ^ hash_str(t.text));
        }
    }
    c.nontrivial(key);
}

// threads with scans of their own
void independent(Src& s, Ctx& c)
{
    std::vector<std::vector<Task>> tasks(s.range(2, 4));
    bool floats = s.draw(3) == 0;
    for (auto& v : tasks) {
        for (size_t n = s.range(1, 4); n; --n) {
            v.push_back(s.draw(3) ? field_task(s, floats) : other_task(s, nullptr));
        }
    }
    c.label("independent");
    run_tasks(s, c, tasks);
}

// threads that scan one immutable string
void shared_source(Src& s, Ctx& c)
{
    static const char* const tx[] = {"12 ab 3.5", "1.234,5", "abc123 x", "3.25e2", "1e999", "2024-01-02 03:04:05", "Montag", "ab"};
    auto src = std::make_shared<const std::string>(s.pick(tx));
    std::vector<std::vector<Task>> tasks(s.range(2, 4));
    for (auto& v : tasks) {
        for (size_t n = s.range(1, 4); n; --n) {
            v.push_back(other_task(s, src));
        }
    }
    c.label("one source");
    run_tasks(s, c, tasks);
}

#ifndef C20_TSAN
// ---- one FILE, several threads

struct SharedFile {
    FILE* f = nullptr;
    std::string mem;
    std::vector<char> buf;
    SharedFile(int kind, std::string text, size_t bufsize) : mem(std::move(text)), buf(bufsize ? bufsize : 1)
    {
        if (kind == 0) {
            f = ::fmemopen(mem.data(), mem.size(), "r");
        }
        else if (kind == 1) {
            f = std::tmpfile();
            if (f) {
                std::fwrite(mem.data(), 1, mem.size(), f);
                std::fflush(f);
                std::rewind(f);
            }
        }
        else {
            int fd[2];
            if (mem.size() < 60000 && ::pipe(fd) == 0) {
                ssize_t w = ::write(fd[1], mem.data(), mem.size());
                (void)w;
                ::close(fd[1]);
                f = ::fdopen(fd[0], "r");
            }
        }
        if (!f) {
            std::perror("C20 stream");
            std::abort();
        }
        if (kind != 1) {
            if (bufsize == 0) {
                std::setvbuf(f, nullptr, _IONBF, 0);
            }
            else {
                std::setvbuf(f, buf.data(), _IOFBF, buf.size());
            }
        }
    }
    ~SharedFile() { std::fclose(f); }
};

enum Op { o_scan, o_pair, o_string, o_fscanf, o_fgets, o_fail_literal, o_fail_value, o_fail_last, o_input, o_value, o_ops };
const char* const op_name[] = {"scan int", "scan int, int", "scan string", "fscanf", "fgets", "scan failing on a literal",
                               "scan failing on a value", "scan failing late", "input", "scan_value"};

void shared_file(Src& s, Ctx& c)
{
    size_t nthreads = s.range(2, 5);
    size_t ntok = s.range(20, 120);
    int digits = static_cast<int>(s.range(1, 9));
    bool lines = (s.draw(2) != 0);
    int kind = static_cast<int>(s.draw(3));
    size_t bufsize = (s.draw(2) != 0) ? s.draw(12) : s.range(12, 200);
    std::vector<std::vector<Op>> ops(nthreads);
    uint64_t key = ntok * 1000 + digits * 10 + lines;
    for (auto& v : ops) {
        bool progress = false;
        for (size_t n = s.range(1, 4); n; --n) {
            auto p = static_cast<Op>(s.draw(o_ops));
            progress = progress || !(p == o_fail_literal || p == o_fail_value || p == o_fail_last || (p == o_fgets && !lines));
            v.push_back(p);
            key = mix(key ^ p);
        }
        if (!progress) {
            v.push_back(o_scan);
        }
        key = mix(key + 99);
    }
    c.desc([&] {
        std::string o = std::to_string(ntok) + " numbers of " + std::to_string(digits) + " digits in a " +
                        (kind == 0 ? "memory" : kind == 1 ? "temporary" : "pipe") + " file with a buffer of " +
                        std::to_string(bufsize) + (lines ? ", one per line" : "");
        for (size_t i = 0; i < nthreads; ++i) {
            o += "; thread " + std::to_string(i) + ":";
            for (auto p : ops[i]) {
                o += std::string(" ") + op_name[p];
            }
        }
        return o;
    });
    std::string text;
    for (size_t i = 0; i < ntok; ++i) {
        char b[24];
        std::snprintf(b, sizeof b, "7%0*zu", digits < 3 ? 3 : digits, i);
        text += b;
        text += lines ? '\n' : ' ';
    }
    auto index = [&](long v) -> long {
        long base = 7;
        for (int i = 0; i < (digits < 3 ? 3 : digits); ++i) {
            base *= 10;
        }
        return v - base;
    };
    FILE* const real_stdin = stdin;
    rounds(c, 2, [&](unsigned) {
        SharedFile sf(kind, text, bufsize);
        FILE* const f = sf.f;
        stdin = f;
        std::vector<std::vector<long>> got(nthreads);
        std::vector<std::string> err(nthreads);
        std::atomic<bool> eof{false};
        together(nthreads, [&](size_t t) {
            auto& g = got[t];
            for (size_t i = 0; !eof && i < 4000 && err[t].empty(); ++i) {
                switch (ops[t][i % ops[t].size()]) {
                    case o_scan: {
                        auto r = scn::scan<long>(f, "{}");
                        if (r) {
                            g.push_back(r->value());
                        }
                        else if (r.error().code() == scn::scan_error::end_of_input) {
                            eof = true;
                        }
                        else {
                            err[t] = "a scan of a number failed";
                        }
                        break;
                    }
                    case o_value: {
                        auto r = scn::scan_value<long>(f);
                        if (r) {
                            g.push_back(r->value());
                        }
                        else if (r.error().code() == scn::scan_error::end_of_input) {
                            eof = true;
                        }
                        else {
                            err[t] = "scan_value of a number failed";
                        }
                        break;
                    }
                    case o_input: {
                        auto r = scn::input<long>("{}");
                        if (r) {
                            g.push_back(r->value());
                        }
                        else if (r.error().code() == scn::scan_error::end_of_input) {
                            eof = true;
                        }
                        else {
                            err[t] = "input of a number failed";
                        }
                        break;
                    }
                    case o_pair: {
                        auto r = scn::scan<long, long>(f, "{} {}");
                        if (r) {
                            auto [a, b] = r->values();
                            g.push_back(a);
                            g.push_back(b);
                            if (b != a + 1) {
                                err[t] = "one scan of two numbers read " + std::to_string(a) + " and " + std::to_string(b) +
                                         ", which are not next to each other";
                            }
                        }
                        else if (r.error().code() == scn::scan_error::end_of_input) {
                            // one number may be left: read it
                            auto r2 = scn::scan<long>(f, "{}");
                            if (r2) {
                                g.push_back(r2->value());
                            }
                            else {
                                eof = true;
                            }
                        }
                        else {
                            err[t] = "a scan of two numbers failed";
                        }
                        break;
                    }
                    case o_string: {
                        auto r = scn::scan<std::string>(f, "{}");
                        if (r) {
                            g.push_back(std::atol(r->value().c_str()));
                        }
                        else if (r.error().code() == scn::scan_error::end_of_input) {
                            eof = true;
                        }
                        else {
                            err[t] = "a scan of a word failed";
                        }
                        break;
                    }
                    case o_fscanf: {
                        long v = 0;
                        int n = std::fscanf(f, "%ld", &v);
                        if (n == 1) {
                            g.push_back(v);
                        }
                        else if (n == EOF) {
                            eof = true;
                        }
                        else {
                            err[t] = "fscanf failed";
                        }
                        break;
                    }
                    case o_fgets: {
                        if (!lines) {
                            break;
                        }
                        char b[64];
                        if (!std::fgets(b, sizeof b, f)) {
                            eof = true;
                        }
                        else if (b[0] != '\n') {
                            g.push_back(std::atol(b));
                        }
                        break;
                    }
                    case o_fail_literal: {
                        auto r = scn::scan<long>(f, "{}zz");
                        if (r) {
                            err[t] = "a literal that is not there matched";
                        }
                        break;
                    }
                    case o_fail_value: {
                        auto r = scn::scan<long, scn::regex_matches>(f, "{} {:/[a-z]+/}");
                        if (r) {
                            err[t] = "a regex that does not match matched";
                        }
                        break;
                    }
                    default: {
                        auto r = scn::scan<long, long, std::string, bool>(f, "{} {} {} {}");
                        if (r) {
                            err[t] = "a number was read as a bool";
                        }
                        break;
                    }
                }
            }
        });
        stdin = real_stdin;
        std::vector<int> seen(ntok);
        for (size_t t = 0; t < nthreads; ++t) {
            if (!err[t].empty()) {
                fail("thread " + std::to_string(t) + ": " + err[t]);
            }
            long last = -1;
            for (long v : got[t]) {
                long i = index(v);
                if (i < 0 || i >= static_cast<long>(ntok)) {
                    fail("a thread read " + std::to_string(v) + ", which is not in the file");
                }
                if (i <= last) {
                    fail("a thread read " + std::to_string(v) + " after a later number");
                }
                last = i;
                ++seen[static_cast<size_t>(i)];
            }
        }
        for (size_t i = 0; i < ntok; ++i) {
            if (seen[i] > 1) {
                fail("number " + std::to_string(i) + " was read " + std::to_string(seen[i]) + " times");
            }
            // whatever stopped the threads, everything was read
            if (!seen[i]) {
                fail("number " + std::to_string(i) + " was read by nobody");
            }
        }
    });
    c.label(lines ? "shared file, lines" : "shared file");
    c.nontrivial(key);
}

// ---- the lock of the FILE: held during a scan, free after it

struct Probe {
    int tries = 0, free = 0;
    FILE* f = nullptr;
};
Probe* g_probe = nullptr;
// 0: another thread could lock the file now
int try_from_elsewhere(FILE* f)
{
    int r = -1;
    std::thread([&] {
        r = ::ftrylockfile(f);
        if (r == 0) {
            ::funlockfile(f);
        }
    }).join();
    return r;
}

struct Prober {
    std::string text;
    size_t pos = 0, chunk = 1;
    unsigned every = 1, n = 0;
};
ssize_t prober_read(void* p, char* buf, size_t n)
{
    auto& k = *static_cast<Prober*>(p);
    if (g_probe && k.n++ % k.every == 0 && g_probe->tries < 8) {
        ++g_probe->tries;
        if (try_from_elsewhere(g_probe->f) == 0) {
            ++g_probe->free;
        }
    }
    size_t got = std::min({n, k.chunk, k.text.size() - k.pos});
    std::memcpy(buf, k.text.data() + k.pos, got);
    k.pos += got;
    return static_cast<ssize_t>(got);
}
}  // namespace

// a type whose scanner looks at the lock, and may throw or fail
struct Peeker {
    long v{};
};
struct Thrown {};
static int peeker_mode = 0;
template <>
struct scn::scanner<Peeker> : scn::scanner<long> {
    template <typename Context>
    auto scan(Peeker& val, Context& ctx) const -> scan_expected<typename Context::iterator>
    {
        auto look = [] {
            if (g_probe) {
                ++g_probe->tries;
                if (try_from_elsewhere(g_probe->f) == 0) {
                    ++g_probe->free;
                }
            }
        };
        look();
        auto r = scn::scanner<long>::scan(val.v, ctx);
        look();
        if (peeker_mode == 1) {
            throw Thrown{};
        }
        if (peeker_mode == 2) {
            return scn::unexpected(scn::scan_error(scn::scan_error::invalid_scanned_value, "no"));
        }
        return r;
    }
};

namespace {
template <typename... Ts>
int file_scan(FILE* f, const std::string& fmt)
{
    try {
        auto r = scn::scan<Ts...>(f, scn::runtime_format(std::string_view(fmt)));
        return r ? 0 : 1;
    }
    catch (const Thrown&) {
        return 2;
    }
}

void lock_held(Src& s, Ctx& c)
{
    Prober k;
    k.chunk = s.range(1, 20);
    k.every = static_cast<unsigned>(s.range(1, 4));
    bool user = s.draw(3) == 0;
    Ty t = s.pick({model::t_int, model::t_double, model::t_string, model::t_xstring, model::t_char, model::t_char32, model::t_ptr, model::t_bool});
    Ty t2 = s.pick({model::t_int, model::t_string});
    std::string fmt;
    peeker_mode = 0;
    if (user) {
        peeker_mode = static_cast<int>(s.draw(3));
        auto sp = gen::spec_for(s, model::t_long, true);
        fmt = h::utf8(sp.field());
        k.text = h::utf8(gen::field_text(s, model::t_long, sp));
    }
    else {
        std::vector<Ty> ts{t, t2};
        auto ps = gen::format_for(s, ts, 2);
        fmt = h::utf8(model::fmt_text(ps));
        k.text = h::utf8(gen::text_for(s, ps));
        if (s.draw(4) == 0) {
            fmt += s.pick({"{", "}", "{:zz}", "{:/a/}", " x"});
        }
    }
    c.desc([&] {
        return (user ? std::string("user-defined type, mode ") + std::to_string(peeker_mode)
                     : std::string(disp::ty_name(t)) + ", " + disp::ty_name(t2)) +
               " format " + pbt::show(fmt) + " text " + pbt::show(k.text) + " in reads of " + std::to_string(k.chunk);
    });
    cookie_io_functions_t io{};
    io.read = prober_read;
    FILE* f = ::fopencookie(&k, "r", io);
    if (!f) {
        std::abort();
    }
    struct Close {
        FILE* f;
        ~Close() { std::fclose(f); }
    } close{f};
    std::vector<char> buf(s.range(1, 32));
    std::setvbuf(f, buf.data(), _IOFBF, buf.size());
    Probe p;
    p.f = f;
    g_probe = &p;
    int r = -1;
    auto two = [&](auto tag) {
        using T = typename decltype(tag)::type;
        r = t2 == model::t_int ? file_scan<T, int>(f, fmt) : file_scan<T, std::string>(f, fmt);
    };
    if (user) {
        r = file_scan<Peeker>(f, fmt);
    }
    else {
        switch (t) {
            case model::t_int: two(std::common_type<int>{}); break;
            case model::t_double: two(std::common_type<double>{}); break;
            case model::t_string: two(std::common_type<std::string>{}); break;
            case model::t_xstring: two(std::common_type<std::wstring>{}); break;
            case model::t_char: two(std::common_type<char>{}); break;
            case model::t_char32: two(std::common_type<char32_t>{}); break;
            case model::t_ptr: two(std::common_type<void*>{}); break;
            default: two(std::common_type<bool>{}); break;
        }
    }
    g_probe = nullptr;
    c.label(r == 0 ? "lock, success" : r == 1 ? "lock, failure" : "lock, exception");
    if (p.free) {
        fail("another thread could lock the file while it was being scanned");
    }
    if (try_from_elsewhere(f) != 0) {
        fail("the file is still locked after the scan");
    }
    if (p.tries) {
        c.nontrivial(hash_str(fmt) * 31 ^ hash_str(k.text) ^ k.chunk);
    }
}
#endif
}  // namespace

std::vector<pbt::Sub> pbt::subs()
{
    return {
        {"independent", independent, 4, 0},
        {"shared_source", shared_source, 2, 0},
#ifndef C20_TSAN
        {"shared_file", shared_file, 4, 0},
        {"lock_held", lock_held, 6, 0},
#endif
    };
}
