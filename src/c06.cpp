#include "gen.h"
// C06: scanning a FILE* keeps its position in step, over whole histories that
// mix scans with C stdio and iostream access to the same stream.
#include <ext/stdio_sync_filebuf.h>
#include <sys/types.h>
#include <unistd.h>
#include <cerrno>
#include <istream>
#include <sstream>
const char* const pbt::property_id = "C06";
namespace {
using namespace pbt;
using model::Ty;

// ---- streams

enum FKind { f_mem, f_tmp, f_pipe, f_cookie, f_kinds };
const char* const fkind_name[] = {"fmemopen", "temporary file", "pipe", "cookie with short reads"};

struct Cookie {
    std::string text;
    size_t pos = 0;
    size_t chunk = 1;           // a read returns at most this much
    long fail_at = -1;          // one read at this offset fails
    bool fail_once = false;
    long limit = -1;            // end of file here until lifted
};
ssize_t cookie_read(void* p, char* buf, size_t n)
{
    auto& k = *static_cast<Cookie*>(p);
    size_t end = k.text.size();
    if (k.fail_at >= 0 && k.pos == static_cast<size_t>(k.fail_at)) {
        if (k.fail_once) {
            k.fail_at = -1;
        }
        errno = EIO;
        return -1;
    }
    if (k.fail_at >= 0 && k.pos < static_cast<size_t>(k.fail_at)) {
        end = static_cast<size_t>(k.fail_at);
    }
    if (k.limit >= 0) {
        end = std::min(end, static_cast<size_t>(k.limit));
    }
    size_t got = std::min({n, k.chunk, end > k.pos ? end - k.pos : 0});
    std::memcpy(buf, k.text.data() + k.pos, got);
    k.pos += got;
    return static_cast<ssize_t>(got);
}
int cookie_seek(void* p, off64_t* off, int whence)
{
    auto& k = *static_cast<Cookie*>(p);
    off64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? static_cast<off64_t>(k.pos) : static_cast<off64_t>(k.text.size());
    base += *off;
    if (base < 0 || base > static_cast<off64_t>(k.text.size())) {
        errno = EINVAL;
        return -1;
    }
    k.pos = static_cast<size_t>(base);
    *off = base;
    return 0;
}

struct Stream {
    FILE* f = nullptr;
    std::string mem;
    std::vector<char> buf;
    Cookie cookie;
    bool seekable = true;
    Stream(FKind k, const std::string& text, int mode, size_t bufsize)
    {
        mem = text;
        cookie.text = text;
        switch (k) {
            case f_mem:
                f = text.empty() ? std::fopen("/dev/null", "r") : ::fmemopen(mem.data(), mem.size(), "r");
                break;
            case f_tmp: {
                f = std::tmpfile();
                if (f) {
                    std::fwrite(text.data(), 1, text.size(), f);
                    std::fflush(f);
                    std::rewind(f);
                }
                break;
            }
            case f_pipe: {
                int fd[2];
                if (::pipe(fd) == 0) {
                    ssize_t w = ::write(fd[1], text.data(), text.size());
                    (void)w;
                    ::close(fd[1]);
                    f = ::fdopen(fd[0], "r");
                }
                seekable = false;
                break;
            }
            default: {
                cookie_io_functions_t io{};
                io.read = cookie_read;
                io.seek = cookie_seek;
                f = ::fopencookie(&cookie, "r", io);
            }
        }
        if (!f) {
            std::perror("C06 stream");
            std::abort();
        }
        buf.resize(bufsize ? bufsize : 1);
        if (k != f_tmp) {
            if (mode == 0) {
                std::setvbuf(f, nullptr, _IONBF, 0);
            }
            else if (mode == 1) {
                std::setvbuf(f, buf.data(), _IOFBF, buf.size());
            }
            else if (mode == 2) {
                std::setvbuf(f, buf.data(), _IOLBF, buf.size());
            }
        }
    }
    Stream(const Stream&) = delete;
    ~Stream() { std::fclose(f); }
};

// ---- scans: on the stream, and on the text that is left

constexpr int n_tuples = 12;
std::vector<Ty> tuple_types(int t)
{
    using namespace model;
    switch (t) {
        case 0: return {t_int};
        case 1: return {t_string};
        case 2: return {t_double};
        case 3: return {t_char};
        case 4: return {t_char32};
        case 5: return {t_int, t_string};
        case 6: return {t_string, t_string, t_char};
        case 7: return {};
        case 8: return {t_ptr};
        case 9: return {t_bool, t_ushort};
        case 10: return {t_xstring};
        default: return {t_int, t_int, t_int};
    }
}
template <typename... Ts>
h::Out on_file(FILE* f, const std::string& fmt, FILE** back)
{
    h::Out o;
    auto r = scn::scan<Ts...>(f, h::rt(fmt));
    if (!r) {
        o.code = static_cast<int>(r.error().code());
    }
    else {
        o.ok = true;
        o.vals = h::canon_all(r->values());
        *back = r->file();
    }
    return o;
}
template <typename T>
h::Out value_on_file(FILE* f)
{
    h::Out o;
    auto r = scn::scan_value<T>(f);
    if (!r) {
        o.code = static_cast<int>(r.error().code());
    }
    else {
        o.ok = true;
        o.vals = {h::canon(r->value())};
    }
    return o;
}
template <typename... Ts>
h::Out both(FILE* f, const std::string& rest, const std::string& fmt, bool by_value, h::Out& ref, FILE** back)
{
    *back = f;
    ref = h::run<Ts...>(h::k_view, std::string_view(rest), fmt, 0);
    if constexpr (sizeof...(Ts) == 1) {
        if (by_value) {
            return value_on_file<Ts...>(f);
        }
    }
    return on_file<Ts...>(f, fmt, back);
}
h::Out scan_both(int tuple, FILE* f, const std::string& rest, const std::string& fmt, bool by_value, h::Out& ref, FILE** back)
{
    using S = std::string;
    switch (tuple) {
        case 0: return both<int>(f, rest, fmt, by_value, ref, back);
        case 1: return both<S>(f, rest, fmt, by_value, ref, back);
        case 2: return both<double>(f, rest, fmt, by_value, ref, back);
        case 3: return both<char>(f, rest, fmt, by_value, ref, back);
        case 4: return both<char32_t>(f, rest, fmt, by_value, ref, back);
        case 5: return both<int, S>(f, rest, fmt, by_value, ref, back);
        case 6: return both<S, S, char>(f, rest, fmt, by_value, ref, back);
        case 7: return both<>(f, rest, fmt, by_value, ref, back);
        case 8: return both<void*>(f, rest, fmt, by_value, ref, back);
        case 9: return both<bool, unsigned short>(f, rest, fmt, by_value, ref, back);
        case 10: return both<std::wstring>(f, rest, fmt, by_value, ref, back);
        default: return both<int, int, int>(f, rest, fmt, by_value, ref, back);
    }
}

struct Plan {
    int tuple;
    std::string fmt;
    bool by_value;
};

h::u32s plan(Src& s, Plan& p)
{
    p.tuple = static_cast<int>(s.draw(n_tuples));
    auto ts = tuple_types(p.tuple);
    p.by_value = ts.size() == 1 && s.chance(1, 4);
    auto ps = gen::format_for(s, ts, 2);
    if (p.by_value) {
        ps.clear();
        model::Piece pc;
        pc.k = model::Piece::field;
        pc.t = ts[0];
        ps.push_back(pc);
    }
    p.fmt = h::utf8(model::fmt_text(ps));
    auto text = gen::text_for(s, ps);
    if (s.chance(1, 3)) {
        // long enough to span several buffers
        text = gen::ws(s, 40) + text;
    }
    if (s.chance(1, 6)) {
        text += h::u32s(s.draw(60), s.flip() ? U'7' : U' ');
    }
    return text;
}

void history(Src& s, Ctx& c)
{
    auto kind = static_cast<FKind>(s.draw(f_kinds));
    int mode = static_cast<int>(s.draw(4));
    size_t bufsize = static_cast<size_t>(s.flip() ? s.range(1, 12) : s.range(1, 200));
    size_t nops = 1 + s.len(14, 9, 10);
    std::vector<Plan> plans;
    h::u32s text32;
    for (size_t i = 0; i < nops; ++i) {
        Plan p;
        auto t = plan(s, p);
        if (!s.chance(1, 5)) {
            text32 += t;
            if (s.chance(1, 2)) {
                text32 += s.flip() ? U'\n' : U' ';
            }
        }
        plans.push_back(std::move(p));
    }
    for (auto& ch : text32) {
        if (ch == 0) {
            ch = U'0';
        }
    }
    auto text = h::utf8(text32);
    if (s.chance(1, 20) && !text.empty()) {
        text[s.draw(text.size())] = static_cast<char>(s.range(1, 255));
    }
    if (kind == f_pipe && text.size() > 60000) {
        throw Discard{};
    }
    Stream st(kind, text, mode, bufsize);
    // faults: a read error, or an end of file that goes away
    std::string visible = text;
    long hidden = -1;
    bool fault = kind == f_cookie && s.chance(1, 3);
    bool error = false;
    if (kind == f_cookie) {
        st.cookie.chunk = static_cast<size_t>(s.range(1, 30));
        if (fault) {
            hidden = static_cast<long>(s.draw(text.size() + 1));
            error = s.flip();
            (error ? st.cookie.fail_at : st.cookie.limit) = hidden;
            visible = text.substr(0, static_cast<size_t>(hidden));
        }
    }
    c.desc([&] {
        return std::string(fkind_name[kind]) + " mode " + std::to_string(mode) + " buffer " + std::to_string(bufsize) +
               (kind == f_cookie ? " chunk " + std::to_string(st.cookie.chunk) : "") +
               (fault ? std::string(error ? " read error at " : " temporary end at ") + std::to_string(hidden) : "") + " text " + pbt::show(text);
    });
    FILE* f = st.f;
    size_t pos = 0;            // next character of the underlying text
    std::string pushed;        // pushed back, last is next
    auto rest = [&] {
        std::string r(pushed.rbegin(), pushed.rend());
        return r + visible.substr(std::min(pos, visible.size()));
    };
    auto eat = [&](size_t n) {
        while (n && !pushed.empty()) {
            pushed.pop_back();
            --n;
        }
        pos += n;
    };
    size_t scanned = 0;
    auto at = [&](size_t i) { return " (operation " + std::to_string(i) + ")"; };
    for (size_t i = 0; i < plans.size(); ++i) {
        auto& p = plans[i];
        auto op = s.weighted({10, 3, 2, 2, 3, 2, 2, 2, 2, 2});
        auto left = rest();
        switch (op) {
            case 0: {
                c.desc([&] { return "\n  scan " + std::string(p.by_value ? "value " : "") + pbt::show(p.fmt) + " #" + std::to_string(p.tuple); });
                h::Out ref;
                FILE* back = nullptr;
                auto o = scan_both(p.tuple, f, left, p.fmt, p.by_value, ref, &back);
                if (o.ok != ref.ok || (o.ok ? o.vals != ref.vals : o.code != ref.code)) {
                    fail("scan of the stream " + h::show(o) + ", of the characters left in it " + h::show(ref) + at(i));
                }
                if (o.ok && back != f) {
                    fail("the result doesn't hold the scanned stream" + at(i));
                }
                if (o.ok) {
                    eat(static_cast<size_t>(ref.consumed));
                }
                // a failed scan leaves everything to be read
                ++scanned;
                c.label(o.ok ? "value" : "error");
                break;
            }
            case 1: {
                c.desc([&] { return "\n  fgetc"; });
                int g = std::fgetc(f);
                int want = left.empty() ? EOF : static_cast<unsigned char>(left[0]);
                if (g != want) {
                    fail("fgetc gave " + std::to_string(g) + ", the next character is " + std::to_string(want) + at(i));
                }
                if (g != EOF) {
                    eat(1);
                }
                break;
            }
            case 2: {
                char b[64];
                int n = static_cast<int>(s.range(2, 64));
                c.desc([&] { return "\n  fgets " + std::to_string(n); });
                auto r = std::fgets(b, n, f);
                size_t k = std::min(left.find('\n') == std::string::npos ? left.size() : left.find('\n') + 1, static_cast<size_t>(n - 1));
                bool cut = error && k == left.size() && (k == 0 || left[k - 1] != '\n') && k < static_cast<size_t>(n - 1);
                std::string got = r ? std::string(b) : std::string();
                if (cut) {
                    // a read error leaves it open what fgets returned
                    eat(k);
                }
                else {
                    if (got != left.substr(0, k)) {
                        fail("fgets gave " + pbt::show(got) + ", next is " + pbt::show(left.substr(0, k)) + at(i));
                    }
                    eat(k);
                }
                break;
            }
            case 3: {
                char b[64];
                size_t n = static_cast<size_t>(s.range(1, 64));
                c.desc([&] { return "\n  fread " + std::to_string(n); });
                size_t got = std::fread(b, 1, n, f);
                std::string g(b, got);
                auto want = left.substr(0, n);
                if (g != want) {
                    fail("fread gave " + pbt::show(g) + ", next is " + pbt::show(want) + at(i));
                }
                eat(got);
                break;
            }
            case 4: {
                // push back what was read, or something else
                if (pushed.size() >= 3) {
                    break;
                }
                char ch = pushed.empty() && pos > 0 && s.flip() ? visible[pos - 1] : static_cast<char>(s.pick({'1', 'x', ' ', '-', '\n', '0'}));
                c.desc([&] { return "\n  ungetc " + std::to_string(static_cast<unsigned char>(ch)); });
                if (std::ungetc(static_cast<unsigned char>(ch), f) != EOF) {
                    pushed.push_back(ch);
                }
                break;
            }
            case 5: {
                if (!pushed.empty() || !st.seekable || (kind == f_mem && text.empty())) {
                    break;
                }
                c.desc([&] { return "\n  ftell"; });
                long t = std::ftell(f);
                if (t != static_cast<long>(pos)) {
                    fail("ftell gave " + std::to_string(t) + ", " + std::to_string(pos) + " characters were read" + at(i));
                }
                break;
            }
            case 6: {
                if (!st.seekable || (kind == f_mem && text.empty()) || fault) {
                    break;
                }
                size_t to = s.draw(text.size() + 1);
                c.desc([&] { return "\n  fseek " + std::to_string(to); });
                if (std::fseek(f, static_cast<long>(to), SEEK_SET) == 0) {
                    pos = to;
                    pushed.clear();
                }
                break;
            }
            case 7: {
                // the same stream through C++ iostreams
                c.desc([&] { return "\n  istream >> int"; });
                __gnu_cxx::stdio_sync_filebuf<char> fb(f);
                std::istream is(&fb);
                std::istringstream ref(left);
                int a = -77, b = -77;
                is >> a;
                ref >> b;
                if (is.fail() != ref.fail() || a != b) {
                    fail("istream read " + std::to_string(a) + " from the stream, " + std::to_string(b) + " from its characters" + at(i));
                }
                ref.clear();
                eat(static_cast<size_t>(ref.tellg() < 0 ? static_cast<std::streamoff>(left.size()) : static_cast<std::streamoff>(ref.tellg())));
                break;
            }
            case 8: {
                c.desc([&] { return "\n  fscanf %9s"; });
                char a[16] = "", b[16] = "";
                int n = 0, m = 0;
                int ra = std::fscanf(f, "%9s%n", a, &n);
                int rb = std::sscanf(left.c_str(), "%9s%n", b, &m);
                if (ra != rb || std::string(a) != b) {
                    fail(std::string("fscanf read ") + pbt::show(std::string_view(a)) + ", expected " + pbt::show(std::string_view(b)) + at(i));
                }
                // without a word all the whitespace was read
                eat(rb == 1 ? static_cast<size_t>(m) : left.size());
                break;
            }
            default: {
                if (!fault || hidden < 0 || !s.flip()) {
                    break;
                }
                // the rest of the stream becomes readable
                c.desc([&] { return "\n  the rest appears"; });
                std::clearerr(f);
                st.cookie.fail_at = -1;
                st.cookie.limit = -1;
                visible = text;
                hidden = -1;
                error = false;
            }
        }
    }
    if (hidden >= 0) {
        st.cookie.fail_at = st.cookie.limit = -1;
        visible = text;
    }
    c.desc([&] { return "\n  read the rest"; });
    std::clearerr(f);
    std::string tail;
    for (int ch; (ch = std::fgetc(f)) != EOF;) {
        tail += static_cast<char>(ch);
        if (tail.size() > text.size() + 100) {
            fail("the stream doesn't end");
        }
    }
    if (tail != rest()) {
        fail("left in the stream: " + pbt::show(tail) + ", not yet read: " + pbt::show(rest()));
    }
    if (scanned) {
        c.nontrivial(hash_str(text) + scanned * 7 + kind + bufsize * 31 + pos * 131);
    }
}

// a stream that can't be read
void unreadable(Src& s, Ctx& c)
{
    Plan p;
    plan(s, p);
    c.desc([&] { return "write-only stream, format " + pbt::show(p.fmt); });
    char mem[64];
    FILE* f = ::fmemopen(mem, sizeof mem, "w");
    h::Out ref;
    FILE* back = nullptr;
    auto o = scan_both(p.tuple, f, "", p.fmt, p.by_value, ref, &back);
    std::fclose(f);
    c.label(o.ok ? "value" : "error");
    c.nontrivial(hash_str(p.fmt) + static_cast<uint64_t>(p.tuple));
    if (o.ok != ref.ok || (!o.ok && o.code != ref.code)) {
        fail("scan of an unreadable stream " + h::show(o) + ", of an empty one " + h::show(ref));
    }
}
}  // namespace

std::vector<pbt::Sub> pbt::subs()
{
    return {{"history", history, 12, 0}, {"unreadable", unreadable, 1, 0}};
}
