#include "h.h"
#include "pbt.h"
#include <deque>
#include <optional>
#include <set>
#include <utility>
// C19: results are ordinary values.
const char* const pbt::property_id = "C19";
namespace {
using namespace pbt;

struct Thrown {};
// chooses the value category; move-only types only have one
template <bool Copyable, typename X, typename F>
auto with_cat(int cat, X& x, F f)
{
    if constexpr (Copyable) {
        return cat == 0 ? f(x) : cat == 1 ? f(std::as_const(x)) : f(std::move(x));
    }
    else {
        return f(std::move(x));
    }
}
std::set<const void*> g_live;
long g_countdown = -1;  // the element operation that throws
void may_throw()
{
    if (g_countdown > 0 && --g_countdown == 0) {
        g_countdown = -1;
        throw Thrown{};
    }
}
// An object that knows its address and whether it is alive.
template <int Flavour>
struct Tr {
    static constexpr bool quiet_move = Flavour != 1;
    int v = 0;
    const void* self = nullptr;
    std::unique_ptr<int> owned;
    void born()
    {
        if (!g_live.insert(this).second) {
            fail("an object was constructed over a live one");
        }
        self = this;
    }
    void check() const
    {
        if (self != this || !g_live.count(this)) {
            fail("an object was used that is not alive (never constructed, destroyed, or moved bytewise)");
        }
    }
    Tr() noexcept(Flavour == 0) : owned(new int(0)) { born(); }
    Tr(int x) : v(x)
    {
        may_throw();
        owned.reset(new int(x));
        born();
    }
    Tr(const Tr& o) : v(o.v)
    {
        o.check();
        may_throw();
        owned.reset(new int(o.v));
        born();
    }
    Tr(Tr&& o) noexcept(quiet_move) : v(o.v)
    {
        o.check();
        if constexpr (!quiet_move) {
            may_throw();
        }
        owned = std::move(o.owned);
        o.v = -1;
        born();
    }
    Tr& operator=(const Tr& o)
    {
        check();
        o.check();
        may_throw();
        v = o.v;
        owned.reset(new int(o.v));
        return *this;
    }
    Tr& operator=(Tr&& o) noexcept(quiet_move)
    {
        check();
        o.check();
        if constexpr (!quiet_move) {
            may_throw();
        }
        v = o.v;
        owned = std::move(o.owned);
        if (this != &o) {
            o.v = -1;
        }
        return *this;
    }
    ~Tr()
    {
        if (self != this || !g_live.erase(this)) {
            // not a throw: this is a destructor
            std::fprintf(stderr, "an object was destroyed that is not alive\n");
            std::abort();
        }
        self = nullptr;
    }
    bool operator==(const Tr& o) const { return v == o.v; }
};
// the same, move-only
struct Mo : Tr<0> {
    using Tr<0>::Tr;
    Mo() = default;
    Mo(Mo&&) = default;
    Mo& operator=(Mo&&) = default;
};
int num(int x) { return x; }
int num(const Mo& t)
{
    t.check();
    return t.v;
}
template <int F>
int num(const Tr<F>& t)
{
    t.check();
    return t.v;
}
const char* const msgs[] = {"a", "b", "c", "d"};
int num(const scn::scan_error& e)
{
    int c = static_cast<int>(e.code());
    if (c < 0 || c > 3 || e.msg() != msgs[c]) {
        fail("the error is damaged");
    }
    return c;
}
template <typename E>
E make_err(int x)
{
    if constexpr (std::is_same_v<E, scn::scan_error>) {
        return scn::scan_error{static_cast<enum scn::scan_error::code>(x), msgs[x]};
    }
    else {
        return E(x);
    }
}
template <typename T>
int moved_from(int x)
{
    return std::is_class_v<T> && !std::is_same_v<T, scn::scan_error> ? -1 : x;
}

// a model of expected
struct Mod {
    bool ok;
    int v;  // -1: moved from
};
template <typename X>
__attribute__((noinline)) X through(X x)
{
    return x;
}
template <typename X>
std::string show_of(const X& x)
{
    if (!x.has_value()) {
        return "error " + std::to_string(num(x.error()));
    }
    if constexpr (std::is_void_v<typename X::value_type>) {
        return "value";
    }
    else {
        return "value " + std::to_string(num(x.value()));
    }
}
std::string show_of(const Mod& m, bool is_void)
{
    return !m.ok ? "error " + std::to_string(m.v) : is_void ? "value" : "value " + std::to_string(m.v);
}

template <typename T, typename E, bool Throwing>
void history(Src& s, Ctx& c, const char* name)
{
    constexpr bool is_void = std::is_void_v<T>;
    constexpr bool copyable = is_void || std::is_copy_constructible_v<T>;
    using X = std::conditional_t<std::is_same_v<E, scn::scan_error>, scn::scan_expected<T>, scn::expected<T, E>>;
    using Base = scn::expected<T, E>;
    g_live.clear();
    g_countdown = -1;
    std::string log = name;
    size_t logged = 0;
    auto tell = [&] {
        c.desc([&] { return log.substr(logged); });
        logged = log.size();
    };
    uint64_t hsh = hash_str(name);
    {
        constexpr int N = 3;
        std::vector<std::unique_ptr<X>> x;
        std::vector<Mod> m;
        auto value = [&](int v) -> X {
            if constexpr (is_void) {
                return X{};
            }
            else {
                return X{T(v)};
            }
        };
        for (int i = 0; i < N; ++i) {
            int v = static_cast<int>(s.draw(4));
            bool ok = s.flip();
            if (ok) {
                x.push_back(std::make_unique<X>(value(v)));
                m.push_back({true, is_void ? 0 : v});
            }
            else {
                x.push_back(std::make_unique<X>(scn::unexpected(make_err<E>(v))));
                m.push_back({false, v});
            }
            log += " [" + show_of(m.back(), is_void) + "]";
        }
        auto verify = [&](const X& got, const Mod& want, const char* what) {
            auto a = show_of(got), b = show_of(want, is_void);
            if (a != b) {
                fail(std::string(what) + ": expected " + b + ", got " + a);
            }
            if (static_cast<bool>(got) != want.ok) {
                fail("operator bool and has_value differ");
            }
        };
        size_t steps = 1 + s.len(10, 3, 4);
        for (size_t k = 0; k < steps; ++k) {
            int op = static_cast<int>(s.draw(14)), i = static_cast<int>(s.draw(N)), j = static_cast<int>(s.draw(N)), v = static_cast<int>(s.draw(4));
            int cat = copyable ? static_cast<int>(s.draw(3)) : 2;
            long throws = Throwing && s.chance(1, 3) ? 1 + static_cast<long>(s.draw(3)) : -1;
            if (op == 6 && m[static_cast<size_t>(i)].ok) {
                throws = -1;  // std::expected::emplace only takes constructions that can't throw; over a value, scn destroys it first
            }
            static const char* const ops[] = {"copy", "move", "assign", "move-assign", "assign value", "assign error", "emplace", "by value", "and_then", "transform", "or_else", "transform_error",
                                              "value_or/error_or", "convert"};
            log += std::string("; ") + ops[op] + " " + std::to_string(i) + " " + std::to_string(j) + " " + std::to_string(v) + (throws > 0 ? " throwing at " + std::to_string(throws) : "");
            tell();
            hsh = mix(hsh + static_cast<uint64_t>(op * 1000 + i * 100 + j * 10 + v + cat * 100000) + static_cast<uint64_t>(throws + 5) * 1000000);
            auto& X_i = *x[static_cast<size_t>(i)];
            auto& X_j = *x[static_cast<size_t>(j)];
            auto& m_i = m[static_cast<size_t>(i)];
            auto& m_j = m[static_cast<size_t>(j)];
            auto moved = [&](Mod& q) {
                if constexpr (!is_void) {
                    if (q.ok) {
                        q.v = moved_from<T>(q.v);
                    }
                }
                if (!q.ok) {
                    q.v = moved_from<E>(q.v);
                }
            };
            bool thrown = false;
            bool armed = throws > 0;
            try {
                g_countdown = throws;
                switch (op) {
                    case 0: {
                        if constexpr (copyable) {
                            X y(X_j);
                            g_countdown = -1;
                            verify(y, m_j, "a copy");
                        }
                        break;
                    }
                    case 1: {
                        X y(std::move(X_j));
                        g_countdown = -1;
                        verify(y, m_j, "a moved result");
                        moved(m_j);
                        break;
                    }
                    case 2: {
                        if constexpr (copyable) {
                            X_i = X_j;
                            m_i = m_j;
                        }
                        break;
                    }
                    case 3: {
                        if (i == j) {
                            break;
                        }
                        X_i = std::move(X_j);
                        m_i = m_j;
                        moved(m_j);
                        break;
                    }
                    case 4: {
                        if constexpr (!is_void) {
                            if constexpr (!copyable) {
                                X_i.Base::operator=(T(v));
                            }
                            else if (cat == 0) {
                                X_i.Base::operator=(T(v));
                            }
                            else {
                                T t(v);
                                X_i.Base::operator=(t);
                            }
                            m_i = {true, v};
                        }
                        break;
                    }
                    case 5: {
                        if (cat == 0) {
                            X_i.Base::operator=(scn::unexpected<E>(make_err<E>(v)));
                        }
                        else {
                            scn::unexpected<E> u(make_err<E>(v));
                            X_i.Base::operator=(u);
                        }
                        m_i = {false, v};
                        break;
                    }
                    case 6: {
                        if constexpr (!is_void) {
                            X_i.emplace(v);
                            m_i = {true, v};
                        }
                        break;
                    }
                    case 7: {
                        X y = [&]() -> X {
                            if constexpr (copyable) {
                                if (cat == 0) {
                                    return through<X>(X_j);
                                }
                            }
                            return through<X>(std::move(X_j));
                        }();
                        g_countdown = -1;
                        verify(y, m_j, "passed and returned by value");
                        if (cat != 0) {
                            moved(m_j);
                        }
                        break;
                    }
                    case 8: {
                        int calls = 0, saw = -2;
                        using R = scn::expected<long, E>;
                        auto go = [&](auto&& e) -> R {
                            if constexpr (is_void) {
                                return std::forward<decltype(e)>(e).and_then([&]() -> R {
                                    ++calls;
                                    if (v == 0) {
                                        return scn::unexpected(make_err<E>(3));
                                    }
                                    return R(100L);
                                });
                            }
                            else {
                                return std::forward<decltype(e)>(e).and_then([&](auto&& q) -> R {
                                    ++calls;
                                    saw = num(q);
                                    if (v == 0) {
                                        return scn::unexpected(make_err<E>(3));
                                    }
                                    return R(100L + saw);
                                });
                            }
                        };
                        R r = cat == 0 ? go(X_j) : cat == 1 ? go(std::as_const(X_j)) : go(std::move(X_j));
                        g_countdown = -1;
                        if (calls != m_j.ok || (m_j.ok && !is_void && saw != m_j.v)) {
                            fail("and_then called its function wrongly");
                        }
                        if (r.has_value() != (m_j.ok && v != 0) || (r && *r != 100 + (is_void ? 0 : m_j.v)) || (!r && num(r.error()) != (m_j.ok ? 3 : m_j.v))) {
                            fail("and_then gave a wrong result");
                        }
                        if (cat == 2 && !m_j.ok) {
                            moved(m_j);
                        }
                        break;
                    }
                    case 9: {
                        int calls = 0;
                        auto f = [&](auto&&... q) {
                            ++calls;
                            long o = 7;
                            ((o += num(q)), ...);
                            return o;
                        };
                        auto r = cat == 0 ? X_j.transform(f) : cat == 1 ? std::as_const(X_j).transform(f) : std::move(X_j).transform(f);
                        g_countdown = -1;
                        if (calls != m_j.ok || r.has_value() != m_j.ok || (r ? *r != 7 + (is_void ? 0 : m_j.v) : num(r.error()) != m_j.v)) {
                            fail("transform gave a wrong result");
                        }
                        if (cat == 2 && !m_j.ok) {
                            moved(m_j);
                        }
                        int n = 0;
                        auto rv = X_j.transform([&](auto&&...) { ++n; });
                        if (rv.has_value() != m_j.ok || n != m_j.ok || (!rv && num(rv.error()) != m_j.v)) {
                            fail("transform with a void function gave a wrong result");
                        }
                        break;
                    }
                    case 10: {
                        if constexpr (copyable) {  // it does not compile for move-only values
                            int calls = 0;
                            auto f = [&](auto&& e) -> Base {
                                ++calls;
                                int n = num(e);
                                if (n < 0 || n == 1) {
                                    return scn::unexpected(make_err<E>(2));
                                }
                                if constexpr (is_void) {
                                    return Base{};
                                }
                                else {
                                    return Base(T(n + 50));
                                }
                            };
                            Base r = with_cat<copyable>(cat, X_j, [&](auto&& q) { return std::forward<decltype(q)>(q).or_else(f); });
                            g_countdown = -1;
                            Mod want = m_j;
                            if (!m_j.ok) {
                                want = m_j.v < 0 || m_j.v == 1 ? Mod{false, 2} : Mod{true, m_j.v + 50};
                            }
                            auto got = show_of(r);
                            if (calls != !m_j.ok || got != show_of(want, is_void)) {
                                fail("or_else gave " + got);
                            }
                            if (cat == 2 && m_j.ok) {
                                moved(m_j);
                            }
                        }
                        break;
                    }
                    case 11: {
                        if constexpr (copyable) {  // it does not compile for move-only values
                            int calls = 0;
                            auto f = [&](auto&& e) {
                                ++calls;
                                return num(e) + 20;
                            };
                            auto r = with_cat<copyable>(cat, X_j, [&](auto&& q) { return std::forward<decltype(q)>(q).transform_error(f); });
                            g_countdown = -1;
                            if (calls != !m_j.ok || r.has_value() != m_j.ok || (!r && r.error() != m_j.v + 20)) {
                                fail("transform_error gave a wrong result");
                            }
                            if constexpr (!is_void) {
                                if (r && num(*r) != m_j.v) {
                                    fail("transform_error changed the value");
                                }
                            }
                            if (cat == 2 && m_j.ok) {
                                moved(m_j);
                            }
                        }
                        break;
                    }
                    case 12: {
                        if constexpr (!is_void) {
                            T t = with_cat<copyable>(cat, X_j, [&](auto&& q) { return std::forward<decltype(q)>(q).value_or(T(33)); });
                            g_countdown = -1;
                            if (num(t) != (m_j.ok ? m_j.v : 33)) {
                                fail("value_or gave " + std::to_string(num(t)));
                            }
                            if (cat == 2 && m_j.ok) {
                                moved(m_j);
                            }
                        }
                        g_countdown = -1;
                        E e = std::as_const(X_j).error_or(make_err<E>(1));
                        if (num(e) != (m_j.ok ? 1 : m_j.v)) {
                            fail("error_or gave a wrong error");
                        }
                        break;
                    }
                    default: {
                        if constexpr (!is_void) {
                            using Y = scn::expected<int, E>;
                            g_countdown = -1;
                            Y y = m_j.ok ? Y(num(*X_j)) : Y(scn::unexpected(X_j.error()));
                            Y y2 = y;
                            g_countdown = throws;
                            Base z = cat == 0 ? Base(y) : Base(std::move(y));
                            g_countdown = -1;
                            if (show_of(z) != show_of(m_j, false) || show_of(y2) != show_of(m_j, false)) {
                                fail("a converted result is " + show_of(z));
                            }
                        }
                        break;
                    }
                }
            }
            catch (const Thrown&) {
                thrown = true;
            }
            if (armed && !thrown && g_countdown == -1 && op >= 2 && op <= 6 && (op != 3 || i != j)) {
                // the countdown ran out without an exception reaching us
                fail("an exception was swallowed");
            }
            g_countdown = -1;
            if (thrown) {
                c.label("an operation threw");
                // whatever they hold now must be alive
                for (size_t q = 0; q < x.size(); ++q) {
                    bool ok = x[q]->has_value();
                    int n = 0;
                    if constexpr (!is_void) {
                        n = ok ? num(x[q]->value()) : num(x[q]->error());
                    }
                    else {
                        n = ok ? 0 : num(x[q]->error());
                    }
                    bool touched = static_cast<int>(q) == i || static_cast<int>(q) == j;
                    if (!touched && (ok != m[q].ok || n != m[q].v)) {
                        fail("another result changed");
                    }
                    m[q] = {ok, n};
                }
            }
            for (size_t q = 0; q < x.size(); ++q) {
                verify(*x[q], m[q], ("result " + std::to_string(q)).c_str());
            }
        }
    }
    if (!g_live.empty()) {
        fail(std::to_string(g_live.size()) + " objects were never destroyed");
    }
    c.nontrivial(hsh);
}

void histories(Src& s, Ctx& c)
{
    switch (s.draw(8)) {
        case 7: return history<Mo, scn::scan_error, false>(s, c, "move-only");
        case 0: return history<Tr<0>, scn::scan_error, true>(s, c, "quiet moves");
        case 1: return history<Tr<1>, scn::scan_error, true>(s, c, "throwing moves");
        case 2: return history<Tr<0>, Tr<2>, false>(s, c, "own error type");
        case 3: return history<void, Tr<2>, false>(s, c, "void, own error type");
        case 4: return history<int, scn::scan_error, false>(s, c, "int");
        case 5: return history<void, scn::scan_error, false>(s, c, "void");
        default: return history<int, Tr<2>, false>(s, c, "int, own error type");
    }
}

// real results of scans, handed around
template <typename Res>
std::string about(const Res& r)
{
    if (!r) {
        return "error " + std::to_string(static_cast<int>(r.error().code())) + r.error().msg();
    }
    std::string o;
    for (auto& v : h::canon_all(r->values())) {
        o += v + " ";
    }
    if constexpr (std::is_same_v<typename Res::value_type::range_type, FILE*>) {
        return o;
    }
    else {
        o += "|";
        for (auto ch : r->range()) {
            o += static_cast<char>(ch);
        }
        return o;
    }
}
template <typename Res>
void hand_around(Src& s, Ctx& c, Res& a, Res& b, std::string& log)
{
    log = " operations";
    auto da = about(a), db = about(b);
    for (size_t k = 1 + s.len(6, 2, 3); k > 0; --k) {
        int op = static_cast<int>(s.draw(7));
        log += " " + std::to_string(op);
        c.desc([&] { return log; });
        log.clear();
        switch (op) {
            case 0: {
                Res y(a);
                if (about(y) != da) {
                    fail("a copy is " + about(y));
                }
                break;
            }
            case 1: {
                Res y(std::move(a));
                if (about(y) != da) {
                    fail("moved to: " + about(y));
                }
                a = std::move(y);
                break;
            }
            case 2:
                a = b;
                da = db;
                break;
            case 3: {
                using std::swap;
                swap(a, b);
                swap(da, db);
                break;
            }
            case 4: a = through<Res>(std::move(a)); break;
            case 5: {
                auto y = through<Res>(a);
                if (about(y) != da) {
                    fail("passed by value: " + about(y));
                }
                break;
            }
            default: {
                std::vector<Res> v;
                v.push_back(a);
                v.push_back(std::move(b));
                v.push_back(a);
                v.insert(v.begin(), a);
                if (about(v[0]) != da || about(v[1]) != da || about(v[2]) != db || about(v[3]) != da) {
                    fail("in a vector: " + about(v[0]) + ", " + about(v[1]) + ", " + about(v[2]) + ", " + about(v[3]));
                }
                b = std::move(v[2]);
            }
        }
        if (about(a) != da || about(b) != db) {
            fail("expected <" + da + "> and <" + db + ">, got <" + about(a) + "> and <" + about(b) + ">");
        }
    }
    // structured access
    if (a) {
        auto& [x, y] = a->values();
        if (h::canon(x) + " " + h::canon(y) + " " != da.substr(0, da.find('|'))) {
            fail("structured bindings see other values");
        }
        auto whole = std::move(*a).values();
        std::string o;
        for (auto& v : h::canon_all(whole)) {
            o += v + " ";
        }
        if (o != da.substr(0, da.find('|'))) {
            fail("values moved out: " + o);
        }
    }
}
std::string some_text(Src& s)
{
    std::string o;
    for (size_t k = s.len(4, 3, 4); k > 0; --k) {
        o += s.pick({"12 ", "word ", "a-long-word-that-needs-the-heap-for-sure ", "x", "-3.5 ", " ", "\xc3\xa4 "});
    }
    return o;
}
void results(Src& s, Ctx& c)
{
    std::string t1 = some_text(s), t2 = some_text(s), log;
    int kind = static_cast<int>(s.draw(5));
    log = "source " + std::to_string(kind) + " texts " + show(t1) + " " + show(t2);
    c.desc([&] { return log; });
    c.nontrivial(hash_str(t1 + "\1" + t2) * 8 + static_cast<uint64_t>(kind));
    switch (kind) {
        case 0: {
            std::string_view a(t1), b(t2);
            auto r = scn::scan<std::string, std::string>(a, "{}{}");
            auto q = scn::scan<std::string, std::string>(b, "{}{}");
            return hand_around(s, c, r, q, log);
        }
        case 1: {
            std::deque<char> a(t1.begin(), t1.end()), b(t2.begin(), t2.end());
            auto r = scn::scan<std::string, std::wstring>(a, "{}{}");
            auto q = scn::scan<std::string, std::wstring>(b, "{}{}");
            return hand_around(s, c, r, q, log);
        }
        case 2: {
            std::list<char> a(t1.begin(), t1.end()), b(t2.begin(), t2.end());
            auto r = scn::scan<int, std::string>(a, "{}{}");
            auto q = scn::scan<int, std::string>(b, "{}{}");
            return hand_around(s, c, r, q, log);
        }
        case 3: {
            h::MemFile a(t1, 3), b(t2, 0);
            auto r = scn::scan<std::string, double>(a.get(), "{}{}");
            auto q = scn::scan<std::string, double>(b.get(), "{}{}");
            return hand_around(s, c, r, q, log);
        }
        default: {
            auto r = scn::scan<std::string_view, int>(std::string_view(t1), "{}{}");
            auto q = scn::scan<std::string_view, int>(std::string_view(t2), "{}{}");
            return hand_around(s, c, r, q, log);
        }
    }
}
// errors: every pair of codes
void errors(Src& s, Ctx& c)
{
    using code = enum scn::scan_error::code;
    uint64_t k = s.draw(121);
    auto ca = static_cast<code>(k / 11), cb = static_cast<code>(k % 11);
    c.desc([&] { return "codes " + std::to_string(ca) + " and " + std::to_string(cb); });
    c.nontrivial(k);
    scn::scan_error a(ca, "one"), b(cb, "other");
    bool eq = ca == cb;
    if ((a == b) != eq || (a != b) == eq || (a == cb) != eq || (a != cb) == eq || (ca == b) != eq || (ca != b) == eq) {
        fail("comparison");
    }
    if (a.code() != ca || static_cast<code>(a) != ca || std::string_view(a.msg()) != "one") {
        fail("code or message");
    }
    auto want = ca == scn::scan_error::invalid_source_state      ? std::errc::io_error
                : ca >= scn::scan_error::value_positive_overflow ? std::errc::result_out_of_range
                                                                  : std::errc::invalid_argument;
    if (a.to_errc() != want) {
        fail("to_errc");
    }
}
}  // namespace

std::vector<pbt::Sub> pbt::subs()
{
    return {{"errors", errors, 0, 121}, {"histories", histories, 6}, {"results", results, 3}};
}
