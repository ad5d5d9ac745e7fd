// A small property-based testing engine.
//
// A property is a function of a choice stream (Src): every random decision is
// an integer drawn from it, so a case is reproduced and shrunk by editing the
// recorded sequence of integers.  Cases run in forked workers; a failed check,
// a crash, a sanitizer report, an assertion or a runaway case all count as a
// failure of the case that was running, whose choices are read back from
// shared memory and shrunk by re-running edited sequences in forked children.
#pragma once
#include <cstdint>
#include <cstdio>
#include <algorithm>
#include <cstring>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>

namespace pbt {

struct Fail {
    std::string msg;
};
struct Discard {};

inline uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

constexpr size_t max_choices = 1 << 15;

class Src {
public:
    // random mode
    Src(uint64_t seed, uint64_t* rec) : m_state(seed), m_rec(rec) {}
    // replay mode
    Src(const std::vector<uint64_t>& replay, uint64_t* rec)
        : m_replay(&replay), m_rec(rec)
    {
    }

    void force_first(uint64_t v)
    {
        m_forced = true;
        m_forced_v = v;
    }

    // uniform in [0, n)
    uint64_t draw(uint64_t n)
    {
        uint64_t v;
        if (m_replay) {
            v = m_pos < m_replay->size() ? (*m_replay)[m_pos] : 0;
            if (n != 0) {
                v = v < n ? v : v % n;
            }
        }
        else if (m_forced && m_pos == 0) {
            v = m_forced_v;
            if (n != 0) {
                v %= n;
            }
        }
        else {
            m_state += 0x9e3779b97f4a7c15ull;
            uint64_t x = m_state;
            x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
            x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
            v = x ^ (x >> 31);
            if (n != 0) {
                v = static_cast<uint64_t>(
                    (static_cast<unsigned __int128>(v) * n) >> 64);
            }
        }
        if (m_pos >= max_choices) {
            throw Discard{};
        }
        m_rec[1 + m_pos] = v;
        ++m_pos;
        m_rec[0] = m_pos;
        return v;
    }
    uint64_t bits() { return draw(0); }
    // inclusive
    int64_t range(int64_t lo, int64_t hi)
    {
        return lo + static_cast<int64_t>(
                        draw(static_cast<uint64_t>(hi - lo) + 1));
    }
    // true with probability num/den; simplest is false
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
    bool flip() { return draw(2) != 0; }
    // roughly geometric length in [0, max]
    size_t len(size_t max, unsigned cont_num = 3, unsigned cont_den = 4)
    {
        size_t n = 0;
        while (n < max && chance(cont_num, cont_den)) {
            ++n;
        }
        return n;
    }
    template <typename T, size_t N>
    const T& pick(const T (&a)[N])
    {
        return a[draw(N)];
    }
    template <typename V>
    const typename V::value_type& pick(const V& v)
    {
        return v[draw(v.size())];
    }
    template <typename T>
    T pick(std::initializer_list<T> v)
    {
        return v.begin()[draw(v.size())];
    }
    // index by weights
    size_t weighted(std::initializer_list<unsigned> w)
    {
        unsigned sum = 0;
        for (auto x : w) {
            sum += x;
        }
        uint64_t v = draw(sum);
        size_t i = 0;
        for (auto x : w) {
            if (v < x) {
                return i;
            }
            v -= x;
            ++i;
        }
        return 0;
    }
    size_t used() const { return m_pos; }

private:
    uint64_t m_state{0};
    const std::vector<uint64_t>* m_replay{nullptr};
    uint64_t* m_rec;
    size_t m_pos{0};
    bool m_forced{false};
    uint64_t m_forced_v{0};
};

inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 14695981039346656037ull)
{
    auto c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) {
        h = (h ^ c[i]) * 1099511628211ull;
    }
    return mix(h);
}
inline uint64_t hash_str(std::string_view s, uint64_t h = 14695981039346656037ull)
{
    return hash_bytes(s.data(), s.size(), h);
}

class Ctx {
public:
    bool verbose{false};      // replaying: build descriptions
    bool rerun{false};        // confirming, shrinking or replaying a failure: a
                              // harness that depends on timing tries harder
    bool want_sample{false};  // engine asks for a description of this case
    bool nontriv{false};
    uint64_t key{0};
    std::string text;
    char* sink{nullptr};
    size_t sink_n{0};
    std::map<std::string, uint64_t>* labels{nullptr};
    std::map<std::string, uint64_t>* knowns{nullptr};

    // The case exercises the property by the harness's stated rule; `k`
    // identifies its content.
    void nontrivial(uint64_t k)
    {
        nontriv = true;
        key = mix(key ^ k);
    }
    void label(const char* l)
    {
        if (labels) {
            ++(*labels)[l];
        }
    }
    bool want_desc() const { return verbose || want_sample; }
    template <typename F>
    void desc(F&& f)
    {
        if (want_desc()) {
            text += f();
            if (sink) {
                // survives a crash of this case
                size_t n = std::min(text.size(), sink_n - 1);
                std::memcpy(sink, text.data(), n);
                sink[n] = 0;
            }
        }
    }
    // A listed finding was met; not a violation.
    void known(const char* id)
    {
        if (knowns) {
            ++(*knowns)[id];
        }
    }
};

struct Sub {
    const char* name;
    void (*fn)(Src&, Ctx&);
    unsigned weight;
    uint64_t enum_n;  // first choice enumerated over [0, enum_n) before random
};

// provided by the harness
std::vector<Sub> subs();
extern const char* const property_id;

[[noreturn]] inline void fail(std::string m) { throw Fail{std::move(m)}; }

inline std::string show(std::string_view s)
{
    std::string o = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += static_cast<char>(c);
        }
        else if (c >= 0x20 && c < 0x7f) {
            o += static_cast<char>(c);
        }
        else {
            std::snprintf(b, sizeof b, "\\x%02x", c);
            o += b;
        }
    }
    return o + "\"";
}
inline std::string show(std::wstring_view s)
{
    std::string o = "L\"";
    char b[16];
    for (wchar_t c : s) {
        if (c == L'"' || c == L'\\') {
            o += '\\';
            o += static_cast<char>(c);
        }
        else if (c >= 0x20 && c < 0x7f) {
            o += static_cast<char>(c);
        }
        else {
            std::snprintf(b, sizeof b, "\\u{%x}", static_cast<unsigned>(c));
            o += b;
        }
    }
    return o + "\"";
}
inline std::string show(std::u32string_view s)
{
    std::wstring w(s.begin(), s.end());
    return "U" + show(std::wstring_view(w)).substr(1);
}

}  // namespace pbt
