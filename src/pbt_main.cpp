#include "pbt.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdlib>
#include <memory>

namespace {
using namespace pbt;
using clk = std::chrono::steady_clock;

enum Status : int { running = 0, done = 1, failed = 2, passed = 3, discarded = 4 };

struct Slab {
    std::atomic<uint64_t> cases;
    std::atomic<int> status;
    std::atomic<int> sub;
    uint64_t rec[1 + max_choices];
    char msg[16384];
    char desc[32768];
};

Slab* make_slab()
{
    void* p = mmap(nullptr, sizeof(Slab), PROT_READ | PROT_WRITE,
                   MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        _exit(2);
    }
    return static_cast<Slab*>(p);
}

Slab* g_slab;
volatile sig_atomic_t g_stop = 0;
int g_cpu_limit = 20;

void put(char* dst, size_t n, const std::string& s)
{
    size_t k = std::min(n - 1, s.size());
    std::memcpy(dst, s.data(), k);
    dst[k] = 0;
}

void on_prof(int)
{
    put(g_slab->msg, sizeof g_slab->msg, "case exceeded its CPU-time limit (runaway)");
    _exit(77);
}
void on_term(int) { g_stop = 1; }

void arm(int sec)
{
    itimerval t{};
    t.it_value.tv_sec = sec;
    setitimer(ITIMER_PROF, &t, nullptr);
}

struct Opt {
    uint64_t seed = 1;
    int workers = 8;
    double time = 15;
    uint64_t min_cases = 0;
    double max_time = 240;
    std::string out;       // stats file
    std::string replay;
    std::string replay_out;
    std::string dir = ".";
    std::string only;
};

uint64_t case_seed(uint64_t seed, int worker, uint64_t i)
{
    return mix(mix(seed * 1000003 + static_cast<uint64_t>(worker)) ^ mix(i));
}

struct Stats {
    uint64_t evals = 0, discards = 0, nontriv = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels, knowns;
    std::map<std::string, uint64_t> per_sub;
    std::vector<std::string> samples;
};

// returns status; fills slab
void run_case(const Sub& s, Src& src, Ctx& ctx)
{
    s.fn(src, ctx);
}

std::string jesc(const std::string& s)
{
    std::string o;
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += static_cast<char>(c);
        }
        else if (c < 0x20 || c >= 0x7f) {
            std::snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        }
        else {
            o += static_cast<char>(c);
        }
    }
    return o;
}

void worker(const Opt& o, int w, const std::vector<Sub>& ss, const std::string& statfile)
{
    signal(SIGPROF, on_prof);
    signal(SIGTERM, on_term);
    Stats st;
    auto t0 = clk::now();
    auto elapsed = [&] {
        return std::chrono::duration<double>(clk::now() - t0).count();
    };
    unsigned wsum = 0;
    for (auto& s : ss) {
        wsum += s.weight;
    }
    // enumerated cases of this worker
    size_t esub = 0;
    uint64_t ei = static_cast<uint64_t>(w);
    uint64_t i = 0;
    uint64_t min_each = o.min_cases / static_cast<uint64_t>(o.workers);
    uint64_t next_sample = 0;
    for (;; ++i) {
        while (esub < ss.size() && ei >= ss[esub].enum_n) {
            ++esub;
            ei = static_cast<uint64_t>(w);
        }
        bool enumerating = esub < ss.size();
        if ((i & 15) == 0) {
            double e = elapsed();
            if (g_stop) {
                break;
            }
            if (e > o.max_time) {
                break;
            }
            if (!enumerating && e >= o.time && i >= min_each) {
                break;
            }
        }
        uint64_t cs = case_seed(o.seed, w, i);
        size_t k;
        Src src(mix(cs ^ 0x5bd1e995), g_slab->rec);
        if (enumerating) {
            k = esub;
            src.force_first(ei);
            ei += static_cast<uint64_t>(o.workers);
        }
        else {
            if (wsum == 0) {
                break;
            }
            uint64_t x = cs % wsum;
            k = 0;
            while (x >= ss[k].weight) {
                x -= ss[k].weight;
                ++k;
            }
        }
        g_slab->rec[0] = 0;
        g_slab->sub = static_cast<int>(k);
        g_slab->cases = i;
        Ctx ctx;
        ctx.labels = &st.labels;
        ctx.knowns = &st.knowns;
        ctx.want_sample = i >= next_sample && st.samples.size() < 12;
        if ((i & 7) == 0) {
            arm(g_cpu_limit);
        }
        try {
            run_case(ss[k], src, ctx);
            ++st.evals;
            ++st.per_sub[ss[k].name];
            if (ctx.nontriv) {
                ++st.nontriv;
                if (st.distinct.size() < 3000000) {
                    st.distinct.insert(mix(ctx.key + k));
                }
                if (ctx.want_sample) {
                    st.samples.push_back(std::string(ss[k].name) + ": " + ctx.text);
                    next_sample = i + 1 + i / 2;
                }
            }
        }
        catch (const Discard&) {
            ++st.discards;
        }
        catch (const Fail& f) {
            put(g_slab->msg, sizeof g_slab->msg, f.msg);
            g_slab->status = failed;
            _exit(3);
        }
        catch (const std::exception& e) {
            put(g_slab->msg, sizeof g_slab->msg,
                std::string("exception escaped: ") + e.what());
            g_slab->status = failed;
            _exit(3);
        }
    }
    arm(0);
    FILE* f = std::fopen(statfile.c_str(), "w");
    std::fprintf(f, "%llu %llu %llu %zu\n", (unsigned long long)st.evals,
                 (unsigned long long)st.discards, (unsigned long long)st.nontriv,
                 st.distinct.size());
    std::fwrite("", 1, 0, f);
    auto dump = [&](const std::map<std::string, uint64_t>& m) {
        std::fprintf(f, "%zu\n", m.size());
        for (auto& [a, b] : m) {
            std::fprintf(f, "%llu %s\n", (unsigned long long)b, a.c_str());
        }
    };
    dump(st.labels);
    dump(st.knowns);
    dump(st.per_sub);
    std::fprintf(f, "%zu\n", st.samples.size());
    for (auto& s : st.samples) {
        std::fprintf(f, "%s\n", jesc(s).c_str());
    }
    for (auto h : st.distinct) {
        std::fprintf(f, "%llx\n", (unsigned long long)h);
    }
    std::fclose(f);
    g_slab->status = done;
    _exit(0);
}

struct RunRes {
    bool fails = false;
    std::string msg;
    std::string desc;
    std::vector<uint64_t> used;
};

// Runs one choice sequence in a forked child.
RunRes run_forked(const Sub& s, const std::vector<uint64_t>& choices,
                  const std::string& errfile, bool verbose)
{
    static Slab* slab = make_slab();
    slab->status = running;
    slab->msg[0] = 0;
    slab->desc[0] = 0;
    slab->rec[0] = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        g_slab = slab;
        int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(fd, 2);
        signal(SIGPROF, on_prof);
        signal(SIGTERM, SIG_DFL);
        arm(g_cpu_limit);
        alarm(180);
        Ctx ctx;
        ctx.verbose = verbose;
        ctx.rerun = true;
        ctx.sink = slab->desc;
        ctx.sink_n = sizeof slab->desc;
        auto fin = [&](int st) {
            put(slab->desc, sizeof slab->desc, ctx.text);
            slab->status = st;
        };
        Src src(choices, slab->rec);
        try {
            run_case(s, src, ctx);
            fin(passed);
        }
        catch (const Discard&) {
            fin(discarded);
        }
        catch (const Fail& f) {
            put(slab->msg, sizeof slab->msg, f.msg);
            fin(failed);
        }
        catch (const std::exception& e) {
            put(slab->msg, sizeof slab->msg,
                std::string("exception escaped: ") + e.what());
            fin(failed);
        }
        _exit(0);
    }
    int ws = 0;
    waitpid(pid, &ws, 0);
    RunRes r;
    int st = slab->status;
    r.fails = !(st == passed || st == discarded);
    r.msg = slab->msg;
    r.desc = slab->desc;
    r.used.assign(slab->rec + 1, slab->rec + 1 + slab->rec[0]);
    if (st == running) {
        std::string e;
        if (FILE* f = std::fopen(errfile.c_str(), "r")) {
            char buf[6000];
            size_t n = std::fread(buf, 1, sizeof buf, f);
            e.assign(buf, n);
            std::fclose(f);
        }
        r.msg = "crash, sanitizer report or runaway: wait status " +
                std::to_string(ws) + " " + r.msg + "\n" + e;
    }
    return r;
}

std::vector<uint64_t> shrink(const Sub& s, std::vector<uint64_t> best,
                             const std::string& errfile)
{
    auto t0 = clk::now();
    int tries = 0;
    auto budget = [&] {
        return tries < 1500 &&
               std::chrono::duration<double>(clk::now() - t0).count() < 40;
    };
    auto attempt = [&](const std::vector<uint64_t>& c) {
        if (!budget()) {
            return false;
        }
        ++tries;
        auto r = run_forked(s, c, errfile, false);
        if (r.fails) {
            auto u = r.used;
            if (u.size() > c.size()) {
                u.resize(c.size());
            }
            while (!u.empty() && u.back() == 0) {
                u.pop_back();
            }
            // order: shorter, then lexicographically smaller
            if (u.size() < best.size() ||
                (u.size() == best.size() && u < best)) {
                best = u;
                return true;
            }
        }
        return false;
    };
    {
        // normalise
        auto r = run_forked(s, best, errfile, false);
        if (r.fails && r.used.size() <= best.size()) {
            best = r.used;
        }
    }
    bool improved = true;
    while (improved && budget()) {
        improved = false;
        for (size_t chunk = std::max<size_t>(1, best.size() / 2); chunk >= 1 && budget();
             chunk /= 2) {
            for (size_t i = 0; i + chunk <= best.size() && budget();) {
                auto c = best;
                c.erase(c.begin() + (long)i, c.begin() + (long)(i + chunk));
                if (attempt(c)) {
                    improved = true;
                }
                else {
                    i += std::max<size_t>(1, chunk / 2);
                }
            }
            if (chunk == 1) {
                break;
            }
        }
        for (size_t chunk = 8; chunk >= 1 && budget(); chunk /= 2) {
            for (size_t i = 0; i + chunk <= best.size() && budget(); i += chunk) {
                bool all0 = std::all_of(best.begin() + (long)i, best.begin() + (long)(i + chunk),
                                        [](uint64_t x) { return x == 0; });
                if (all0) {
                    continue;
                }
                auto c = best;
                std::fill(c.begin() + (long)i, c.begin() + (long)(i + chunk), 0);
                if (attempt(c)) {
                    improved = true;
                }
            }
            if (chunk == 1) {
                break;
            }
        }
        for (size_t i = 0; i < best.size() && budget(); ++i) {
            uint64_t lo = 0;
            uint64_t hi = best[i];
            while (lo < hi && budget()) {
                uint64_t mid = lo + (hi - lo) / 2;
                auto c = best;
                c[i] = mid;
                size_t before = best.size();
                if (attempt(c)) {
                    improved = true;
                    if (best.size() != before || i >= best.size()) {
                        break;
                    }
                    hi = best[i];
                }
                else {
                    lo = mid + 1;
                }
            }
        }
        // decrement one and delete a neighbour (length-controlled lists)
        for (size_t i = 0; i + 1 < best.size() && budget(); ++i) {
            if (best[i] == 0) {
                continue;
            }
            auto c = best;
            --c[i];
            c.erase(c.begin() + (long)i + 1);
            if (attempt(c)) {
                improved = true;
            }
        }
    }
    return best;
}

void write_replay(const std::string& path, const Sub& s, const std::vector<uint64_t>& c,
                  const std::string& text, const std::string& history)
{
    FILE* f = std::fopen(path.c_str(), "w");
    if (!f) {
        return;
    }
    std::fprintf(f, "property %s\nsub %s\n", property_id, s.name);
    if (!history.empty()) {
        std::fprintf(f, "history %s\n", history.c_str());
    }
    std::fprintf(f, "choices");
    for (auto x : c) {
        std::fprintf(f, " %llu", (unsigned long long)x);
    }
    std::fprintf(f, "\n---\n%s\n", text.c_str());
    std::fclose(f);
}

int replay(const Opt& o, const std::vector<Sub>& ss)
{
    FILE* f = std::fopen(o.replay.c_str(), "r");
    if (!f) {
        std::fprintf(stderr, "cannot open replay %s\n", o.replay.c_str());
        return 2;
    }
    std::string all;
    char buf[4096];
    size_t n;
    while ((n = std::fread(buf, 1, sizeof buf, f)) > 0) {
        all.append(buf, n);
    }
    std::fclose(f);
    std::string sub;
    std::vector<uint64_t> ch;
    size_t pos = 0;
    while (pos < all.size()) {
        size_t e = all.find('\n', pos);
        if (e == std::string::npos) {
            e = all.size();
        }
        std::string line = all.substr(pos, e - pos);
        pos = e + 1;
        if (line == "---") {
            break;
        }
        if (line.rfind("sub ", 0) == 0) {
            sub = line.substr(4);
        }
        if (line.rfind("choices", 0) == 0) {
            const char* p = line.c_str() + 7;
            char* q;
            for (;;) {
                unsigned long long v = std::strtoull(p, &q, 10);
                if (q == p) {
                    break;
                }
                ch.push_back(v);
                p = q;
            }
        }
    }
    for (auto& s : ss) {
        if (sub == s.name) {
            auto r = run_forked(s, ch, o.dir + "/replay.err", true);
            std::printf("case: %s\n", r.desc.c_str());
            if (r.fails) {
                std::printf("FAILS: %s\n", r.msg.c_str());
                return 1;
            }
            std::printf("passes\n");
            return 0;
        }
    }
    std::fprintf(stderr, "unknown sub %s\n", sub.c_str());
    return 2;
}

}  // namespace

int main(int argc, char** argv)
{
    Opt o;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed") o.seed = std::strtoull(v.c_str(), nullptr, 10);
        else if (a == "--workers") o.workers = std::atoi(v.c_str());
        else if (a == "--time") o.time = std::atof(v.c_str());
        else if (a == "--max-time") o.max_time = std::atof(v.c_str());
        else if (a == "--min-cases") o.min_cases = std::strtoull(v.c_str(), nullptr, 10);
        else if (a == "--out") o.out = v;
        else if (a == "--dir") o.dir = v;
        else if (a == "--replay") o.replay = v;
        else if (a == "--replay-out") o.replay_out = v;
        else if (a == "--only") o.only = v;
        else if (a == "--cpu-limit") g_cpu_limit = std::atoi(v.c_str());
    }
    auto ss = subs();
    if (!o.only.empty()) {
        std::vector<Sub> k;
        for (auto& s : ss) {
            if (o.only == s.name) {
                k.push_back(s);
            }
        }
        ss = k;
    }
    if (!o.replay.empty()) {
        return replay(o, ss);
    }
    std::vector<Slab*> slabs;
    std::vector<pid_t> pids;
    auto statf = [&](int w) { return o.dir + "/stat." + std::to_string(w); };
    auto errf = [&](int w) { return o.dir + "/err." + std::to_string(w); };
    for (int w = 0; w < o.workers; ++w) {
        Slab* s = make_slab();
        slabs.push_back(s);
        unlink(statf(w).c_str());
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            g_slab = s;
            int fd = open(errf(w).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
            dup2(fd, 2);
            worker(o, w, ss, statf(w));
        }
        pids.push_back(p);
    }
    // wait; detect wall-clock stalls too
    std::vector<bool> alive(pids.size(), true);
    std::vector<uint64_t> last(pids.size(), 0);
    std::vector<clk::time_point> moved(pids.size(), clk::now());
    std::vector<int> bad;
    size_t nalive = pids.size();
    while (nalive) {
        for (size_t w = 0; w < pids.size(); ++w) {
            if (!alive[w]) {
                continue;
            }
            int ws;
            pid_t r = waitpid(pids[w], &ws, WNOHANG);
            if (r == pids[w]) {
                alive[w] = false;
                --nalive;
                if (slabs[w]->status != done) {
                    bad.push_back((int)w);
                    for (size_t v = 0; v < pids.size(); ++v) {
                        if (alive[v]) {
                            kill(pids[v], SIGTERM);
                        }
                    }
                }
                continue;
            }
            uint64_t c = slabs[w]->cases;
            if (c != last[w]) {
                last[w] = c;
                moved[w] = clk::now();
            }
            else if (std::chrono::duration<double>(clk::now() - moved[w]).count() > 150) {
                put(slabs[w]->msg, sizeof slabs[w]->msg, "case blocked for 150 s");
                kill(pids[w], SIGKILL);
            }
        }
        usleep(5000);
    }
    int violations = 0;
    int flaky = 0;
    std::string flaky_text;
    for (int w : bad) {
        Slab* s = slabs[w];
        const Sub& sub = ss[(size_t)(int)s->sub];
        std::vector<uint64_t> ch(s->rec + 1, s->rec + 1 + s->rec[0]);
        std::string ef = o.dir + "/shrink.err";
        int rep = 0;
        for (int k = 0; k < 3; ++k) {
            rep += run_forked(sub, ch, ef, false).fails ? 1 : 0;
        }
        if (rep < 3) {
            ++flaky;
            flaky_text += std::string("sub ") + sub.name + " worker " + std::to_string(w) +
                          " case " + std::to_string((uint64_t)s->cases) + " reproduced " +
                          std::to_string(rep) + "/3: " + s->msg + "\n";
            // state carried over from earlier cases of this worker: repeat its
            // whole history in a fresh process
            continue;
        }
        auto best = shrink(sub, ch, ef);
        bool ok = true;
        RunRes r;
        for (int k = 0; k < 3; ++k) {
            r = run_forked(sub, best, ef, true);
            ok = ok && r.fails;
        }
        if (!ok) {
            best = ch;
            r = run_forked(sub, best, ef, true);
        }
        write_replay(o.replay_out, sub, best, "case: " + r.desc + "\nfailure: " + r.msg, "");
        std::printf("FAIL sub=%s\ncase: %s\nfailure: %s\n", sub.name, r.desc.c_str(),
                    r.msg.c_str());
        ++violations;
        break;
    }
    if (!violations && flaky) {
        // A failure that a fresh process does not repeat from its choices alone.
        // Re-run that worker's history from the start, twice; a failure at the
        // same case both times is a (history-dependent) violation.
        for (int w : bad) {
            int hit = 0;
            std::string msg;
            for (int k = 0; k < 2; ++k) {
                Slab* s = make_slab();
                fflush(stdout);
                pid_t p = fork();
                if (p == 0) {
                    g_slab = s;
                    int fd = open((o.dir + "/hist.err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
                    dup2(fd, 2);
                    Opt o2 = o;
                    o2.time = 0;
                    o2.min_cases = (slabs[(size_t)w]->cases + 1) * (uint64_t)o.workers;
                    worker(o2, w, ss, o.dir + "/stat.hist");
                }
                int ws;
                waitpid(p, &ws, 0);
                if (s->status != done && s->cases == slabs[(size_t)w]->cases) {
                    ++hit;
                    msg = s->msg;
                }
            }
            if (hit == 2) {
                const Sub& sub = ss[(size_t)(int)slabs[(size_t)w]->sub];
                write_replay(o.replay_out, sub, {}, msg,
                             "seed=" + std::to_string(o.seed) + " worker=" + std::to_string(w) +
                                 " workers=" + std::to_string(o.workers) + " cases=" +
                                 std::to_string(slabs[(size_t)w]->cases + 1));
                std::printf("FAIL sub=%s (history dependent)\nfailure: %s\n", sub.name, msg.c_str());
                ++violations;
                break;
            }
        }
    }
    // merge statistics
    uint64_t evals = 0, disc = 0, nontriv = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels, knowns, persub;
    std::vector<std::string> samples;
    for (int w = 0; w < o.workers; ++w) {
        FILE* f = std::fopen(statf(w).c_str(), "r");
        if (!f) {
            continue;
        }
        unsigned long long a = 0, b = 0, c = 0;
        size_t d = 0;
        if (std::fscanf(f, "%llu %llu %llu %zu\n", &a, &b, &c, &d) != 4) {
            std::fclose(f);
            continue;
        }
        evals += a;
        disc += b;
        nontriv += c;
        char line[70000];
        for (auto* m : {&labels, &knowns, &persub}) {
            size_t k = 0;
            if (std::fscanf(f, "%zu\n", &k) != 1) {
                break;
            }
            for (size_t i = 0; i < k; ++i) {
                if (!std::fgets(line, sizeof line, f)) {
                    break;
                }
                char* q;
                unsigned long long v = std::strtoull(line, &q, 10);
                std::string name = q + 1;
                while (!name.empty() && name.back() == '\n') {
                    name.pop_back();
                }
                (*m)[name] += v;
            }
        }
        size_t k = 0;
        if (std::fscanf(f, "%zu\n", &k) == 1) {
            for (size_t i = 0; i < k; ++i) {
                if (!std::fgets(line, sizeof line, f)) {
                    break;
                }
                std::string t = line;
                while (!t.empty() && t.back() == '\n') {
                    t.pop_back();
                }
                if (samples.size() < 40) {
                    samples.push_back(t);
                }
            }
        }
        unsigned long long h;
        while (std::fscanf(f, "%llx\n", &h) == 1) {
            distinct.insert(h);
        }
        std::fclose(f);
        unlink(statf(w).c_str());
    }
    if (!o.out.empty()) {
        FILE* f = std::fopen(o.out.c_str(), "w");
        std::fprintf(f,
                     "{\"evaluations\": %llu, \"discarded\": %llu, \"nontrivial\": %llu, "
                     "\"distinct_nontrivial\": %zu, \"violations\": %d, \"unreproduced\": %d, "
                     "\"unreproduced_text\": \"%s\",\n",
                     (unsigned long long)evals, (unsigned long long)disc,
                     (unsigned long long)nontriv, distinct.size(), violations, flaky,
                     jesc(flaky_text).c_str());
        auto dump = [&](const char* n, const std::map<std::string, uint64_t>& m) {
            std::fprintf(f, "\"%s\": {", n);
            bool first = true;
            for (auto& [a, b] : m) {
                std::fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", jesc(a).c_str(),
                             (unsigned long long)b);
                first = false;
            }
            std::fprintf(f, "},\n");
        };
        dump("labels", labels);
        dump("knowns", knowns);
        dump("per_sub", persub);
        std::fprintf(f, "\"samples\": [");
        for (size_t i = 0; i < samples.size(); ++i) {
            std::fprintf(f, "%s\"%s\"", i ? ",\n" : "", samples[i].c_str());
        }
        std::fprintf(f, "]}\n");
        std::fclose(f);
    }
    return violations ? 1 : 0;
}
