// Small property-based testing core: choice-sequence generation, shm-recorded choices (so that crashes and hangs
// keep their input), classification counters, sampling, watchdog. Shrinking and confirmation live in run.py and
// work on the recorded choice sequence; a replay file is that sequence.
#ifndef VERIF_PBT_H
#define VERIF_PBT_H

#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <thread>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace pbt {

constexpr uint32_t kMaxChoices = 1u << 17;
struct Shm {
    std::atomic<uint64_t> case_index;
    std::atomic<uint64_t> cases_done;
    std::atomic<uint32_t> nchoices;
    std::atomic<uint32_t> running;
    char message[4096];
    char desc[32768];
    uint32_t choices[kMaxChoices];
};

inline Shm*& shm() { static Shm* p = nullptr; return p; }

inline uint64_t splitmix(uint64_t& s) {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

// The source of every random decision of a case. All draws happen on the case's own thread, before or between
// the calls into the code under test.
class Src {
public:
    Src(uint64_t seed, double size) : state_(seed), size_(size) {}
    explicit Src(std::vector<uint32_t> data) : replay_(true), data_(std::move(data)) {}

    // uniform in [0, bound)
    uint32_t below(uint32_t bound) {
        if (bound <= 1) { return 0; }
        uint32_t v;
        if (replay_) {
            v = pos_ < data_.size() ? data_[pos_] : 0;
            pos_++;
            if (v >= bound) { v = v % bound; }
        } else {
            v = static_cast<uint32_t>((splitmix(state_) >> 11) % bound);
        }
        record(v);
        return v;
    }
    int range(int lo, int hi) { return lo + static_cast<int>(below(static_cast<uint32_t>(hi - lo + 1))); }
    // like range, but the upper end grows with the case size (small cases first); full range is reached
    int sized(int lo, int hi) {
        if (replay_) { return range(lo, hi); }
        int h = lo + static_cast<int>((hi - lo) * size_ + 0.5);
        if (h > hi) h = hi;
        if (h < lo + 1) h = lo + 1 > hi ? hi : lo + 1;
        uint32_t v = static_cast<uint32_t>((splitmix(state_) >> 11) % static_cast<uint32_t>(h - lo + 1));
        if (hi > lo) record(v);
        return lo + static_cast<int>(v);
    }
    bool chance(int num, int den) { return below(static_cast<uint32_t>(den)) >= static_cast<uint32_t>(den - num); }
    bool flip() { return below(2) == 1; }
    uint32_t bits() { return below(0xFFFFFFFFu); }
    // index by weights; index 0 should be the simplest
    int pick(std::initializer_list<int> w) {
        int tot = 0;
        for (int x : w) tot += x;
        int v = static_cast<int>(below(static_cast<uint32_t>(tot)));
        int i = 0;
        for (int x : w) { if (v < x) return i; v -= x; i++; }
        return 0;
    }
    uint64_t hash() const { return h_; }
    uint32_t count() const { return n_; }
    bool replaying() const { return replay_; }

private:
    void record(uint32_t v) {
        h_ = (h_ ^ (v + 0x9E3779B9u)) * 1099511628211ull;
        Shm* s = shm();
        if (s && n_ < kMaxChoices) { s->choices[n_] = v; s->nchoices.store(n_ + 1, std::memory_order_relaxed); }
        n_++;
    }
    uint64_t state_ = 0;
    double size_ = 1.0;
    bool replay_ = false;
    std::vector<uint32_t> data_;
    size_t pos_ = 0;
    uint32_t n_ = 0;
    uint64_t h_ = 14695981039346656037ull;
};

struct Stats {
    std::map<std::string, uint64_t> labels;
    std::unordered_set<uint64_t> nontrivial;
    std::vector<std::string> samples;
    uint64_t evaluations = 0;
    uint64_t nontrivial_total = 0;
};
inline Stats& stats() { static Stats s; return s; }

inline std::atomic<uint64_t>& heartbeat() { static std::atomic<uint64_t> h{0}; return h; }
inline void write_stats();

[[noreturn]] inline void fail(const std::string& msg) {
    static std::atomic<int> once{0};
    if (once.fetch_add(1) == 0) {
        if (Shm* s = shm()) { snprintf(s->message, sizeof s->message, "%s", msg.c_str()); }
        fprintf(stdout, "\nPBT-FAIL %s\n", msg.c_str());
        fflush(stdout);
        _exit(10);
    }
    for (;;) pause();
}
[[noreturn]] inline void failf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] inline void failf(const char* fmt, ...) {
    char buf[3000];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    fail(buf);
}
#define PBT_CHECK(cond, ...) do { if (!(cond)) { pbt::failf(__VA_ARGS__); } } while (0)

// One case
struct Ctx {
    std::ostringstream desc;      // human-readable description, published before the risky part
    bool nontrivial = false;
    uint64_t extra_hash = 0;
    void label(const std::string& l) { stats().labels[l]++; }
    void publish() {
        if (Shm* s = shm()) { snprintf(s->desc, sizeof s->desc, "%s", desc.str().c_str()); }
    }
};
using PropFn = std::function<void(Src&, Ctx&)>;

inline std::string json_escape(const std::string& in) {
    std::string o;
    for (unsigned char c : in) {
        if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
        else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += static_cast<char>(c);
    }
    return o;
}
struct Opts { std::string stats_path, shm_path, replay_path; uint64_t seed = 1; uint64_t worker = 0, workers = 1;
    uint64_t cases = 100; double budget = 60; double hang = 30; uint64_t repeat = 1; bool verbose = false; };
inline Opts& opts() { static Opts o; return o; }

inline void write_stats() {
    if (opts().stats_path.empty()) return;
    FILE* f = fopen(opts().stats_path.c_str(), "w");
    if (!f) return;
    Stats& s = stats();
    fprintf(f, "{\"evaluations\":%llu,\"nontrivial_total\":%llu,\"hashes\":[", (unsigned long long)s.evaluations, (unsigned long long)s.nontrivial_total);
    bool first = true;
    for (uint64_t h : s.nontrivial) { fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h); first = false; }
    fprintf(f, "],\"labels\":{");
    first = true;
    for (auto& l : s.labels) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", json_escape(l.first).c_str(), (unsigned long long)l.second); first = false; }
    fprintf(f, "},\"samples\":[");
    first = true;
    for (auto& l : s.samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", json_escape(l.substr(0, 1500)).c_str()); first = false; }
    fprintf(f, "]}\n");
    fclose(f);
}

inline double now_s() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

inline void start_watchdog() {
    std::thread([] {
        uint64_t last = ~0ull; double since = now_s();
        for (;;) {
            std::this_thread::sleep_for(std::chrono::milliseconds(200));
            uint64_t h = heartbeat().load();
            if (h != last) { last = h; since = now_s(); continue; }
            if (now_s() - since > opts().hang) {
                if (Shm* s = shm()) { snprintf(s->message, sizeof s->message, "hang: the case made no progress for %.0f s", opts().hang); }
                fprintf(stdout, "\nPBT-HANG\n"); fflush(stdout);
                if (getenv("PBT_HANGSTOP")) raise(SIGSTOP);      // leaves the hung process for a debugger
                _exit(11);
            }
        }
    }).detach();
}

inline void run_case(const PropFn& fn, Src& src) {
    Shm* s = shm();
    s->nchoices.store(0); s->message[0] = 0; s->desc[0] = 0; s->running.store(1);
    Ctx ctx;
    heartbeat()++;
    fn(src, ctx);
    heartbeat()++;
    s->running.store(0);
    Stats& st = stats();
    st.evaluations++;
    s->cases_done.store(st.evaluations);
    if (ctx.nontrivial) {
        st.nontrivial_total++;
        if (st.nontrivial.insert(src.hash() ^ ctx.extra_hash).second && st.nontrivial.size() % 97 == 5 && st.samples.size() < 4) {
            st.samples.push_back(ctx.desc.str());
        }
    }
}

inline int run_main(int argc, char** argv, const PropFn& fn) {
    Opts& o = opts();
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") o.seed = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--worker") o.worker = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--workers") o.workers = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--cases") o.cases = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--budget") o.budget = atof(next().c_str());
        else if (a == "--hang") o.hang = atof(next().c_str());
        else if (a == "--repeat") o.repeat = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--shm") o.shm_path = next();
        else if (a == "--stats") o.stats_path = next();
        else if (a == "--replay") o.replay_path = next();
        else if (a == "--verbose") o.verbose = true;
    }
    void* mem = MAP_FAILED;
    if (!o.shm_path.empty()) {
        int fd = open(o.shm_path.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd >= 0 && ftruncate(fd, sizeof(Shm)) == 0) mem = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    }
    if (mem == MAP_FAILED) mem = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    shm() = static_cast<Shm*>(mem);
    std::set_terminate([] {
        std::string what = "(not a std::exception)";
        try { if (auto e = std::current_exception()) std::rethrow_exception(e); } catch (const std::exception& e) { what = e.what(); } catch (...) {}
        fail("process terminated by an uncaught exception: " + what);
    });
    start_watchdog();
    double t0 = now_s();
    if (!o.replay_path.empty()) {
        std::vector<uint32_t> data;
        FILE* f = fopen(o.replay_path.c_str(), "r");
        if (!f) { fprintf(stderr, "no replay file\n"); return 2; }
        unsigned v;
        while (fscanf(f, "%u", &v) == 1) data.push_back(v);
        fclose(f);
        for (uint64_t r = 0; r < o.repeat && now_s() - t0 < o.budget; r++) {
            Src src(data);
            run_case(fn, src);
            if (o.verbose && r == 0) printf("%s\n", shm()->desc);
        }
        write_stats();
        fflush(stdout);
        _exit(0);
    }
    for (uint64_t i = o.worker; i < o.cases; i += o.workers) {
        shm()->case_index.store(i);
        uint64_t s = o.seed * 0x9E3779B97F4A7C15ull + i * 0xD1342543DE82EF95ull + 0x1234567;
        splitmix(s);
        // sizes: small cases first, then a fixed mix (independent of the number of cases that fit the budget)
        uint64_t k = i / o.workers;
        static const double mix[8] = {1.0, 0.3, 1.0, 0.6, 1.0, 0.15, 0.8, 0.5};
        double size = k < 40 ? double(k) / 40.0 : mix[k % 8];
        Src src(s, size);
        double c0 = now_s();
        run_case(fn, src);
        static const char* slow = getenv("PBT_SLOW");      // tuning aid: print the cases that take longer than this many seconds
        if (slow && now_s() - c0 > atof(slow)) printf("--- case %llu took %.2fs\n%s\n", (unsigned long long)i, now_s() - c0, shm()->desc);
        if (now_s() - t0 > o.budget) { stats().labels["(stopped by time budget)"]++; break; }
    }
    write_stats();
    fflush(stdout);
    _exit(0);   // no static destruction: worker state is irrelevant once the cases are done
}

}  // namespace pbt
#endif
