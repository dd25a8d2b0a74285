// C22: the library's queues against sequential models and under concurrent producers, consumers and thieves;
// spin lock exclusion and semaphore counting.
#include "pbt.h"
#include "CGraph.h"
#include <deque>
#include <algorithm>
using namespace CGraph;
using pbt::Src;
using pbt::Ctx;

static std::atomic<int64_t> alive{0};
struct Val {
    int p = -1, s = -1; std::string pad;
    Val() { alive++; }
    Val(int a, int b) : p(a), s(b), pad(8 + (a * 7 + b) % 40, 'q') { alive++; }
    Val(const Val& o) : p(o.p), s(o.s), pad(o.pad) { alive++; }
    Val(Val&& o) : p(o.p), s(o.s), pad(std::move(o.pad)) { o.p = o.s = -9; o.pad.clear(); alive++; }
    Val(Val&& o, int pr) : p(pr), s(o.s), pad(std::move(o.pad)) { alive++; }
    Val& operator=(const Val& o) = default;
    Val& operator=(Val&& o) { p = o.p; s = o.s; pad = std::move(o.pad); o.p = o.s = -9; o.pad.clear(); return *this; }
    ~Val() { alive--; }
    bool operator<(const Val& o) const { return p < o.p; }
    void ok() const { if (p < 0 || s < 0 || pad != std::string(8 + (p * 7 + s) % 40, 'q')) pbt::failf("a popped element is damaged (%d,%d)", p, s); }
};
typedef std::deque<int> Mod;
static void same(const Val& v, int want, const char* op) { v.ok(); if (v.s != want) pbt::failf("%s yields %d, expected %d", op, v.s, want); }

// ------------------------------------------------------------------ sequential
static void seqAtomic(Src& src, Ctx& ctx) {
    UAtomicQueue<Val> q; Mod m; int next = 0, pops = 0; bool ready = true;
    int ops = src.sized(2, 50);
    for (int i = 0; i < ops; i++) {
        switch (src.pick({6, 2, 3, 2, 2, 1, 1, 1})) {
            case 0: ctx.desc << " push" << next; ctx.publish(); q.push(Val(0, next)); m.push_back(next++); break;
            case 1: { Val v; bool r = q.tryPop(v); PBT_CHECK(r == !m.empty(), "tryPop returned %d", r); if (r) { same(v, m.front(), "tryPop"); m.pop_front(); pops++; } break; }
            case 2: { int n = src.range(0, 4); std::vector<Val> v; bool r = q.tryPop(v, n); size_t want = std::min<size_t>(n, m.size()); ctx.desc << " popn" << n; PBT_CHECK(v.size() == want && r == (want > 0), "batch pop of %d returned %zu elements, expected %zu", n, v.size(), want); for (auto& x : v) { same(x, m.front(), "batch pop"); m.pop_front(); pops++; } break; }
            case 3: { auto v = q.tryPop(); PBT_CHECK((v != nullptr) == !m.empty(), "tryPop pointer"); if (v) { same(*v, m.front(), "tryPop"); m.pop_front(); pops++; } break; }
            case 4: { int t = src.pick({3, 1}) ? src.range(1, 3) : 0; ctx.desc << " wait" << t; double t0 = pbt::now_s(); auto v = q.popWithTimeout(t); PBT_CHECK((v != nullptr) == (!m.empty() && ready), "a timed pop of a queue with %zu elements returned %d", m.size(), v != nullptr); if (v) { same(*v, m.front(), "timed pop"); m.pop_front(); pops++; } else if (ready) PBT_CHECK(pbt::now_s() - t0 >= t * 1e-3 - 1e-4, "a timed pop gave up before its time"); break; }
            case 5: if (!m.empty()) { Val v; q.waitPop(v); same(v, m.front(), "waitPop"); m.pop_front(); pops++; } break;
            case 6: PBT_CHECK(q.empty() == m.empty(), "empty() with %zu elements", m.size()); break;
            default: if (src.chance(1, 3)) { if (src.flip()) { q.setup(); m.clear(); ready = true; ctx.desc << " setup"; } else { q.reset(); ready = false; ctx.desc << " reset"; } }
        }
    }
    ctx.nontrivial = pops > 2; ctx.label("sequential blocking queue");
}
static void seqSteal(Src& src, Ctx& ctx) {
    UWorkStealingQueue<Val> q; Mod m; int next = 0, pops = 0, steals = 0;
    int ops = src.sized(2, 50);
    for (int i = 0; i < ops; i++) {
        switch (src.pick({4, 2, 2, 2, 4, 2, 4, 2, 1})) {
            case 0: ctx.desc << " push" << next; ctx.publish(); q.push(Val(0, next)); m.push_back(next++); break;
            case 1: PBT_CHECK(q.tryPush(Val(0, next)), "tryPush failed without contention"); m.push_back(next++); break;
            case 2: { int n = src.range(0, 4); std::vector<Val> v; for (int k = 0; k < n; k++) { v.emplace_back(0, next); m.push_back(next++); } q.push(v); break; }
            case 3: { int n = src.range(2, 4); for (int k = 0; k < n; k++) { q.push(Val(0, next), k == 0 || k == n - 1, k == 0); m.push_back(next++); } break; }
            case 4: { Val v; bool r = q.tryPop(v); PBT_CHECK(r == !m.empty(), "tryPop returned %d", r); if (r) { same(v, m.front(), "the owner's pop"); m.pop_front(); pops++; } break; }
            case 5: { int n = src.range(0, 4); std::vector<Val> v; bool r = q.tryPop(v, n); size_t want = std::min<size_t>(n, m.size()); ctx.desc << " popn" << n; PBT_CHECK(v.size() == want && r == (want > 0), "batch pop of %d returned %zu elements, expected %zu", n, v.size(), want); for (auto& x : v) { same(x, m.front(), "batch pop"); m.pop_front(); pops++; } break; }
            case 6: { Val v; bool r = q.trySteal(v); PBT_CHECK(r == !m.empty(), "trySteal returned %d", r); if (r) { same(v, m.back(), "a steal"); m.pop_back(); steals++; } break; }
            case 7: { int n = src.range(0, 4); std::vector<Val> v; bool r = q.trySteal(v, n); size_t want = std::min<size_t>(n, m.size()); ctx.desc << " stealn" << n; PBT_CHECK(v.size() == want && r == (want > 0), "batch steal of %d returned %zu elements, expected %zu", n, v.size(), want); for (auto& x : v) { same(x, m.back(), "batch steal"); m.pop_back(); steals++; } break; }
            default: PBT_CHECK(q.isEmpty() == m.empty(), "isEmpty() with %zu elements", m.size());
        }
    }
    ctx.nontrivial = pops > 0 && steals > 0; ctx.label("sequential stealing queue");
}
static void seqPrio(Src& src, Ctx& ctx) {
    UAtomicPriorityQueue<Val> q; UAtomicPriorityQueue<UTask> t; std::multiset<int> m; int ran = -1; int pops = 0;
    int ops = src.sized(2, 50); bool any = src.flip();
    auto checkTop = [&](int p, const char* op) { PBT_CHECK(!m.empty() && p == *m.rbegin(), "%s yields priority %d, the highest present is %d", op, p, m.empty() ? -1 : *m.rbegin()); m.erase(std::prev(m.end())); pops++; };
    for (int i = 0; i < ops; i++) {
        switch (src.pick({6, 4, 2, 1})) {
            case 0: { int p = any ? src.range(0, 200) : src.range(0, 3); ctx.desc << " push" << p; ctx.publish(); q.push(Val(0, i), p); int pp = p - 100; t.push(UTask([&ran, pp] { ran = pp; }), pp); m.insert(p); break; }
            case 1: { Val v; UTask u; bool had = !m.empty(); bool r = q.tryPop(v), r2 = t.tryPop(u); PBT_CHECK(r == had && r2 == had, "tryPop returned %d %d", r, r2); if (r) { u(); PBT_CHECK(ran == v.p - 100, "the task queue yields priority %d, the other %d", ran, v.p - 100); checkTop(v.p, "pop"); } break; }
            case 2: { int n = src.range(0, 4); ctx.desc << " popn" << n; std::vector<Val> v; std::vector<UTask> u; size_t want = std::min<size_t>(n, m.size()); bool r = q.tryPop(v, n), r2 = t.tryPop(u, n); PBT_CHECK(v.size() == want && u.size() == want && r == (want > 0) && r2 == r, "batch pop of %d returned %zu elements, expected %zu", n, v.size(), want); for (size_t k = 0; k < want; k++) { u[k](); PBT_CHECK(ran == v[k].p - 100, "batch pop of tasks"); checkTop(v[k].p, "batch pop"); } break; }
            default: PBT_CHECK(q.empty() == m.empty() && t.empty() == m.empty(), "empty() with %zu elements", m.size());
        }
    }
    while (!m.empty()) { Val v; PBT_CHECK(q.tryPop(v), "drain"); checkTop(v.p, "pop while draining"); }
    ctx.nontrivial = pops > 2; ctx.label("sequential priority queue");
}
static void seqRing(Src& src, Ctx& ctx) {
    UAtomicRingBufferQueue<Val, 3> q; int cap = 3; Mod m; int next = 0, pops = 0, full = 0;
    if (src.flip()) { cap = src.range(1, 6); q.setCapacity(cap); }
    ctx.desc << "ring of " << cap << ":";
    int ops = src.sized(2, 60);
    std::vector<std::weak_ptr<Val>> weak;
    for (int i = 0; i < ops; i++) {
        switch (src.pick({6, 5, 1, 1})) {
            case 0: {
                bool isFull = (int)m.size() == cap; int st = src.range(isFull ? 1 : 0, 2);
                ctx.desc << " push" << next << "WRD"[st]; ctx.publish();
                auto v = std::make_shared<Val>(0, next); weak.push_back(v);
                q.push(v, st == 0 ? URingBufferPushStrategy::WAIT : st == 1 ? URingBufferPushStrategy::REPLACE : URingBufferPushStrategy::DROP);
                if (!isFull) m.push_back(next); else { full++; if (st == 1) { m.pop_front(); m.push_back(next); } }
                next++; break;
            }
            case 1: { int t = m.empty() && src.chance(1, 3) ? src.range(1, 2) : 0; std::shared_ptr<Val> v; double t0 = pbt::now_s(); CStatus st = q.waitPopWithTimeout(v, t); ctx.desc << " pop"; PBT_CHECK(st.isOK() == !m.empty(), "a timed pop of a ring with %zu elements returned '%s'", m.size(), st.getInfo().c_str()); if (st.isOK()) { PBT_CHECK(v != nullptr, "pop yields nothing"); same(*v, m.front(), "pop"); m.pop_front(); pops++; } else PBT_CHECK(st.isErr() && !v && pbt::now_s() - t0 >= t * 1e-3 - 1e-4, "an empty pop"); break; }
            case 2: PBT_CHECK((int)q.getCapacity() == cap, "capacity %u", q.getCapacity()); break;
            default: if (src.chance(1, 2)) { ctx.desc << " clear"; ctx.publish(); q.clear(); m.clear(); for (auto& w : weak) PBT_CHECK(w.expired(), "clear keeps an element alive"); }
        }
    }
    ctx.nontrivial = pops > 0 && full > 0; ctx.label("sequential ring");
}
static void seqFree(Src& src, Ctx& ctx) {
    ULockFreeRingBufferQueue<Val, 4> q; Mod m; int next = 0, pops = 0;
    int ops = src.sized(2, 50);
    for (int i = 0; i < ops; i++) {
        if (src.flip() && m.size() < 3) { q.push(Val(0, next)); m.push_back(next++); }
        else { Val v; bool r = q.tryPop(v); PBT_CHECK(r == !m.empty(), "tryPop returned %d", r); if (r) { same(v, m.front(), "tryPop"); m.pop_front(); pops++; } }
    }
    ctx.nontrivial = pops > 2; ctx.label("sequential lock-free ring");
}
// ------------------------------------------------------------------ concurrent
struct Run {
    int P, C, N; std::vector<std::vector<Val>> got; std::atomic<int> popped{0}, pushed{0}, prodDone{0}; std::atomic<int> go{0};
    Run(Src& s, int maxP, int maxC) { P = s.range(1, maxP); C = s.range(1, maxC); N = s.pick({1, 2, 1}) == 0 ? s.range(1, 10) : s.range(10, 150); got.resize(C); }
    void start() { go++; while (go < P + C) std::this_thread::yield(); }
    void run(const std::function<void(int)>& prod, const std::function<void(int)>& cons) {
        std::vector<std::thread> t;
        for (int i = 0; i < P; i++) t.emplace_back([&, i] { start(); prod(i); prodDone++; });
        for (int i = 0; i < C; i++) t.emplace_back([&, i] { start(); cons(i); });
        for (auto& x : t) x.join();
    }
    bool all() const { return popped >= P * N; }
    void take(int c, Val&& v) { v.ok(); got[c].push_back(std::move(v)); popped++; }
    void check(bool complete, const std::vector<bool>& ordered) {
        std::vector<std::vector<int>> seen(P, std::vector<int>(N, 0));
        for (int c = 0; c < C; c++) {
            std::vector<int> last(P, -1);
            for (auto& v : got[c]) {
                PBT_CHECK(v.p < P && v.s < N, "an element nobody pushed");
                PBT_CHECK(seen[v.p][v.s]++ == 0, "element %d of producer %d was handed out twice", v.s, v.p);
                if (ordered[c]) { PBT_CHECK(v.s > last[v.p], "consumer %d got element %d of producer %d after %d", c, v.s, v.p, last[v.p]); last[v.p] = v.s; }
            }
        }
        if (complete) for (int p = 0; p < P; p++) for (int s = 0; s < N; s++) PBT_CHECK(seen[p][s] == 1, "element %d of producer %d was lost", s, p);
    }
};
static void concAtomic(Src& src, Ctx& ctx) {
    UAtomicQueue<Val> q; Run r(src, 3, 3); std::vector<int> mode; for (int i = 0; i < r.C; i++) mode.push_back(src.range(0, 4));
    ctx.desc << r.P << " producers of " << r.N << ", consumers"; for (int m : mode) ctx.desc << " " << m; ctx.publish();
    int waiters = 0; for (int m : mode) waiters += m == 4;
    std::vector<std::atomic<int>> quota(r.C); int total = r.P * r.N; for (int i = 0; i < r.C; i++) quota[i] = total / r.C + (i == 0 ? total % r.C : 0);
    r.run([&](int p) { for (int i = 0; i < r.N; i++) { q.push(Val(p, i)); r.pushed++; } },
          [&](int c) {
              while (quota[c] > 0) {
                  switch (mode[c]) {
                      case 0: { Val v; if (q.tryPop(v)) { r.take(c, std::move(v)); quota[c]--; } break; }
                      case 1: { std::vector<Val> v; q.tryPop(v, std::min<int>(3, quota[c])); PBT_CHECK((int)v.size() <= std::min<int>(3, quota[c]), "a batch pop exceeded its limit"); for (auto& x : v) { r.take(c, std::move(x)); quota[c]--; } break; }
                      case 2: { auto v = q.tryPop(); if (v) { r.take(c, std::move(*v)); quota[c]--; } break; }
                      case 3: { int before = r.pushed, had = r.popped; double t0 = pbt::now_s(); auto v = q.popWithTimeout(2); if (v) { r.take(c, std::move(*v)); quota[c]--; } else { PBT_CHECK(pbt::now_s() - t0 > 0.0019, "a timed pop gave up early"); if (r.C == 1) PBT_CHECK(before <= had, "a timed pop came back empty-handed though %d elements were there", before - had); } break; }
                      default: { Val v; q.waitPop(v); r.take(c, std::move(v)); quota[c]--; }
                  }
              }
          });
    r.check(true, std::vector<bool>(r.C, true)); PBT_CHECK(q.empty(), "the queue is not empty at the end");
    ctx.nontrivial = r.P + r.C > 2; ctx.label("concurrent blocking queue");
    if (src.chance(1, 6)) {   // reset releases a waiting consumer at once
        double t0 = pbt::now_s(); std::thread t([&] { auto v = q.popWithTimeout(60000); PBT_CHECK(!v, "pop after reset"); });
        if (src.flip()) std::this_thread::sleep_for(std::chrono::microseconds(300));
        q.reset(); t.join(); PBT_CHECK(pbt::now_s() - t0 < 20, "reset did not release a waiting consumer"); ctx.label("reset while waiting");
    }
}
static void concSteal(Src& src, Ctx& ctx) {
    UWorkStealingQueue<Val> q; Run r(src, 3, 3); bool batch = src.flip(); int pm = src.range(0, 3);
    ctx.desc << r.P << " producers of " << r.N << " mode " << pm << ", owner and " << r.C - 1 << " thieves, batch " << batch; ctx.publish();
    r.run([&](int p) {
              for (int i = 0; i < r.N;) {
                  if (pm == 1) { while (!q.tryPush(Val(p, i))) {} i++; }
                  else if (pm == 2) { std::vector<Val> v; for (int k = 0; k < 3 && i < r.N; k++) v.emplace_back(p, i++); q.push(v); }
                  else if (pm == 3 && r.N - i >= 3) { q.push(Val(p, i), true, true); q.push(Val(p, i + 1), false, true); q.push(Val(p, i + 2), true, false); i += 3; }
                  else q.push(Val(p, i++));
              }
          },
          [&](int c) {
              while (!r.all()) {
                  if (batch) { std::vector<Val> v; bool b = c == 0 ? q.tryPop(v, 2) : q.trySteal(v, 3); PBT_CHECK(b == !v.empty() && v.size() <= (c == 0 ? 2u : 3u), "a batch of %zu", v.size()); for (auto& x : v) r.take(c, std::move(x)); }
                  else { Val v; if (c == 0 ? q.tryPop(v) : q.trySteal(v)) r.take(c, std::move(v)); }
              }
          });
    std::vector<bool> ord(r.C, false); ord[0] = true; r.check(true, ord); PBT_CHECK(q.isEmpty(), "the queue is not empty at the end");
    ctx.nontrivial = r.P + r.C > 2; ctx.label("concurrent stealing queue");
}
static void concPrio(Src& src, Ctx& ctx) {
    UAtomicPriorityQueue<UTask> q; Run r(src, 3, 3); std::vector<std::vector<std::atomic<int>>> ran(r.P); for (auto& v : ran) { std::vector<std::atomic<int>> w(r.N); v.swap(w); }
    std::vector<int> pr; for (int i = 0; i < 16; i++) pr.push_back(src.range(-100, 100)); bool late = src.flip();
    ctx.desc << r.P << " producers of " << r.N << " prioritised tasks, " << r.C << " consumers" << (late ? " after all were pushed" : ""); ctx.publish();
    thread_local static int lastPrio; std::mutex mx; std::vector<int> order;
    r.run([&](int p) { for (int i = 0; i < r.N; i++) { int z = pr[(p * 5 + i) % 16]; auto* c = &ran[p][i]; q.push(UTask([c, z] { (*c)++; lastPrio = z; }), z); } },
          [&](int c) {
              if (late) while (r.prodDone < r.P) std::this_thread::yield();
              int prev = 1000;
              while (!r.all()) { UTask t; if (q.tryPop(t)) { t(); r.popped++; if (late) { PBT_CHECK(lastPrio <= prev, "consumer %d got priority %d after %d though all tasks were there before", c, lastPrio, prev); prev = lastPrio; } } }
          });
    for (auto& v : ran) for (auto& x : v) PBT_CHECK(x == 1, "a prioritised task ran %d times", (int)x);
    PBT_CHECK(q.empty(), "the queue is not empty at the end");
    ctx.nontrivial = true; ctx.label("concurrent priority queue");
}
static void concRing(Src& src, Ctx& ctx) {
    UAtomicRingBufferQueue<Val, 8> q; int cap = src.range(1, 6); q.setCapacity(cap); Run r(src, 3, 3); int st = src.pick({3, 1, 1});
    ctx.desc << "ring of " << cap << ", " << r.P << " producers of " << r.N << " strategy " << st << ", " << r.C << " consumers"; ctx.publish();
    auto strat = st == 0 ? URingBufferPushStrategy::WAIT : st == 1 ? URingBufferPushStrategy::REPLACE : URingBufferPushStrategy::DROP;
    r.run([&](int p) { for (int i = 0; i < r.N; i++) { q.push(std::make_shared<Val>(p, i), strat); r.pushed++; } },
          [&](int c) {
              for (;;) {
                  bool end = r.prodDone == r.P; int before = r.pushed, had = r.popped;
                  std::shared_ptr<Val> v; CStatus s = q.waitPopWithTimeout(v, 1);
                  if (s.isOK()) { PBT_CHECK(v != nullptr, "pop yields nothing"); r.take(c, Val(*v)); continue; }
                  if (r.C == 1 && st == 0) PBT_CHECK(before <= had, "a timed pop came back empty-handed though %d elements were there", before - had);
                  if (st == 0 ? r.all() : end) break;
                  if (end && r.C == 1) { PBT_CHECK(st != 0, "elements were lost"); break; }
              }
          });
    r.check(st == 0, std::vector<bool>(r.C, true));
    if (st == 1) { bool lastOne = false; for (auto& g : r.got) for (auto& v : g) lastOne |= v.s == r.N - 1; PBT_CHECK(lastOne, "the newest elements were lost with the replacing strategy"); }
    if (st == 2) PBT_CHECK((int)r.popped >= std::min(cap, r.P * r.N), "only %d elements came through", (int)r.popped);
    ctx.nontrivial = true; ctx.label("concurrent ring");
}
static void concFree(Src& src, Ctx& ctx) {
    ULockFreeRingBufferQueue<Val, 5> q; Run r(src, 1, 1);
    ctx.desc << "lock-free ring, " << r.N << " elements"; ctx.publish();
    r.run([&](int p) { for (int i = 0; i < r.N; i++) q.push(Val(p, i)); }, [&](int c) { while (!r.all()) { Val v; if (q.tryPop(v)) r.take(c, std::move(v)); } });
    r.check(true, {true});
    ctx.nontrivial = r.N > 4; ctx.label("concurrent lock-free ring");
}
static void concLock(Src& src, Ctx& ctx) {
    int T = src.range(2, 4), N = src.range(5, 200); bool tryIt = src.flip();
    ctx.desc << T << " threads, " << N << " critical sections, try " << tryIt; ctx.publish();
    USpinLock l; int64_t plain = 0; std::atomic<int> in{0}; std::vector<std::thread> t; std::atomic<int> go{0};
    for (int i = 0; i < T; i++) t.emplace_back([&] { go++; while (go < T) {} for (int k = 0; k < N; k++) { if (tryIt) { while (!l.tryLock()) std::this_thread::yield(); } else l.lock(); if (in++ != 0) pbt::fail("two threads hold the spin lock"); plain++; in--; l.unlock(); } });
    for (auto& x : t) x.join();
    PBT_CHECK(plain == int64_t(T) * N, "updates were lost under the spin lock");
    PBT_CHECK(l.tryLock() && !l.tryLock(), "tryLock"); l.unlock(); PBT_CHECK(l.tryLock(), "tryLock after unlock");
    // semaphore
    USemaphore s; int W = src.range(1, 3), per = src.range(1, 30), S = src.range(1, 3); std::atomic<int> sig{0}, done{0}; t.clear();
    for (int i = 0; i < W; i++) t.emplace_back([&] { for (int k = 0; k < per; k++) { s.wait(); int d = ++done; PBT_CHECK(d <= sig, "%d waits have come back after %d signals", d, (int)sig); } });
    bool slow = src.flip();
    for (int i = 0; i < S; i++) t.emplace_back([&, i] { int n = W * per / S + (i == 0 ? W * per % S : 0); for (int k = 0; k < n; k++) { if (slow && k % 8 == 0) std::this_thread::yield(); sig++; s.signal(); } });
    for (auto& x : t) x.join();
    PBT_CHECK(done == W * per, "waits");
    ctx.nontrivial = true; ctx.label("spin lock and semaphore");
}
static void prop(Src& src, Ctx& ctx) {
    int64_t before = alive;
    switch (src.pick({3, 3, 3, 3, 1, 2, 2, 2, 2, 1, 1})) {
        case 0: seqAtomic(src, ctx); break; case 1: seqSteal(src, ctx); break; case 2: seqPrio(src, ctx); break; case 3: seqRing(src, ctx); break; case 4: seqFree(src, ctx); break;
        case 5: concAtomic(src, ctx); break; case 6: concSteal(src, ctx); break; case 7: concPrio(src, ctx); break; case 8: concRing(src, ctx); break; case 9: concFree(src, ctx); break; default: concLock(src, ctx);
    }
    PBT_CHECK(alive == before, "%lld elements were not destroyed exactly once", (long long)(alive - before));
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, prop); }
