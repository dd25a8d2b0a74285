// C31: distance calculators, numeric helpers, random generation, reflection round-trip, singleton holder.
#include "pbt.h"
#include "CGraph.h"
#include "UtilsCtrl/Reflection/UReflectionInclude.h"
#include <cmath>
#include <list>
using namespace CGraph;
using pbt::Src;
using pbt::Ctx;

// ------------------------------------------------------------------ reflection vocabulary
enum class Col : uint16_t { A = 0, B = 7, C = 65535 };
struct R0 { int i = 0; std::string s; bool b = false; double d = 0; Col c = Col::A;
    bool operator==(const R0& o) const { return i == o.i && s == o.s && b == o.b && memcmp(&d, &o.d, 8) == 0 && c == o.c; } };
struct R1 { std::vector<int> vi; std::vector<std::string> vs; R0 r; std::vector<R0> vr; unsigned char u = 0; std::vector<std::vector<int>> vv;
    bool operator==(const R1& o) const { return vi == o.vi && vs == o.vs && r == o.r && vr == o.vr && u == o.u && vv == o.vv; } };
struct R2 { std::vector<R1> v1; std::string name; R1 one; int64_t big = 0; float f = 0; std::vector<Col> vc; std::vector<std::vector<R0>> vvr;
    bool operator==(const R2& o) const { return v1 == o.v1 && name == o.name && one == o.one && big == o.big && memcmp(&f, &o.f, 4) == 0 && vc == o.vc && vvr == o.vvr; } };
CGRAPH_NAMESPACE_BEGIN
CGRAPH_INTERNAL_NAMESPACE_BEGIN
UREFL_CREATE_STRUCT_TRAIT_INFO(R0, UREFL_DECLARE_FIELD(R0, i, 1), UREFL_DECLARE_FIELD(R0, s, 2), UREFL_DECLARE_FIELD(R0, b, 3), UREFL_DECLARE_FIELD(R0, d, 4), UREFL_DECLARE_FIELD(R0, c, 5))
UREFL_CREATE_STRUCT_TRAIT_INFO(R1, UREFL_DECLARE_FIELD(R1, vi, 1), UREFL_DECLARE_FIELD(R1, vs, 2), UREFL_DECLARE_FIELD(R1, r, 3), UREFL_DECLARE_FIELD(R1, vr, 4), UREFL_DECLARE_FIELD(R1, u, 5), UREFL_DECLARE_FIELD(R1, vv, 6))
UREFL_CREATE_STRUCT_TRAIT_INFO(R2, UREFL_DECLARE_FIELD(R2, v1, 1), UREFL_DECLARE_FIELD(R2, name, 2), UREFL_DECLARE_FIELD(R2, one, 3), UREFL_DECLARE_FIELD(R2, big, 4), UREFL_DECLARE_FIELD(R2, f, 5), UREFL_DECLARE_FIELD(R2, vc, 6), UREFL_DECLARE_FIELD(R2, vvr, 7))
CGRAPH_INTERNAL_NAMESPACE_END
CGRAPH_NAMESPACE_END

static int cnt(Src& s) { return s.pick({2, 3, 1}) == 0 ? 0 : s.sized(0, 4); }
static std::string str(Src& s) { std::string r; int n = s.pick({1, 3, 1}); n = n == 0 ? 0 : n == 1 ? s.range(1, 12) : s.range(13, 200); for (int i = 0; i < n; i++) r += static_cast<char>(s.below(256)); return r; }
static int num(Src& s) { int k = s.pick({4, 1, 1, 1}); return k == 0 ? s.range(-100, 100) : k == 1 ? INT32_MIN : k == 2 ? INT32_MAX : (int)s.bits(); }
static double dbl(Src& s) { int k = s.pick({4, 1, 1}); return k == 0 ? s.range(-10000, 10000) / 8.0 : k == 1 ? HUGE_VAL : -0.0; }
static Col col(Src& s) { int k = s.pick({1, 1, 1}); return k == 0 ? Col::A : k == 1 ? Col::B : Col::C; }
static R0 g0(Src& s) { R0 r; r.i = num(s); r.s = str(s); r.b = s.flip(); r.d = dbl(s); r.c = col(s); return r; }
static R1 g1(Src& s) {
    R1 r; int n;
    n = cnt(s); for (int i = 0; i < n; i++) r.vi.push_back(num(s));
    n = cnt(s); for (int i = 0; i < n; i++) r.vs.push_back(str(s));
    r.r = g0(s); n = cnt(s); for (int i = 0; i < n; i++) r.vr.push_back(g0(s));
    r.u = static_cast<unsigned char>(s.below(256));
    n = cnt(s); for (int i = 0; i < n; i++) { r.vv.emplace_back(); int k = cnt(s); for (int j = 0; j < k; j++) r.vv.back().push_back(num(s)); }
    return r;
}
static R2 g2(Src& s) {
    R2 r; int n = cnt(s) / 2; for (int i = 0; i < n; i++) r.v1.push_back(g1(s));
    r.name = str(s); r.one = g1(s); r.big = (int64_t(num(s)) << 32) + num(s); r.f = (float)dbl(s);
    n = cnt(s); for (int i = 0; i < n; i++) r.vc.push_back(col(s));
    n = cnt(s); for (int i = 0; i < n; i++) { r.vvr.emplace_back(); int k = cnt(s); for (int j = 0; j < k; j++) r.vvr.back().push_back(g0(s)); }
    return r;
}
template <class T> void trip(const T& x, Ctx& ctx) {
    CGraph::internal::UReflection<T> u;
    size_t n = u.getSize(x);
    // exactly the announced size, with guards on both sides (AddressSanitizer sees the heap edges too)
    std::unique_ptr<unsigned char[]> b(new unsigned char[n]), b2(new unsigned char[n]);
    memset(b.get(), 0x5a, n); memset(b2.get(), 0xa5, n);
    u.write(x, b.get(), n); u.write(x, b2.get(), n);
    PBT_CHECK(memcmp(b.get(), b2.get(), n) == 0, "writing left some of the %zu announced bytes unset", n);
    T y; u.read(y, b.get(), n);
    PBT_CHECK(y == x, "reading back yields another structure (size %zu)", n);
    PBT_CHECK(u.getSize(y) == n, "the structure read back announces another size");
    ctx.desc << "round trip of " << n << " bytes";
    if (n > 2000) ctx.label("large structure");
}

// ------------------------------------------------------------------ distances
template <class T, class R> void dist(Src& src, Ctx& ctx) {
    constexpr bool fp = std::is_floating_point<T>::value;
    int n = src.sized(1, 40); std::vector<T> a, b;
    auto val = [&]() -> T { return fp ? static_cast<T>(src.range(-4000, 4000) / 16.0) : static_cast<T>(src.range(-100, 100)); };
    for (int i = 0; i < n; i++) { a.push_back(val()); b.push_back(src.chance(1, 6) ? a.back() : val()); }
    long double dot = 0, na = 0, nb = 0, sq = 0;
    for (int i = 0; i < n; i++) { dot += (long double)a[i] * b[i]; na += (long double)a[i] * a[i]; nb += (long double)b[i] * b[i]; long double d = (long double)a[i] - b[i]; sq += d * d; }
    ctx.desc << "distance of dimension " << n; ctx.label("distance"); ctx.publish();
    auto near = [&](long double got, long double want, long double scale, const char* what) {
        long double tol = scale * n * (sizeof(T) == 4 || sizeof(R) == 4 ? 4e-6L : 1e-13L);
        PBT_CHECK(std::abs(got - want) <= tol, "%s is %Lg, expected %Lg", what, got, want);
    };
    UDistanceCalculator<T, R, UEuclideanDistance<T, R>, true> e; UDistanceCalculator<T, R, UEuclideanDistance<T, R, false>, false> e2;
    R r = 77;
    PBT_CHECK(e.calculate(a, b, r).isOK(), "euclidean distance refused"); 
    if (fp) near(r, sqrtl(sq), sqrtl(sq) + 1, "euclidean distance"); 
    R r2 = -3; PBT_CHECK(e2.calculate(a.data(), b.data(), n, n, r2).isOK(), "square distance refused"); near(r2, sq, sq + 1, "square distance");
    R r3 = -3; e.calculate(b, a, r3); PBT_CHECK(r3 == r, "the euclidean distance is not symmetric");
    // batch form equals the single form
    std::vector<std::vector<T>> nodes; int m = src.range(0, 5); for (int i = 0; i < m; i++) { nodes.emplace_back(); for (int j = 0; j < n; j++) nodes.back().push_back(val()); }
    std::vector<R> res(src.range(0, 7), 9); PBT_CHECK(e.calculate(a, nodes, res).isOK() && res.size() == nodes.size(), "batch of %d gives %zu results", m, res.size());
    for (int i = 0; i < m; i++) { R q = -1; e.calculate(a, nodes[i], q); PBT_CHECK(q == res[i], "batch result %d differs from the single one", i); }
    if (m > 0) { size_t w = src.below(m); nodes[w].pop_back(); PBT_CHECK(e.calculate(a, nodes, res).isErr(), "a batch with a short vector was accepted"); }
    // refusals
    std::vector<T> c(a.begin(), a.end() - 1); R keep = 5;
    PBT_CHECK(e.calculate(a, c, keep).isErr() && e.calculate(c, a, keep).isErr(), "vectors of different dimensions were accepted");
    std::vector<T> z; PBT_CHECK(e.calculate(z, z, keep).isErr() && e.calculate(a, z, keep).isErr(), "an empty vector was accepted");
    PBT_CHECK(e.calculate(nullptr, b.data(), n, n, keep).isErr() && e.calculate(a.data(), nullptr, n, n, keep).isErr(), "a null vector was accepted");
    if constexpr (fp) {
        UDistanceCalculator<T, R, UCosineDistance<T, R>, true> co;
        PBT_CHECK(co.calculate(a, c, keep).isErr() && co.calculate(c, a, keep).isErr() && co.calculate(z, z, keep).isErr() && co.calculate(nullptr, b.data(), n, n, keep).isErr(), "cosine of unsuitable vectors was accepted");
        if (na > 0 && nb > 0) {
            R q = 9; PBT_CHECK(co.calculate(a, b, q).isOK(), "cosine refused"); near(q, dot / (sqrtl(na) * sqrtl(nb)), 1, "cosine");
            std::vector<T> w = a; PBT_CHECK(co.normalize(w).isOK(), "normalize refused");
            long double len = 0; for (T x : w) len += (long double)x * x; near(sqrtl(len), 1, 1, "length after normalize");
            for (int i = 0; i < n; i++) near(w[i], a[i] / sqrtl(na), 1, "normalized component");
            PBT_CHECK(e.normalize(z).isErr(), "an empty vector was normalized");
        }
    }
    ctx.nontrivial = n > 2;
}

// ------------------------------------------------------------------ helpers and random
static void helpers(Src& src, Ctx& ctx) {
    int n = src.sized(0, 12); std::vector<int64_t> v; int64_t sum = 0, mul = 1;
    for (int i = 0; i < n; i++) { v.push_back(src.range(-9, 9)); sum += v.back(); mul *= v.back(); }
    ctx.desc << "helpers on " << n << " values"; ctx.label("helpers"); ctx.publish();
    PBT_CHECK(CGRAPH_CONTAINER_SUM(v) == sum && CGRAPH_CONTAINER_SUM(std::list<int64_t>(v.begin(), v.end())) == sum, "sum of the container");
    PBT_CHECK(CGRAPH_CONTAINER_MULTIPLY(v) == mul && CGRAPH_CONTAINER_MULTIPLY(std::set<int64_t>(v.begin(), v.end())) == [&] { std::set<int64_t> s(v.begin(), v.end()); int64_t m = 1; for (auto x : s) m *= x; return m; }(), "product of the container");
    int a = src.range(-50, 50), b = src.range(-50, 50), c = src.range(-50, 50), d = src.range(-50, 50);
    PBT_CHECK(CGRAPH_MAX(a, b, c, d) == std::max({a, b, c, d}) && CGRAPH_MAX(a, b) == std::max(a, b) && CGRAPH_MAX(a) == a && CGRAPH_MAX(a, b, c) == std::max({a, b, c}), "maximum of %d %d %d %d", a, b, c, d);
    PBT_CHECK(CGRAPH_SUM(a, b, c, d) == a + b + c + d && CGRAPH_SUM(a) == a && CGRAPH_SUM(a, b, c) == a + b + c, "sum of %d %d %d %d", a, b, c, d);
    double lo = src.range(-1000, 1000) / 4.0, hi = lo + src.range(1, 4000) / 8.0;
    int h = src.range(0, 6), w = src.range(0, 9);
    std::vector<std::vector<double>> g; g.resize(src.range(0, 3), std::vector<double>(2, 1e9));
    PBT_CHECK(URandom<double>::generate(g, h, w, lo, hi).isOK() && (int)g.size() == h, "matrix of %d rows", h);
    for (auto& r : g) { PBT_CHECK((int)r.size() == w, "row of %zu columns, expected %d", r.size(), w); for (double x : r) PBT_CHECK(x >= lo && x <= hi, "random value %g outside [%g, %g]", x, lo, hi); }
    std::vector<float> f(3, 1e9f), f2; PBT_CHECK((URandom<float, 5>::generate(f, w, (float)lo, (float)hi).isOK()) && (int)f.size() == w, "random vector of %zu", f.size());
    URandom<float, 5>::generate(f2, w, (float)lo, (float)hi);
    PBT_CHECK(f == f2, "a fixed seed does not reproduce its values");
    for (float x : f) PBT_CHECK(x >= (float)lo && x <= (float)hi, "random value outside its bounds");
    std::set<std::string> ss; std::string key = "k" + std::to_string(a);
    for (int i = 0; i < 8; i++) { std::string s = URandom<>::generateSession(key); PBT_CHECK(ss.insert(s).second, "the session name %s came twice", s.c_str()); PBT_CHECK(s.size() == 21 + key.size() && s.substr(21) == key, "session name %s", s.c_str()); }
    // one shared object for every caller, destroyed once
    static std::atomic<int> born, dead; born = 0; dead = 0;
    struct Obj : public UtilsObject { int x = 3; Obj() { born++; std::this_thread::yield(); } ~Obj() override { dead++; } };
    {
        USingleton<Obj, USingletonType::LAZY> lazy; USingleton<Obj> hungry; PBT_CHECK(born == 1, "eager holder built %d objects", (int)born);
        int k = src.range(1, 4); std::vector<std::thread> t; std::vector<Obj*> p(k); std::atomic<int> go{0};
        for (int i = 0; i < k; i++) t.emplace_back([&, i] { go++; while (go < k) {} p[i] = lazy.get(); });
        for (auto& x : t) x.join();
        for (auto* x : p) PBT_CHECK(x && x == p[0], "callers got different objects");
        PBT_CHECK(hungry.get() != p[0] && hungry.get() == hungry.get(), "holders share an object");
        PBT_CHECK(born == 2, "%d objects for two holders", (int)born);
    }
    PBT_CHECK(dead == 2, "%d of 2 held objects destroyed", (int)dead);
    int us = src.chance(1, 8) ? src.range(1500, 6000) : 0;
    double t0 = pbt::now_s(); UTimeCounter tc("x", 1 << 30); double t1 = pbt::now_s();
    if (us) std::this_thread::sleep_for(std::chrono::microseconds(us));
    double t2 = pbt::now_s(); CMSec sp = tc.getSpan(); double t3 = pbt::now_s();
    PBT_CHECK(sp >= (CMSec)((t2 - t1) * 1e3) && sp <= (CMSec)((t3 - t0) * 1e3), "time span %ld ms outside [%g, %g]", (long)sp, (t2 - t1) * 1e3, (t3 - t0) * 1e3);
    ctx.nontrivial = n > 1;
}
static void prop(Src& src, Ctx& ctx) {
    switch (src.pick({2, 2, 2, 2, 1, 3})) {
        case 0: { R2 r = g2(src); ctx.label("reflection, nested"); trip(r, ctx); ctx.nontrivial = true; break; }
        case 1: { R0 r = g0(src); ctx.label("reflection, flat"); trip(r, ctx); std::vector<std::string> v; int n = cnt(src); for (int i = 0; i < n; i++) v.push_back(str(src)); trip(v, ctx); std::vector<R1> w; n = cnt(src); for (int i = 0; i < n; i++) w.push_back(g1(src)); trip(w, ctx); trip(src.range(0, 9), ctx); ctx.nontrivial = true; break; }
        case 2: dist<double, double>(src, ctx); break;
        case 3: dist<float, float>(src, ctx); break;
        case 4: dist<int, int>(src, ctx); break;
        default: helpers(src, ctx);
    }
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, prop); }
