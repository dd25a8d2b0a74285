// C32: status algebra against a model: first error wins, never masked; copies, moves, assignments, queries and the
// framework's status macros agree with the code.
#include "pbt.h"
#include "CGraph.h"
#include <list>
using namespace CGraph;
using pbt::Src;
using pbt::Ctx;

struct M { int code = 0; std::string info; };
static std::string show(const M& m) { return std::to_string(m.code) + "/" + m.info; }
static std::string text(Src& s) {
    int n = s.pick({3, 2, 1}); std::string r;
    int len = n == 0 ? s.range(1, 8) : n == 1 ? s.range(9, 60) : s.range(0, 300);
    for (int i = 0; i < len; i++) r += static_cast<char>('a' + s.below(26));
    return r;
}
static int code(Src& s) {
    switch (s.pick({3, 3, 2, 1, 2, 1})) {
        case 0: return -1;
        case 1: return -static_cast<int>(s.below(1000)) - 2;
        case 2: return 0;
        case 3: return -996;
        case 4: return static_cast<int>(s.below(1000)) + 1;
        default: return s.flip() ? INT32_MIN + (int)s.below(3) : INT32_MAX - (int)s.below(3);
    }
}
static void agree(const CStatus& c, const M& m, const char* op) {
    PBT_CHECK(c.getCode() == m.code, "after %s: code %d, expected %s", op, c.getCode(), show(m).c_str());
    if (m.code != 0) PBT_CHECK(c.getInfo() == m.info, "after %s: message '%s', expected %s", op, c.getInfo().c_str(), show(m).c_str());
    PBT_CHECK(c.isOK() == (m.code == 0), "after %s: isOK() of %s", op, show(m).c_str());
    PBT_CHECK(c.isErr() == (m.code < 0), "after %s: isErr() of %s", op, show(m).c_str());
    PBT_CHECK(c.isNotErr() == (m.code >= 0), "after %s: isNotErr() of %s", op, show(m).c_str());
    PBT_CHECK(c.isCrash() == (m.code == -996), "after %s: isCrash() of %s", op, show(m).c_str());
    PBT_CHECK(static_cast<bool>(c) == (m.code == 0), "after %s: bool of %s", op, show(m).c_str());
}
static CStatus checked(const std::vector<M>& seq, size_t& upto) {
    CGRAPH_FUNCTION_BEGIN
    for (upto = 0; upto < seq.size(); upto++) { status = CStatus(seq[upto].code, seq[upto].info); CGRAPH_FUNCTION_CHECK_STATUS }
    CGRAPH_FUNCTION_END
}
static CStatus summed(const std::vector<M>& seq) {
    CGRAPH_FUNCTION_BEGIN
    for (auto& m : seq) { status += CStatus(m.code, m.info); }
    CGRAPH_FUNCTION_END
}
static CStatus returned(bool cond, const std::string& info) { CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION(cond, info) CGRAPH_EMPTY_FUNCTION }
static int evals = 0;
static CStatus once(const M& m) { evals++; return CStatus(m.code, m.info); }
static void thrower(const M& m) { CGRAPH_THROW_EXCEPTION_BY_STATUS(once(m)) }
static void condThrower(bool c, const std::string& i) { CGRAPH_THROW_EXCEPTION_BY_CONDITION(c, i) }

static void prop(Src& src, Ctx& ctx) {
    constexpr int N = 4;
    CStatus c[N]; M m[N];
    int ops = src.sized(3, 40), errs = 0;
    for (int k = 0; k < ops; k++) {
        int i = src.range(0, N - 1), j = src.range(0, N - 1);
        std::string op;
        switch (src.pick({5, 3, 2, 2, 2, 2, 2, 2, 2, 2, 1})) {
            case 0: { c[i] += c[j]; if (m[i].code >= 0 && m[j].code < 0) { m[i] = m[j]; errs++; } op = "+="; break; }
            case 1: { int q = code(src); std::string t = text(src); CStatus x(q, t); M mx{q, q ? t : ""}; c[i] += x; if (m[i].code >= 0 && q < 0) { m[i] = mx; errs++; } agree(x, mx, "construction"); op = "+= new"; break; }
            case 2: { c[i] = c[j]; m[i] = m[j]; op = "assignment"; break; }
            case 3: { CStatus x(c[j]); agree(x, m[j], "copy"); c[i] = x; m[i] = m[j]; op = "copy and assignment"; break; }
            case 4: { CStatus x(c[j]); CStatus y(std::move(x)); agree(y, m[j], "move"); c[i] = std::move(y); m[i] = m[j]; op = "move and assignment"; break; }
            case 5: { c[i].reset(); m[i] = M(); op = "reset"; break; }
            case 6: { std::string t = text(src); c[i].setErrorInfo(t); m[i] = M{-1, t}; op = "setErrorInfo"; break; }
            case 7: { int q = code(src); std::string t = text(src); c[i].setInfo(q, t); m[i] = M{q, q ? t : ""}; op = "setInfo"; break; }
            case 8: { std::string t = text(src); c[i] = CStatus(t); m[i] = M{-1, t}; op = "assignment of a message"; break; }
            case 9: { int q = code(src); std::string t = text(src); c[i] = CStatus(q, t); m[i] = M{q, q ? t : ""}; op = "assignment of a new status"; break; }
            default: { std::vector<CStatus> v(c, c + N); std::list<CStatus> l(v.begin(), v.end()); int z = 0; for (auto& x : l) agree(x, m[z++], "container copy"); c[i] = v[j]; m[i] = m[j]; op = "copy through containers"; }
        }
        ctx.desc << op << "(" << i << "," << j << ") -> " << m[i].code << "; ";
        ctx.publish();
        for (int z = 0; z < N; z++) agree(c[z], m[z], op.c_str());
    }
    // sequences through the framework's macros
    std::vector<M> seq; int len = src.sized(1, 8); int firstErr = -1;
    for (int i = 0; i < len; i++) { int q = src.flip() ? 0 : code(src); std::string t = q ? text(src) : ""; seq.push_back(M{q, t}); if (q < 0 && firstErr < 0) firstErr = i; }
    ctx.desc << "| sequence"; for (auto& x : seq) ctx.desc << " " << x.code; ctx.publish();
    M want = firstErr >= 0 ? seq[firstErr] : M();
    CStatus s = summed(seq);
    agree(s, want, "combining a sequence");
    size_t upto = 0;
    try {
        CStatus r = checked(seq, upto);
        PBT_CHECK(firstErr < 0 || want.code != -996, "a crash status did not travel as the framework's exception");
        PBT_CHECK(firstErr < 0 || upto == (size_t)firstErr, "the check went past the first error");
        agree(r, firstErr >= 0 ? want : seq.back(), "checking a sequence");
    } catch (const CException& e) {
        PBT_CHECK(firstErr >= 0 && want.code == -996 && upto == (size_t)firstErr && std::string(e.what()).find(want.info) != std::string::npos, "the framework's exception '%s' for the sequence", e.what());
    }
    bool cond = src.flip(); std::string t = text(src);
    agree(returned(cond, t), cond ? M{-1, t} : M(), "conditional error");
    for (auto& x : seq) {
        evals = 0; bool thrown = false;
        try { thrower(x); } catch (const CException& e) { thrown = true; PBT_CHECK(std::string(e.what()).find(x.info) != std::string::npos, "the exception lost its message"); }
        PBT_CHECK(thrown == (x.code < 0) && evals == 1, "throw-by-status of code %d: thrown %d, evaluated %d times", x.code, thrown, evals);
    }
    bool thrown = false; try { condThrower(cond, t); } catch (const std::exception& e) { thrown = true; PBT_CHECK(std::string(e.what()).find(t) != std::string::npos, "the exception lost its message"); }
    PBT_CHECK(thrown == cond, "throw-by-condition");
    ctx.nontrivial = errs > 0 || firstErr >= 0;
    if (errs > 1) ctx.label("several first errors");
    if (firstErr > 0) ctx.label("error after non-errors");
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, prop); }
