// Message types shared by the checks of topics and of publish/subscribe.
#ifndef VERIF_MSG_H
#define VERIF_MSG_H
#include "pbt.h"
#include "CGraph.h"
#include <deque>
#include <algorithm>
namespace msg {
using namespace CGraph;
inline std::atomic<int64_t>& alive() { static std::atomic<int64_t> a{0}; return a; }
inline std::string pad(int s, int n) { return std::string(5 + (s * 13 + n * 7) % 60, char('a' + (s + n) % 26)); }
struct A : public GMessageParam {
    int s = -1, n = -1; std::string text;
    A(int s_, int n_) : s(s_), n(n_), text(pad(s_, n_)) { alive()++; }
    ~A() override { s = -77; alive()--; }
    int sender() const { return s; } int number() const { return n; } bool ok() const { return text == pad(s, n); }
};
struct Other { int magic = 4711; virtual ~Other() = default; virtual int who() const { return 1; } };
struct B : public Other, public GMessageParam {            // several bases: the message part is not at the start
    int s = -1, n = -1; std::string text;
    B(int s_, int n_) : s(s_), n(n_), text(pad(s_, n_)) { alive()++; }
    ~B() override { s = -77; alive()--; }
    int who() const override { return 2; }
    int sender() const { return s; } int number() const { return n; } bool ok() const { return magic == 4711 && text == pad(s, n) && who() == 2; }
};
inline GMessagePushStrategy strat(int k) { return k == 0 ? GMessagePushStrategy::WAIT : k == 1 ? GMessagePushStrategy::REPLACE : GMessagePushStrategy::DROP; }
inline const char* sname(int k) { return k == 0 ? "wait" : k == 1 ? "replace" : "drop"; }
inline void sleepUs(int us) { if (us > 0) std::this_thread::sleep_for(std::chrono::microseconds(us)); }
struct Got { int s, n; };
template <class T> CStatus send(const std::string& t, int s, int n, int k) { std::shared_ptr<T> m(new T(s, n)); CStatus st = CGRAPH_SEND_MPARAM(T, t, m, strat(k)) return st; }
template <class T> CStatus recv(const std::string& t, CMSec to, Got& g) {
    std::shared_ptr<T> m; std::shared_ptr<T> keep(new T(0, 0)); m = keep;
    CStatus st = CGRAPH_RECV_MPARAM_WITH_TIMEOUT(T, t, m, to)
    if (st.isOK()) { if (!m || m == keep || !m->ok()) pbt::fail("a received message has damaged content"); g = {m->sender(), m->number()}; }
    else if (m != keep) pbt::fail("a failed receive changes the caller's value");
    return st;
}
template <class T> CStatus pub(const std::string& t, int s, int n, int k) { std::shared_ptr<T> m(new T(s, n)); CStatus st = CGRAPH_PUB_MPARAM(T, t, m, strat(k)) return st; }
template <class T> CStatus sub(CIndex c, CMSec to, Got& g) {
    std::shared_ptr<T> m; std::shared_ptr<T> keep(new T(0, 0)); m = keep;
    CStatus st = CGRAPH_SUB_MPARAM_WITH_TIMEOUT(T, c, m, to)
    if (st.isOK()) { if (!m || m == keep || !m->ok()) pbt::fail("a subscribed message has damaged content"); g = {m->sender(), m->number()}; }
    else if (m != keep) pbt::fail("a failed subscription read changes the caller's value");
    return st;
}
}
#endif
