// Runs parallel_execute under a scheduler that decides at every synchronisation point which thread goes on.
#include "vf.h"
#include <atomic>
#include <set>
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include "altruct/concurrency/concurrency.h"
using namespace vf; using namespace altruct::concurrency;

static std::atomic<bool> managed(false), freerun(false);
static std::atomic<int> turn(0), ticks(0);
static thread_local int me = -1;
enum { NEW, READY, ONLOCK, ONJOIN, DONE };
struct Th { int st = DONE; pthread_mutex_t* on = 0; int join = 0; pthread_t h; void* (*fn)(void*); void* arg; std::string nextev; };
static const int MT = 64; static Th th[MT]; static std::atomic<int> nth(1);
static std::map<pthread_mutex_t*, int>* held;       // managed locks and their holders
static std::vector<std::pair<int, std::string>>* elog; static std::atomic_flag lg = ATOMIC_FLAG_INIT;
static std::atomic<bool> stuck(false);
// the policy: 0 random, 1 follow a list of choices then stay on the same thread (for the enumeration), 2 follow a list of threads
static int policy; static Rng* rg; static std::vector<int>* guide; static size_t gpos; static std::vector<std::pair<int,int>>* opts; static int sticky;
static bool runnable(int i) {
    if (th[i].st == READY) return true;
    if (th[i].st == ONLOCK) return !held->count(th[i].on);
    if (th[i].st == ONJOIN) return th[th[i].join].st == DONE;
    return false;
}
static int choose() {
    std::vector<int> r; for (int i = 0; i < nth; i++) if (runnable(i)) r.push_back(i);
    if (r.empty()) return -1;
    bool cur = std::find(r.begin(), r.end(), me) != r.end();
    if (policy == 0) { if (cur && (int)(rnd(*rg, 0, 99)) < sticky) return me; return r[rnd(*rg, 0, r.size() - 1)]; }
    if (policy == 2) { // the next thread of the guide, if it can run (threads are numbered from 1; 0 is the caller)
        if (gpos < guide->size()) { int t = (*guide)[gpos]; if (std::find(r.begin(), r.end(), t) != r.end()) return t; }
        if (cur && me != 0) return me; return r[rnd(*rg, 0, r.size() - 1)]; }
    // enumeration: options ordered with the running thread first; a preemption is any choice but 0 while it could go on
    if (cur) { r.erase(std::find(r.begin(), r.end(), me)); r.insert(r.begin(), me); }
    int k = gpos < guide->size() ? (*guide)[gpos] : 0; gpos++; opts->push_back({(int)r.size(), cur ? 1 : 0});
    return r[k < (int)r.size() ? k : 0];
}
static void wait_turn() { while (turn != me && !freerun) sched_yield(); }
// called by the thread that has the turn
static void pass() {
    if (freerun) return;
    ticks++; int t = choose();
    if (t < 0) { // nobody can go on: a deadlock
        fprintf(stderr, "ERROR: deadlock: every thread waits\n"); _exit(88); }
    if (t != me) turn = t;
}
static void point() { if (!managed || me < 0 || freerun) return; pass(); wait_turn(); }
static void* boot(void* a) { me = (int)(intptr_t)a; wait_turn(); void* r = th[me].fn(th[me].arg); th[me].st = DONE; if (!freerun) pass(); return r; }
// (no guarded statics below: the guard itself locks a mutex)
typedef int (*fm_)(pthread_mutex_t*); typedef int (*fj_)(pthread_t, void**); typedef int (*ft_)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) {
    static fm_ f = 0; if (!f) f = (fm_)dlsym(RTLD_NEXT, "pthread_mutex_lock");
    if (!managed || me < 0 || freerun) return f(m);
    point(); // another thread may get in first
    if (freerun) return f(m);
    while (held->count(m)) { th[me].st = ONLOCK; th[me].on = m; pass(); wait_turn(); if (freerun) break; }
    th[me].st = READY; if (!freerun) (*held)[m] = me;
    return f(m);
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t* m) {
    static fm_ f = 0; if (!f) f = (fm_)dlsym(RTLD_NEXT, "pthread_mutex_trylock");
    if (!managed || me < 0 || freerun) return f(m);
    point(); int r = f(m); if (!r && !freerun) (*held)[m] = me; return r;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) {
    static fm_ f = 0; if (!f) f = (fm_)dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    if (!managed || me < 0 || freerun) return f(m);
    held->erase(m); int r = f(m); point(); return r;
}
// waiting on a condition: give the lock up, let others run, take it again (a spurious wake-up is allowed)
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!managed || me < 0 || freerun) { timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_nsec += 1000000; if (ts.tv_nsec >= 1000000000) ts.tv_nsec -= 1000000000, ts.tv_sec++; pthread_cond_timedwait(c, m, &ts); return 0; }
    pthread_mutex_unlock(m); sched_yield(); pthread_mutex_lock(m); return 0;
}
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
    static ft_ f = 0; if (!f) f = (ft_)dlsym(RTLD_NEXT, "pthread_create");
    if (!managed || me < 0 || nth >= MT) return f(t, at, fn, arg);
    int i = nth; th[i].st = READY; th[i].fn = fn; th[i].arg = arg;
    int r = f(&th[i].h, at, boot, (void*)(intptr_t)i); if (r == 0) { *t = th[i].h; nth = i + 1; point(); } return r;
}
extern "C" int pthread_join(pthread_t t, void** r) {
    static fj_ f = 0; if (!f) f = (fj_)dlsym(RTLD_NEXT, "pthread_join");
    if (managed && me >= 0 && !freerun) for (int i = 1; i < nth; i++) if (pthread_equal(th[i].h, t)) {
        while (th[i].st != DONE && !freerun) { th[me].st = ONJOIN; th[me].join = i; pass(); wait_turn(); }
        th[me].st = READY; }
    return f(t, r);
}
// if nothing moves for long (a thread waits in a way the scheduler does not know), let all threads run freely
static void* watchdog(void*) { int last = -1, idle = 0; while (true) { usleep(20000); if (!managed) { last = -1; idle = 0; continue; } int x = ticks; if (x == last) { if (++idle >= 25) freerun = true; } else idle = 0; last = x; } return 0; }

static int tid() { return me < 0 ? 0 : me; }
static void ev(const char* op, ll arg, ll res, ll wk) {
    if (policy == 2 && gpos < guide->size() && (*guide)[gpos] == tid()) gpos++;
    std::string s = Ev(op).i("t", tid()).i("arg", arg).i("res", res).i("wk", wk).s + "}";
    while (lg.test_and_set()) sched_yield();
    elog->push_back({tid(), s}); lg.clear(); point();
    if (freerun) usleep(50);
}
struct Prov { int n, k = 0; bool has_next_job() { ev("has(", 0, 0, 0); bool r = k < n; ev("has)", 0, r, 0); return r; }
    int next_job() { ev("next(", 0, 0, 0); int r = ++k; ev("next)", 0, r, 0); return r; } };
struct Worker { int id; ll execute_job(const int& j) { ev("exec(", j, 0, id); ll r = 10 * j + 3; ev("exec)", j, r, id); return r; } };
struct WProv { int k = 0; Worker create_worker() { ev("create(", 0, 0, 0); int r = ++k; ev("create)", 0, r, 0); return Worker{r}; } };
struct Coll { void collect_result(const ll& r, const int& j) { ev("coll(", j, r, 0); ev("coll)", j, 0, 0); } };
static void begin_run(int n, int t) {
    elog->clear(); held->clear(); nth = 1; for (auto& x : th) x = Th(); me = 0; th[0].st = READY; turn = 0; freerun = false; gpos = 0; opts->clear();
    elog->push_back({0, Ev("start").i("n", n).i("th", t).s + "}"}); managed = true;
}
static std::string end_run() { managed = false; me = -1; std::string s; for (auto& x : *elog) s += x.second + "\n"; return s; }
static std::string run(int n, int t) {
    begin_run(n, t); { Prov p{n}; WProv w; Coll c; parallel_execute(c, p, w, t); ev("return", 0, 1, 0); } return end_run();
}
// threads that enter LOCK blocks and leave them at the end, by continue and by an exception (a break only leaves the inner loop of the macro and runs the block again)
static std::string lockrun(int t, int rounds, Rng& g) {
    begin_run(0, t); elog->clear(); elog->push_back({0, Ev("lstart").i("n", (ll)t * rounds).i("th", t).s + "}"}); std::mutex mx; std::vector<int> how; for (int i = 0; i < t * rounds; i++) how.push_back(g() % 5);
    auto body = [&](int k) { for (int r = 0; r < rounds; r++) { int h = how[k * rounds + r]; try { LOCK(mx) { ev("lin", k, r, 0); if (h == 4) { ev("lout", k, r, 0); throw 7; } if (h == 2) { ev("lout", k, r, 0); continue; } ev("lout", k, r, 0); } } catch (int) { ev("lcaught", k, r, 0); } } };
    { std::vector<std::thread> v; for (int k = 0; k < t; k++) v.emplace_back(body, k); for (auto& x : v) x.join(); } ev("lend", 0, 0, 0); return end_run();
}
struct RWorker { ll execute_job(const std::pair<int, int>& j) { point(); ll s = 0; for (int i = j.first; i < j.second; i++) s += i; return s; } };
struct RWProv { RWorker create_worker() { return RWorker(); } };
static std::set<std::string>* seen;
static void out(const std::string& s) { if (seen->insert(s).second) { fwrite(s.data(), 1, s.size(), stdout); fflush(stdout); } }
int main(int argc, char** argv) {
    held = new std::map<pthread_mutex_t*, int>(); elog = new std::vector<std::pair<int, std::string>>(); guide = new std::vector<int>(); opts = new std::vector<std::pair<int,int>>(); seen = new std::set<std::string>(); Rng g(atoll(argv[2])); rg = &g;
    pthread_t wd; pthread_create(&wd, 0, watchdog, 0);
    std::string m = argv[1]; int n = atoi(argv[3]);
    if (m == "rand") for (int i = 0; i < n; i++) { // random schedules
        policy = 0; int c = rnd(g, 0, 3); sticky = c == 0 ? 0 : c == 1 ? 50 : c == 2 ? 85 : 95;
        int jobs = rnd(g, 0, 7), t = g() % 8 == 0 ? (int)rnd(g, -1, 1) : (int)rnd(g, 2, 6); out(run(jobs, t)); }
    if (m == "dfs") { // every schedule with at most k preemptions
        int jobs = atoi(argv[4]), t = atoi(argv[5]), k = atoi(argv[6]); policy = 1; ll cnt = 0;
        std::vector<int> pre; while (cnt < n) {
            *guide = pre; out(run(jobs, t)); cnt++;
            std::vector<int> ch(pre); ch.resize(opts->size(), 0); auto op = *opts; std::vector<int> pr(ch.size() + 1, 0);
            for (size_t i = 0; i < ch.size(); i++) pr[i + 1] = pr[i] + (op[i].second && ch[i] > 0);
            int i = (int)ch.size() - 1; for (; i >= 0; i--) if (ch[i] + 1 < op[i].first && pr[i] + (op[i].second ? 1 : 0) <= k) break;
            if (i < 0) break; pre.assign(ch.begin(), ch.begin() + i + 1); pre[i]++; }
    }
    if (m == "guided") { // schedules chosen by the specification: one line per history, the threads in the order of their events
        policy = 2; std::string line; while (std::getline(std::cin, line)) { const char* p = line.c_str(); J j = parse(p); *guide = {}; for (ll x : j.vec("sched")) guide->push_back(x); out(run(j("n"), j("th"))); } }
    if (m == "lock") for (int i = 0; i < n; i++) { policy = 0; int c = rnd(g, 0, 2); sticky = c == 0 ? 0 : c == 1 ? 50 : 85; out(lockrun(1 + g() % 4, 1 + g() % 3, g)); }
    if (m == "range") for (int i = 0; i < n; i++) {
        int b = rnd(g, -30, 30), e = b + rnd(g, -5, 40), l = g() % 4 == 0 ? rnd(g, 30, 60) : rnd(g, 1, 9);
        range_job_provider<int> p(b, e, l); std::vector<std::vector<ll>> q; while (p.has_next_job() && q.size() < 200) { auto x = p.next_job(); q.push_back({x.first, x.second}); }
        Ev("range").i("b", b).i("e", e).i("len", l).vv("q", q).put();
        int t = rnd(g, 0, 5); policy = 0; sticky = 50; begin_run(0, t); { range_job_provider<int> p2(b, e, l); RWProv w; add_result_collector<ll> c; parallel_execute(c, p2, w, t); end_run();
        Ev("sum").i("b", b).i("e", e).i("len", l).i("t", t).i("res", c.result).put(); } fflush(stdout); }
}
