// C16: generators used by different threads, each with its own objects, solver and random numbers.
// ThreadSanitizer watches for races; results are compared with those of the same work done alone.
#include "mon.hpp"
#include "CglMessage.hpp"
#include "CglStored.hpp"
#include "CglTreeInfo.hpp"
#include <atomic>
#include <pthread.h>
#include <sched.h>
namespace vm {
static const std::vector<std::string> GENS = { "clique", "oddhole", "knapsack", "mir", "simplerounding", "redsplit", "liftandproject", "zerohalf",
  "alldiff", "duprow", "stored" };

struct Work {
  const GenSpec *g = nullptr;
  Ctx c;
  uint64_t cfg = 0; // seed of the configuration
  int repeat = 1;
  int shape = 0; // what is done with the object besides generating
  int yields = 0;
  // per run
  std::unique_ptr<OsiClpSolverInterface> si;
  std::unique_ptr<CglCutGenerator> made; // constructed by the owner when shape asks for it
  std::vector<std::string> result;
  std::string error;
};

static CglCutGenerator *makeIt(Work &w, OsiClpSolverInterface &si)
{
  Rng r(w.cfg);
  std::string d;
  return w.g->make(r, w.c.m, si, d);
}

static void delay(int n)
{
  for (int i = 0; i < n; i++)
    sched_yield();
}

static void doWork(Work &w)
{
  w.result.clear();
  w.error.clear();
  try {
    std::unique_ptr<CglCutGenerator> x(w.made ? w.made.release() : makeIt(w, *w.si));
    x->refreshSolver(w.si.get());
    for (int k = 0; k < w.repeat; k++) {
      if (w.shape & 1) {
        std::unique_ptr<CglCutGenerator> y(x->clone());
        if (w.g->refresh)
          y->refreshSolver(w.si.get());
        x.swap(y);
      }
      if ((w.shape & 2) && w.g->assignable) {
        std::unique_ptr<CglCutGenerator> y(makeIt(w, *w.si));
        w.g->assign(*y, *x);
        if (w.g->refresh)
          y->refreshSolver(w.si.get());
        x.swap(y);
      }
      delay(w.yields);
      CoinThreadRandom rnd(12345 + k);
      CglTreeInfo info = w.c.info;
      info.randomNumberGenerator = &rnd;
      OsiCuts cs;
      x->generateCuts(*w.si, cs, info);
      std::string s = str(canon(linsOf(cs)));
      if (w.g->settings)
        s += w.g->settings(*x);
      w.result.push_back(s);
      if (w.shape & 4) {
        char *buf = nullptr;
        size_t len = 0;
        FILE *f = open_memstream(&buf, &len);
        x->generateCpp(f);
        fclose(f);
        w.result.push_back(std::string(buf, len));
        free(buf);
      }
    }
  } catch (CoinError &e) {
    w.error = e.message();
  } catch (std::exception &e) {
    w.error = e.what();
  }
}

// implication store, stored cuts and messages: objects without a solver of their own
static void doStore(Work &w)
{
  w.result.clear();
  std::string s;
  Rng r(w.cfg);
  CglTreeProbingInfo p(w.si.get());
  p.initializeFixing(w.si.get());
  int ni = p.numberIntegers();
  if (ni >= 2)
    for (int k = 0; k < 10; k++) {
      int a = r.below(ni), b = r.below(ni);
      if (a != b)
        p.fixes(a, r.p(0.5) ? 1 : -1, b, r.p(0.5));
      delay(w.yields);
    }
  CglTreeProbingInfo q(p);
  CglTreeProbingInfo t(w.si.get());
  t = q;
  p.packDown();
  OsiCuts cs;
  p.generateCuts(*w.si, cs, w.c.info);
  s += str(canon(linsOf(cs)));
  CglStored st(w.c.m.n);
  for (int k = 0; k < 4; k++) {
    int ix[1] = { r.below(std::max(1, w.c.m.n)) };
    double el[1] = { 1.0 };
    st.addCut(-INF, r.in(-1, 1), 1, ix, el);
  }
  OsiCuts c2;
  if (w.c.m.n)
    st.generateCuts(*w.si, c2, w.c.info);
  s += str(canon(linsOf(c2)));
  CglMessage m(r.p(0.5) ? CoinMessages::us_en : CoinMessages::uk_en);
  s += fmt("messages %d ", m.numberMessages_);
  w.result.push_back(s);
}

struct Thread {
  Work *w;
  std::atomic<int> *ready;
  int total;
  bool store;
};
static void *run(void *v)
{
  Thread &t = *static_cast<Thread *>(v);
  // start together; relaxed, so that the start orders nothing between the threads
  t.ready->fetch_add(1, std::memory_order_relaxed);
  while (t.ready->load(std::memory_order_relaxed) < t.total)
    sched_yield();
  if (t.store)
    doStore(*t.w);
  else
    doWork(*t.w);
  return nullptr;
}

static void caseThreads(Env &env, Rng &r, const std::vector<std::string> &names)
{
  int n = r.in(2, 4);
  bool same = r.p(0.65);
  bool sameModel = r.p(0.3);
  int fixed = r.below(static_cast<int>(names.size()));
  std::vector<std::unique_ptr<Work>> ws;
  std::vector<bool> store;
  std::string what;
  uint64_t h = 0;
  for (int i = 0; i < n; i++) {
    std::unique_ptr<Work> w(new Work);
    const GenSpec *g = findGen(names[same ? fixed : r.below(static_cast<int>(names.size()))]);
    if (!g)
      return;
    w->g = g;
    PrepOpt o;
    if (same && sameModel && i) {
      o.given = true;
      w->c.m = ws[0]->c.m;
      w->c.family = ws[0]->c.family;
    }
    bool ok = false;
    for (int t = 0; t < 4 && !ok; t++) {
      if (t) {
        o.given = false;
        w.reset(new Work);
        w->g = g;
      }
      ok = prepare(r, *g, w->c, o) && w->c.m.m() >= g->minRows;
    }
    if (!ok)
      return;
    w->cfg = r.next();
    w->repeat = r.in(1, 3);
    w->shape = r.below(8);
    w->yields = r.p(0.5) ? 0 : r.below(4);
    store.push_back(r.p(0.08));
    what += (store.back() ? "store" : g->name) + fmt("(repeat %d shape %d) ", w->repeat, w->shape);
    h = mix(h, mix(hashModel(w->c.m), w->cfg));
    ws.push_back(std::move(w));
  }
  env.note(what);
  for (auto &w : ws)
    env.note(ctxStr(w->c));
  std::vector<std::vector<std::string>> alone;
  std::vector<std::string> errs;
  bool cuts = false;
  auto prep = [&](bool pre) {
    for (auto &w : ws) {
      w->si = liveCopy(w->c);
      if (!w->si)
        w->si = cloneSi(*w->c.si);
      w->made.reset(pre ? makeIt(*w, *w->si) : nullptr);
    }
  };
  bool pre = r.p(0.3);
  prep(pre);
  for (int i = 0; i < n; i++) {
    if (store[i])
      doStore(*ws[i]);
    else
      doWork(*ws[i]);
    alone.push_back(ws[i]->result);
    errs.push_back(ws[i]->error);
    for (auto &s : ws[i]->result)
      if (s.find("<=") != std::string::npos || s.find(">=") != std::string::npos)
        cuts = true;
  }
  int rounds = r.in(1, 2);
  for (int k = 0; k < rounds; k++) {
    prep(pre);
    std::atomic<int> ready(0);
    std::vector<Thread> ts(n);
    std::vector<pthread_t> id(n);
    int started = 0;
    for (int i = 0; i < n; i++)
      ts[i] = Thread { ws[i].get(), &ready, n, store[i] };
    for (int i = 0; i < n; i++)
      started += pthread_create(&id[i], nullptr, run, &ts[i]) == 0;
    if (started < n)
      _exit(70);
    for (int i = 0; i < n; i++)
      pthread_join(id[i], nullptr);
    env.stat("thread_runs", n);
    for (int i = 0; i < n; i++) {
      if (ws[i]->error != errs[i]) {
        env.violation("concurrent-error:" + ws[i]->g->name, "alone '" + errs[i] + "', with other threads '" + ws[i]->error + "'");
        return;
      }
      if (ws[i]->result != alone[i]) {
        std::string a, b;
        for (size_t q = 0; q < alone[i].size() && q < ws[i]->result.size(); q++)
          if (alone[i][q] != ws[i]->result[q]) {
            a = alone[i][q];
            b = ws[i]->result[q];
            break;
          }
        env.violation("concurrent-result:" + (store[i] ? std::string("store") : ws[i]->g->name), "with other threads the object returned\n" + b + "\nalone it returned\n" + a);
        return;
      }
    }
  }
  for (int i = 0; i < n; i++)
    env.stat("threads:" + (store[i] ? std::string("store") : ws[i]->g->name));
  env.stat(same ? "groups_of_one_class" : "mixed_groups");
  if (cuts) {
    env.hit(h);
    env.sample(what + "\n" + ctxStr(ws[0]->c));
  }
}
static void fC16(Env &env, Rng &r) { caseThreads(env, r, GENS); }
static Driver d16("C16", fC16);
static void fC26(Env &env, Rng &r)
{
  static const std::vector<std::string> SHIM = { "gomory", "gmi", "redsplit2", "twomir", "flowcover", "rescapacity", "mir2", "probing" };
  caseThreads(env, r, SHIM);
}
static Driver d26("C26", fC26);
} // namespace vm
