// POSIX threads, futexes and thread-specific data; the scheduler is a symbolic choice.
#include "engine.h"

#define BI(name) addB(name, [](Exec &x, State &s, const CallInfo &ci) { Args a{x, s, ci}; (void)a;
#define END });
#define RET(v) setRet(x, ci, 0, v)

static std::vector<int> runnable(State &s, int except) {
  std::vector<int> r;
  for (size_t i = 0; i < s.threads.size(); i++) if (s.threads[i].status == 0 && (int)i != except) r.push_back(i);
  return r;
}
static void switchTo(State &s, int t) { s.cur = t; s.switches++; }

void pickNext(Exec &x) {
  State &s = *x.s;
  std::vector<int> r = runnable(s, -1);
  if (r.empty()) pathEnd(E_DEADLOCK, "no thread can run");
  size_t k = s.schedMode && r.size() > 1 ? x.choice(r.size()) : 0;
  switchTo(s, r[k]);
}
bool schedPoint(Exec &x) {
  State &s = *x.s;
  if (!s.schedMode) return false;
  Thread &t = s.threads[s.cur];
  if (t.schedDone) { t.schedDone = false; return false; }
  if (s.preempt <= 0) return false;
  std::vector<int> r = runnable(s, s.cur);
  if (r.empty()) return false;
  size_t k = x.choice(r.size() + 1);
  if (!k) return false;
  t.schedDone = true;
  s.preempt--;
  s.rerun = true;
  switchTo(s, r[k - 1]);
  return true;
}
static void block(State &s, Thread &t, int status) { t.status = status; s.rerun = true; s.switches++; }
static uint64_t &tsdRef(State &s, int tid, uint64_t key) {
  uint64_t k = ((uint64_t)tid << 32) | key;
  for (auto &p : s.tsd) if (p.first == k) return p.second;
  s.tsd.push_back({k, 0});
  return s.tsd.back().second;
}
bool runTsdDtor(Exec &x, Thread &t) {
  State &s = *x.s;
  t.startFn = ~0ull; // the return value is settled
  for (auto &p : s.tsd) {
    if ((int)(p.first >> 32) != t.tid || !p.second) continue;
    uint64_t d = s.keyDtor[p.first & 0xffffffff];
    if (!d) continue;
    uint64_t v = p.second;
    p.second = 0;
    Fn *f = g_fnByAddr.count(d) ? g_fnByAddr[d] : nullptr;
    if (!f || !f->hasBody) pathEnd(E_UNSUP, "thread-specific data destructor without a body");
    x.pushCall(t, f, nullptr);
    t.regs[t.frames.back().base] = C(v);
    return true;
  }
  for (auto &o : s.threads) if (o.status == 2 && o.joinOn == t.tid) o.status = 0;
  s.switches++;
  return false;
}

void regThreadBuiltins() {
  BI("pthread_key_create")
    uint64_t p = a.c(0), d = a.c(1);
    storeVal(x, p, C(s.keyDtor.size()), 32);
    s.keyDtor.push_back(d);
    RET(C(0));
  END
  BI("pthread_key_delete") uint64_t k = a.c(0); if (k < s.keyDtor.size()) s.keyDtor[k] = 0; for (auto &p : s.tsd) if ((p.first & 0xffffffff) == k) p.second = 0; RET(C(0)); END
  BI("pthread_getspecific") uint64_t k = a.c(0); RET(C(tsdRef(s, s.threads[s.cur].tid, k))); END
  BI("pthread_setspecific") uint64_t k = a.c(0), v = a.c(1); tsdRef(s, s.threads[s.cur].tid, k) = v; RET(C(0)); END
  BI("pthread_self") RET(C(s.threads[s.cur].tid + 1)); END
  for (const char *n : {"pthread_attr_init", "pthread_attr_destroy", "pthread_attr_setstacksize", "pthread_attr_setguardsize", "pthread_setname_np", "prctl", "sched_yield"})
    BI(n) RET(C(0)); END
  BI("pthread_getattr_np") RET(C(1)); END
  BI("pthread_attr_getstack") RET(C(1)); END
  BI("pthread_create")
    uint64_t p = a.c(0), fn = a.c(2); Val arg = a.v(3);
    Fn *f = g_fnByAddr.count(fn) ? g_fnByAddr[fn] : nullptr;
    if (!f || !f->hasBody) pathEnd(E_UNSUP, "pthread_create: start function");
    int tid = s.threads.size();
    storeVal(x, p, C(tid + 1), 64);
    RET(C(0));
    s.threads.emplace_back();
    Thread &n = s.threads.back();
    n.tid = tid; n.startFn = fn;
    x.pushCall(n, f, nullptr);
    n.regs[n.frames.back().base] = arg;
    s.switches++; // the thread vector moved
  END
  BI("pthread_join")
    uint64_t id = a.c(0), rp = a.c(1);
    if (id == 0 || id > s.threads.size() || s.threads[id - 1].detached) pathEnd(E_MEM, "pthread_join of an invalid thread");
    Thread &t = s.threads[s.cur], &o = s.threads[id - 1];
    if (o.status != 3) { t.joinOn = id - 1; block(s, t, 2); return; }
    if (rp) storeVal(x, rp, o.retval, 64);
    o.detached = true;
    RET(C(0));
  END
  BI("pthread_detach") uint64_t id = a.c(0); if (id && id <= s.threads.size()) s.threads[id - 1].detached = true; RET(C(0)); END
  BI("syscall")
    uint64_t nr = a.c(0);
    if (nr == 186) { RET(C(s.threads[s.cur].tid + 1)); return; }   // gettid
    if (nr == 318) { uint64_t p = a.c(1), n = a.c(2); for (uint64_t i = 0; i < n; i++) storeVal(x, p + i, C(7), 8); RET(C(n)); return; } // getrandom
    if (nr != 202) { if (nr == 332) { setErrno(x, 38); RET(C(~0ull)); return; } pathEnd(E_UNSUP, "syscall " + std::to_string(nr)); }
    uint64_t addr = a.c(1), op = a.c(2) & 0x7f, val = a.c(3);
    Thread &t = s.threads[s.cur];
    if (op == 0 || op == 9) {
      if (t.futexWoken) { t.futexWoken = false; RET(C(0)); return; }
      uint64_t cur = x.concretize(loadVal(x, addr, 32), 32);
      if (cur != (val & 0xffffffff)) { setErrno(x, 11); RET(C(~0ull)); return; }
      t.waitAddr = addr;
      block(s, t, 1);
      return;
    }
    if (op == 1 || op == 10) {
      uint64_t n = 0;
      for (auto &o : s.threads) if (n < val && o.status == 1 && o.waitAddr == addr) { o.status = 0; o.futexWoken = true; n++; }
      RET(C(n));
      return;
    }
    pathEnd(E_UNSUP, "futex operation");
  END
  // ---- harness interface
  // the scheduler becomes a symbolic choice, with at most n preemptions
  BI("sx_threads") s.schedMode = 1; s.preempt = (int)a.c(0); END
  // a point at which another thread may be scheduled
  BI("sx_yield") if (schedPoint(x)) return; END
  // the other threads run until none of them can
  BI("sx_settle")
    std::vector<int> r = runnable(s, s.cur);
    if (r.empty()) return;
    s.rerun = true;
    switchTo(s, r[0]);
  END
  BI("sx_tid") RET(C(s.threads[s.cur].tid)); END
}
