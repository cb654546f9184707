#pragma once
#include "prog.h"
#include <functional>
#include <memory>

// ---- source line info (for coverage evidence)
struct SrcFrame { std::string file, func; unsigned line = 0; };
struct SrcLine { std::vector<SrcFrame> frames; };
extern std::vector<SrcLine> g_lines;

// ---- address layout: gen(14) | idx(20) | off(28), biased by 0x1000
static const unsigned OFFBITS = 28, IDXBITS = 20;
static const uint64_t BIAS = 0x1000;
static inline uint64_t mkAddr(uint32_t idx, uint32_t gen) { return ((uint64_t)(gen & 0x1fff) << 48) | ((uint64_t)idx << OFFBITS) | BIAS; }
static inline uint32_t addrIdx(uint64_t a) { return (a >> OFFBITS) & ((1u << IDXBITS) - 1); }
static inline uint32_t addrGen(uint64_t a) { return (uint32_t)(a >> 48); }
static inline int64_t addrOff(uint64_t a) { return (int64_t)(a & ((1ull << OFFBITS) - 1)) - (int64_t)BIAS; }

enum ObjKind : uint8_t { OK_GLOBAL, OK_HEAP, OK_STACK, OK_FILE };
struct Obj {
  int rc; uint32_t size; uint32_t cap; ObjKind kind; bool ro; uint8_t *d; Expr **s; // s: null or per-byte expression (null = concrete)
  const char *site; uint32_t align;
};
struct Slot { Obj *o; uint32_t gen; uint32_t next; };
static const unsigned CH = 64;
struct Chunk { int rc; Slot s[CH]; };

struct Frame { Fn *fn; uint32_t pc; uint32_t base; uint32_t allocaStart; };
struct Thread {
  uint64_t startFn = 0; bool detached = false;
  std::vector<Val> regs; std::vector<Frame> frames; std::vector<uint32_t> allocas;
  int tid = 0; int status = 0; // 0 runnable, 1 blocked on futex, 2 blocked on join, 3 finished
  uint64_t waitAddr = 0; int joinOn = -1; bool futexWoken = false;
  Val exc{0, nullptr};
  uint64_t errnoAddr = 0;
  Val retval{0, nullptr};
  bool schedDone = false;   // the scheduling decision for the current instruction was taken
};

struct FileData { std::vector<uint8_t> d; std::vector<Expr *> s; }; // s: empty, or one (possibly null) expression per byte
struct Inode { bool dir = false; std::shared_ptr<FileData> data; };
struct Fd { int ino = -1; uint64_t pos = 0; int flags = 0; std::vector<std::string> list; size_t listPos = 0; bool listed = false; uint64_t dirBuf = 0; std::string path; };
struct Fs {
  int rc = 1;
  std::map<std::string, int> paths;
  std::vector<Inode> inodes;
  std::map<int, Fd> fds;
  int nextFd = 10;
  Fs() {}
  Fs(const Fs &o) : rc(1), paths(o.paths), inodes(o.inodes), fds(o.fds), nextFd(o.nextFd) {}
};

struct Order {
  std::vector<Expr *> n; std::vector<uint8_t> r;
  int node(Expr *e, bool create);
  void add(int i, int j, bool strict);
  void ne(int i, int j);
  void fact(Expr *e);
  int query(Kind k, Expr *x, Expr *y);
};
struct State {
  Order ord;
  std::vector<Chunk *> chunks;
  uint32_t nslots = 0, freeHead = 0;
  std::vector<Thread> threads;
  int cur = 0;
  std::vector<Expr *> pc;
  std::vector<uint64_t> wit;       // witness: satisfies pc; one per symbolic input
  std::vector<uint8_t> inw;        // width of every input
  std::vector<Val> obs;
  std::vector<uint32_t> marks;     // reach labels
  std::vector<std::pair<uint64_t, uint64_t>> tls; // (tid<<40|idx) -> address
  Fs *fs = nullptr;
  uint64_t ninst = 0;
  int catchDepth = 0; bool expectPanic = false;
  int64_t heapLive = 0;
  uint64_t tick = 0;
  int schedMode = 0; int preempt = 0;
  int forks = 0;
  uint64_t faultAt = 0; Val faultVar{0, nullptr}; uint32_t fsOps = 0; bool faultArmed = false, faultBg = false, faultFired = false;
  std::vector<std::pair<uint64_t, uint64_t>> tsd; // (tid<<32|key) -> value
  std::vector<uint64_t> keyDtor{0}; // per TSD key: destructor
  bool pendValid = false; uint64_t pend = 0; int nextTid = 1;
  std::vector<uint8_t> fixedIn;    // inputs that are choices: concrete on this path
  std::vector<std::pair<Expr *, uint32_t>> deferred; // assertions not yet discharged
  uint64_t nchecks = 0; bool rerun = false, advance = false; uint64_t switches = 0;
  State() {}
  State(const State &o);
  ~State();
};

struct PathEnd { int kind; std::string msg; };
enum EndKind { E_DONE = 0, E_ASSUME, E_PANIC, E_EXPANIC, E_CHECK, E_MEM, E_LEAK, E_ABORT, E_LIMIT, E_UNSUP, E_DEADLOCK, E_UNKNOWN };

struct Exec {
  State *s = nullptr;
  std::vector<State *> work;
  // solver
  Z3_context z = nullptr; Z3_solver sol = nullptr;
  std::vector<Expr *> asserted;
  uint64_t nq = 0, nsat = 0, nunsat = 0, nknown = 0, nfork = 0; double solverTime = 0;
  uint32_t epoch = 1;
  // ---
  void initSolver();
  Z3_ast lower(Expr *e);
  void sync(State &st);
  int check(State &st, Expr *extra, std::vector<uint64_t> *model); // 1 sat 0 unsat -1 unknown
  u128 eval(Expr *e, const std::vector<uint64_t> &w);
  u128 evalRec(Expr *e, const std::vector<uint64_t> &w);
  bool decide(Expr *c);
  uint64_t concretize(Val v, unsigned w);
  uint64_t choice(uint64_t n);     // an arbitrary value below n; one path per value (the builtin is re-executed on the others)
  void assume(Expr *c);
  void addPc(State &st, Expr *c);
  Expr *reduce(State &st, Expr *c); // resolve what the order closure implies
  Z3_solver xs = nullptr; uint64_t nxcheck = 0, nxunk = 0, nreduce = 0;
  int flush(State &st);   // discharge the deferred assertions: -1 all hold, else label of a failing one (witness set)
  bool run(State *st, std::string &msg, int &kind);
  void step();
  void pushCall(Thread &t, Fn *f, const CallInfo *ci);
  void doCall(Thread &t, const Inst &in, bool invoke);
  void doRet(Thread &t, const Val *v, unsigned n);
  void unwind(Thread &t, Val exc);
  void takeEdge(Thread &t, Fn *f, uint32_t e);
};

// memory interface
Obj *objAt(State &s, uint64_t addr, uint64_t n, bool write, int64_t &off, const char *what);
Val loadVal(Exec &x, uint64_t addr, unsigned w);
void storeVal(Exec &x, uint64_t addr, Val v, unsigned w);
uint64_t allocObj(State &s, uint64_t size, ObjKind k, uint8_t fill, bool ro = false);
void freeObj(State &s, uint64_t addr, ObjKind k);
[[noreturn]] void pathEnd(int kind, const std::string &msg);
std::string readCStr(Exec &x, uint64_t a, size_t max = 4096);

// loader interface
int32_t engineConst(Val v);
uint64_t internStr(const std::string &s);
const std::string &strOf(uint64_t i);
int findBuiltin(const std::string &n);
Fn *engineFn(const void *llvmFn);
uint64_t newGlobalObject(uint64_t size, bool ro, const std::string &name, bool tls = false);
void initGlobalObject(uint64_t addr, const uint8_t *d, uint64_t n);
void externGlobal(const std::string &name, uint64_t addr);
int instrument(const char *in, const char *out, const char *root);
void loadProgram(const char *path);
void translateFn(Fn *f);
Fn *findFn(const std::string &n);
std::vector<Fn *> &allFns();
extern std::unordered_map<uint64_t, Fn *> g_fnByAddr;
extern std::vector<Builtin> g_builtins;
extern std::vector<std::string> g_builtinNames;
extern std::vector<Val> g_consts;
extern State *g_base;
extern std::vector<uint8_t> g_constTls;
uint64_t tlsAddr(State &s, int tid, uint64_t g);
void regBuiltins();
void regFsBuiltins();
void regThreadBuiltins();
void addB(const char *name, Builtin b);

// helpers for builtins
static inline Val C(uint64_t v) { return Val{v, nullptr}; }
Expr *toE(Val v, unsigned w);
Val fromE(Expr *e);
struct Args {
  Exec &x; State &s; const CallInfo &ci;
  Val v(unsigned i) const;                 // flattened arg
  uint64_t c(unsigned i) const;            // concrete (forks if symbolic)
  unsigned w(unsigned i) const { return ci.argw[i]; }
};
void setRet(Exec &x, const CallInfo &ci, unsigned i, Val v);
void setErrno(Exec &x, int e);
bool runTsdDtor(Exec &x, Thread &t);
void pickNext(Exec &x);    // the current thread cannot run: choose another
bool schedPoint(Exec &x);  // may switch thread; returns true if the current instruction must be re-executed
Val freshInput(State &s, unsigned w);
Expr *simplifyUnder(State &st, Expr *e);
