// Controlled-scheduler model checking runtime.
//
// Code under test is compiled by g++ -fsanitize=thread, which turns every memory access and every
// atomic operation into a call of the __tsan_* functions. They are defined here instead of in
// libtsan; so are the pthread, clock and heap functions. Threads are fibers of one OS thread, and
// the explorer decides which one runs at each synchronisation operation.
#include "mc.h"

#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <link.h>
#include <map>
#include <new>
#include <pthread.h>
#include <set>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <sys/time.h>
#include <sys/personality.h>
#include <typeinfo>
#include <unistd.h>
#include <vector>
extern "C" {
extern void *__dso_handle __attribute__((visibility("hidden")));
int __cxa_atexit(void (*)(void *), void *, void *);
}

extern "C" {
void *__libc_malloc(size_t);
void __libc_free(void *);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
extern char __data_start, _end, __executable_start, etext;
}

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;

namespace {

constexpr int MAXT = 8;
constexpr size_t STACK = 256 * 1024, GHOSTSZ = 64 * 1024;
// limits of one execution, raised for scenarios marked as big
size_t HEAPSZ = 2 * 1024 * 1024;
int MAX_BLOCKS = 60000;
bool cur_scen_big;
constexpr u64 SB = 0x200000000000ull, HBASE = 0x210000000000ull, GB = 0x220000000000ull;
constexpr u64 SHB = 0x230000000000ull; // shadow
constexpr int SPIN = 40; // read-only operations in a row after which a thread is taken to be polling
long MAX_STEPS = 40000;
long MAX_ACCESSES = 40000000;

struct VC {
  u16 c[MAXT];
  void join(const VC &o) {
    for (int i = 0; i < MAXT; i++)
      if (o.c[i] > c[i])
        c[i] = o.c[i];
  }
  bool leq(const VC &o) const {
    for (int i = 0; i < MAXT; i++)
      if (c[i] > o.c[i])
        return false;
    return true;
  }
};

// classes of accesses recorded per word
enum { A_READ = 0, A_WRITE = 1, A_AREAD = 2, A_AWRITE = 3 };

struct Cell { // per 8 byte word
  u32 gen;
  u32 sync;  // index of SyncObj + 1
  u32 block; // index of heap block + 1
  u8 live;   // addressable bytes (heap)
  u8 norace;
  u16 pad;
  u32 pc[4];
  u16 clk[4][MAXT];
  u8 mask[4][MAXT];
};

struct Store {
  u64 val;
  VC rel;    // what an acquiring reader learns
  u16 clk;   // writer epoch
  u8 tid;
  u64 h;
  u16 rd[MAXT]; // per thread: its epoch + 1 when it first knew of this store
};

struct SyncObj {
  u64 addr;
  u64 h; // history hash
  VC rel;
  int first_tid;
  bool shared;
  // mutex
  int owner; // -1 free
  int depth;
  bool recursive;
  u32 readers; // read-write locks: mask of the threads that hold it for reading
  VC rdrel;
  // condvar queue
  int waiters[MAXT];
  int nw;
  // weak memory history
  int nst;
  Store st[4];
  int seen[MAXT]; // absolute index of newest store seen by thread
  int base;       // absolute index of st[0]
};

enum St { FREE = 0, RUN, B_MUTEX, B_COND, B_JOIN, B_SLEEP, FIN };

struct Thread {
  St st;
  void *sp;
  void *(*fn)(void *);
  void *arg;
  void *ret;
  bool detached, joined;
  VC vc, facq, frel;
  u64 h;
  u64 mutex;   // address waited for
  bool shared_mode; // for reading
  u64 cond;
  int target;  // join
  int wake;    // 0 none, 1 signal, 2 spurious, 3 timeout
  int armed;   // 0, 2 (spurious), 3 (timeout)
  long long deadline; // <0 none
  bool yielded;
  bool fresh;      // has not performed a visible operation since it was started
  int ro;          // consecutive read-only visible ops
  long ro_epoch;   // value of write_epoch at that time
  u64 eh[2];
  char *heap, *ghost;
  long *cv_ghost; // counts the times this thread blocked on a condition variable
  char *tls;
  int nlocks;
  struct {
    void (*f)(void *);
    void *o;
  } dtors[16];
  int ndtors;
};

// Destructors of function-local statics initialised during this execution: run when the last thread has finished.
struct ExitHandler {
  void (*f)(void *);
  void *o;
};
constexpr int MAXEXIT = 64;

struct Block {
  u64 addr;
  size_t size;
  u8 tid, freed, norace, kind; // kind 0 malloc 1 new 2 exception
  u32 pc;
  u8 ftid;
};

struct Node {
  int kind, n, chosen;
  bool sched;
};
enum { K_SCHED = 0, K_DATA = 1, K_ENV = 2, K_SIG = 3 };

struct Ev {
  u8 tid;
  u8 kind;
  u16 aux;
  u32 pc;
  u64 addr, val;
};
enum { E_LOAD, E_STORE, E_RMW, E_CASF, E_FENCE, E_LOCK, E_UNLOCK, E_TRY, E_CWAIT, E_CWAKE, E_SIG, E_BCAST, E_CREATE, E_JOIN, E_EXIT, E_GLOAD, E_GSTORE, E_GADD, E_YIELD, E_CHOICE, E_SLEEP, E_NOTE, E_STALE, E_FAULT };
const char *evname[] = {"load", "store", "rmw", "cas-failed", "fence", "lock", "unlock", "trylock", "cond-wait", "cond-wake", "signal", "broadcast", "create", "join", "exit", "ghost-load", "ghost-store", "ghost-add", "yield", "choice", "sleep", "note", "stale-load", "fault"};

struct Key {
  u64 a, b;
  u32 used;
  int budget;
};

struct Scen {
  const char *prop, *name;
  mc::Fn fn;
  mc::Opts o;
};

enum End { E_DONE, E_PRUNED, E_DISCARD, E_VIOL, E_DIVERGED };

struct Engine {
  bool active;
  int in_engine;
  u32 gen;
  Thread th[MAXT];
  int nth, cur;
  void *xsp; // explorer stack pointer
  u64 xeh[2];
  End end;
  // per execution
  long steps, accesses, write_epoch, spin_epoch, spin_rounds;
  long long now;
  u64 clock_h;
  int pre_used, env_used;
  size_t live_blocks;
  long alloc_fail_at, alloc_count;
  int thread_fail_at, thread_count;
  bool alloc_armed;
  int alloc_tid; // failures hit only the arming thread: the count is part of its own history
  SyncObj *sync;
  int nsync;
  Block *blocks;
  int nblocks;
  Ev *ev;
  int nev;
  bool newshared;
  // exploration
  int pre_bound, env_bound; // -1 unbounded
  bool stale, leaks, thorough, suppressed, tracing, cache;
  std::vector<Node> *path;
  size_t depth; // next choice index
  size_t prefix; // length of the prefix to replay
  std::vector<int> *replay;
  std::set<u64> *shared, *pending;
  Key *tab;
  size_t tabn, tabcap;
  // stats
  long execs, nodes, pruned, discarded, transitions, done;
  size_t maxdepth;
  int maxthreads;
  std::map<std::string, long> *outcomes;
  char vkind[64];
  char vmsg[2048];
  long tick_exec, tick_n;
  // snapshot
  char *snap;
  size_t snapn;
  char *tlsimg, *tlsaddr;
  size_t tlsn;
  std::map<u64, int> *osync; // sync objects outside the tracked regions
  const char *cur_name;
  ExitHandler exits[MAXEXIT];
  int nexit;
};

Engine *G;
std::vector<Scen> *scens;

inline u64 mix(u64 a, u64 b) {
  u64 x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C159E3779B9ull + (a << 6) + (a >> 2));
  x ^= x >> 32;
  x *= 0xD6E8FEB86659FD93ull;
  x ^= x >> 29;
  return x;
}

struct EG {
  EG() { G->in_engine++; }
  ~EG() { G->in_engine--; }
};

#define PC() ((u32)(u64)__builtin_return_address(0))
#define ACTIVE() (G && G->active && !G->in_engine)

extern "C" void mc_switch(void **save, void *to);
asm(".text\n.globl mc_switch\n.type mc_switch,@function\nmc_switch:\n"
    "  push %rbp\n  push %rbx\n  push %r12\n  push %r13\n  push %r14\n  push %r15\n"
    "  mov %rsp,(%rdi)\n  mov %rsi,%rsp\n"
    "  pop %r15\n  pop %r14\n  pop %r13\n  pop %r12\n  pop %rbx\n  pop %rbp\n  ret\n");

inline Thread &T() { return G->th[G->cur]; }

[[noreturn]] void finish_exec(End e) {
  G->end = e;
  void *dummy;
  G->active = false;
  G->in_engine = 1;
  memcpy(__cxxabiv1::__cxa_get_globals(), G->xeh, 16);
  mc_switch(&dummy, G->xsp);
  __builtin_unreachable();
}

void event(int kind, u64 addr, u64 val, u32 pc, int aux = 0) {
  if (!G->tracing)
    return;
  if (G->nev < 20000) {
    Ev &e = G->ev[G->nev++];
    e = Ev{(u8)G->cur, (u8)kind, (u16)aux, pc, addr, val};
  }
}

[[noreturn]] void violation(const char *kind, const char *fmt, ...) {
  G->in_engine = 1;
  va_list ap;
  va_start(ap, fmt);
  snprintf(G->vkind, sizeof G->vkind, "%s", kind);
  vsnprintf(G->vmsg, sizeof G->vmsg, fmt, ap);
  va_end(ap);
  finish_exec(E_VIOL);
}

[[noreturn]] void engine_error(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  fprintf(stderr, "ENGINE-ERROR ");
  vfprintf(stderr, fmt, ap);
  fprintf(stderr, "\n");
  va_end(ap);
  fflush(stderr);
  _exit(3);
}

// ---------------------------------------------------------------- shadow
u64 g_data_lo, g_data_hi; // set before the snapshot

inline Cell *cell_of(u64 a) {
  if (a >= SB && a < SB + MAXT * STACK)
    return (Cell *)SHB + ((a - SB) >> 3);
  if (a >= HBASE && a < HBASE + MAXT * HEAPSZ)
    return (Cell *)SHB + (MAXT * STACK >> 3) + ((a - HBASE) >> 3);
  if (a >= g_data_lo && a < g_data_hi)
    return (Cell *)SHB + ((MAXT * STACK + MAXT * HEAPSZ) >> 3) + ((a - g_data_lo) >> 3);
  if (a >= GB && a < GB + MAXT * GHOSTSZ)
    return (Cell *)SHB + ((MAXT * STACK + MAXT * HEAPSZ + (g_data_hi - g_data_lo)) >> 3) + ((a - GB) >> 3);
  return nullptr;
}
inline bool is_heap(u64 a) { return a >= HBASE && a < HBASE + MAXT * HEAPSZ; }
inline bool is_stack(u64 a) { return a >= SB && a < SB + MAXT * STACK; }
inline bool is_ghost(u64 a) { return a >= GB && a < GB + MAXT * GHOSTSZ; }

inline Cell *fresh(Cell *c) {
  if (c->gen != G->gen) {
    memset((void *)c, 0, sizeof *c);
    c->gen = G->gen;
  }
  return c;
}

const char *describe(u64 a, char *buf, size_t n) {
  if (is_heap(a)) {
    for (int i = 0; i < G->nblocks; i++) {
      Block &b = G->blocks[i];
      if (a >= b.addr - 16 && a < b.addr + b.size + 16) {
        snprintf(buf, n, "heap block of %zu bytes (allocated by T%d at pc 0x%x%s) offset %ld", b.size, b.tid, b.pc, b.freed ? ", freed" : "", (long)(a - b.addr));
        return buf;
      }
    }
    snprintf(buf, n, "unallocated heap 0x%lx", (unsigned long)a);
  } else if (is_stack(a))
    snprintf(buf, n, "stack of T%d", (int)((a - SB) / STACK));
  else
    snprintf(buf, n, "global data 0x%lx", (unsigned long)a);
  return buf;
}

void check_addr(u64 a, Cell *c, u8 m, bool wr, u32 pc) {
  if (is_heap(a)) {
    if ((c->live & m) != m) {
      char b[200];
      violation(c->block && G->blocks[c->block - 1].freed ? "use-after-free" : "out-of-bounds", "%s by T%d at pc 0x%x of %s", wr ? "write" : "read", G->cur, pc, describe(a, b, sizeof b));
    }
  } else if (is_stack(a)) {
    int o = (int)((a - SB) / STACK);
    if (o != G->cur) {
      Thread &t = G->th[o];
      if (t.st == FREE || t.st == FIN || a < (u64)t.sp)
        violation("use-after-scope", "%s by T%d at pc 0x%x of dead stack memory of T%d", wr ? "write" : "read", G->cur, pc, o);
    }
  }
}

void race(u64 a, int mycls, int cls, int u, Cell *c, u32 pc) {
  static const char *nm[] = {"read", "write", "atomic read", "atomic write"};
  char b[200];
  violation("data-race", "%s by T%d at pc 0x%x is unordered with %s by T%d at pc 0x%x: %s", nm[mycls], G->cur, pc, nm[cls], u, c->pc[cls], describe(a, b, sizeof b));
}

inline void record_word(u64 a, u8 m, int cls, u32 pc) {
  Cell *c = cell_of(a);
  if (!c)
    return;
  fresh(c);
  check_addr(a, c, m, cls & 1, pc);
  if (c->norace)
    return;
  Thread &t = T();
  int me = G->cur, n = G->nth;
  // conflicting classes
  auto chk = [&](int k) {
    for (int u = 0; u < n; u++)
      if (u != me && (c->mask[k][u] & m) && c->clk[k][u] > t.vc.c[u])
        race(a, cls, k, u, c, pc);
  };
  chk(A_WRITE);
  switch (cls) {
  case A_READ:
    chk(A_AWRITE);
    break;
  case A_WRITE:
    chk(A_READ);
    chk(A_AREAD);
    chk(A_AWRITE);
    break;
  case A_AREAD:
    break;
  case A_AWRITE:
    chk(A_READ);
    break;
  }
  if (c->clk[cls][me] == t.vc.c[me])
    c->mask[cls][me] |= m;
  else {
    c->clk[cls][me] = t.vc.c[me];
    c->mask[cls][me] = m;
  }
  c->pc[cls] = pc;
}

void access(u64 a, size_t n, int cls, u32 pc) {
  if (is_ghost(a))
    return;
  if (++G->accesses > MAX_ACCESSES)
    violation("no-progress", "more than %ld memory accesses in one execution", MAX_ACCESSES);
  while (n) {
    size_t off = a & 7, k = 8 - off < n ? 8 - off : n;
    record_word(a & ~7ull, (u8)(((1u << k) - 1) << off), cls, pc);
    a += k;
    n -= k;
  }
}

// ---------------------------------------------------------------- sync objects
SyncObj &sync_at(u64 addr, bool atomic = false, int sz = 0) {
  u64 a = addr & ~7ull;
  int idx;
  Cell *c = cell_of(a);
  // distinct objects within one word (e.g. two atomic bytes) share the object; conservative
  if (c) {
    fresh(c);
    idx = (int)c->sync - 1;
  } else {
    auto it = G->osync->find(a);
    idx = it == G->osync->end() ? -1 : it->second;
  }
  if (idx < 0) {
    idx = G->nsync++;
    if (idx >= 4096)
      engine_error("too many sync objects");
    SyncObj &o = G->sync[idx];
    memset((void *)&o, 0, sizeof o);
    o.addr = a;
    o.owner = -1;
    o.first_tid = G->cur;
    o.h = mix(a, 1);
    o.shared = G->shared->count(a) != 0;
    if (c)
      c->sync = (u32)idx + 1;
    else
      (*G->osync)[a] = idx;
  }
  SyncObj &o = G->sync[idx];
  if (o.first_tid != G->cur && !o.shared) {
    // takes effect in the next round, so that one round is deterministic
    G->pending->insert(a);
    G->newshared = true;
  }
  return o;
}

// ---------------------------------------------------------------- choices
int take_choice(int kind, int n) {
  size_t i = G->depth++;
  if (i < G->path->size()) {
    Node &nd = (*G->path)[i];
    if (nd.kind != kind || nd.n != n)
      engine_error("nondeterministic replay in %s at choice %zu: recorded kind %d/%d, now %d/%d", G->cur_name, i, nd.kind, nd.n, kind, n);
    return nd.chosen;
  }
  int v = 0;
  if (G->replay) {
    if (i < G->replay->size())
      v = (*G->replay)[i];
    if (v >= n)
      violation("replay-mismatch", "the recorded schedule does not apply to this build");
  }
  if (kind == K_DATA)
    G->nodes++;
  G->path->push_back(Node{kind, n, v, kind == K_SCHED});
  return v;
}

void key_of(u64 &a, u64 &b) {
  u64 x = 0x1234567, y = 0x9876543;
  for (int i = 0; i < G->nth; i++) {
    Thread &t = G->th[i];
    x = mix(x, t.h + i);
    x = mix(x, t.st == B_MUTEX ? t.mutex : (u64)t.st);
    y = mix(y ^ 0x5bd1e995, G->th[i].h * 31 + i);
  }
  a = mix(x, G->clock_h);
  b = y;
}

bool visited(int cur, int budget) {
  u64 a, b;
  key_of(a, b);
  if (G->pre_bound >= 0)
    a = mix(a, (u64)cur + 77);
  a = mix(a, (u64)G->env_used + 1000);
  if (G->tabn * 2 > G->tabcap) {
    size_t nc = G->tabcap * 2;
    Key *nt = (Key *)mmap(nullptr, nc * sizeof(Key), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (nt == MAP_FAILED)
      engine_error("out of memory for the state table");
    for (size_t i = 0; i < G->tabcap; i++)
      if (G->tab[i].used) {
        size_t j = G->tab[i].a & (nc - 1);
        while (nt[j].used)
          j = (j + 1) & (nc - 1);
        nt[j] = G->tab[i];
      }
    munmap(G->tab, G->tabcap * sizeof(Key));
    G->tab = nt;
    G->tabcap = nc;
  }
  size_t j = a & (G->tabcap - 1);
  while (G->tab[j].used) {
    if (G->tab[j].a == a && G->tab[j].b == b) {
      // histories only grow: meeting a state of this very execution again would be an error of the engine
      if (G->tab[j].used == (u32)(G->execs | 1ll << 31))
        engine_error("state repeated within one execution of %s", G->cur_name);
      if (G->tab[j].budget >= budget)
        return true;
      G->tab[j].budget = budget;
      G->tab[j].used = (u32)(G->execs | 1ll << 31);
      return false;
    }
    j = (j + 1) & (G->tabcap - 1);
  }
  G->tab[j] = Key{a, b, (u32)(G->execs | 1ll << 31), budget};
  G->tabn++;
  return false;
}

// ---------------------------------------------------------------- scheduling
bool mutex_free(u64 m, bool reading) {
  Cell *c = cell_of(m & ~7ull);
  int idx;
  if (c) {
    if (c->gen != G->gen || !c->sync)
      return true;
    idx = (int)c->sync - 1;
  } else {
    auto it = G->osync->find(m & ~7ull);
    if (it == G->osync->end())
      return true;
    idx = it->second;
  }
  return G->sync[idx].owner < 0 && (reading || !G->sync[idx].readers);
}

bool enabled(int i) {
  Thread &t = G->th[i];
  switch (t.st) {
  case RUN:
    return !(t.ro >= SPIN && t.ro_epoch == G->write_epoch);
  case B_MUTEX:
    return mutex_free(t.mutex, t.shared_mode);
  case B_COND:
    return t.armed != 0;
  case B_SLEEP:
    return t.armed != 0;
  case B_JOIN:
    return G->th[t.target].st == FIN;
  default:
    return false;
  }
}

void switch_to(int i) {
  int me = G->cur;
  if (i == me)
    return;
  Thread &a = G->th[me], &b = G->th[i];
  void *eh = __cxxabiv1::__cxa_get_globals();
  memcpy(a.eh, eh, 16);
  memcpy(eh, b.eh, 16);
  if (G->tlsn) {
    memcpy(a.tls, G->tlsaddr, G->tlsn);
    memcpy(G->tlsaddr, b.tls, G->tlsn);
  }
  G->cur = i;
  mc_switch(&a.sp, b.sp);
}

[[noreturn]] void end_of_execution();

// Gives up control at a visible operation, when blocked, or when finished.
void schedule() {
  T().fresh = false;
  if (++G->steps > MAX_STEPS)
    violation("no-progress", "more than %ld synchronisation operations in one execution (livelock)", MAX_STEPS);
  int list[MAXT], n = 0;
  int me = G->cur;
  for (;;) {
    n = 0;
    bool mine = enabled(me);
    bool y = T().yielded;
    if (mine && !y)
      list[n++] = me;
    for (int i = 0; i < G->nth; i++)
      if (i != me && enabled(i))
        list[n++] = i;
    if (n == 0 && mine)
      list[n++] = me;
    if (n)
      break;
    // quiescent: let virtual time pass
    int best = -1;
    for (int i = 0; i < G->nth; i++) {
      Thread &t = G->th[i];
      if ((t.st == B_COND || t.st == B_SLEEP) && t.deadline >= 0 && (best < 0 || t.deadline < G->th[best].deadline))
        best = i;
    }
    if (best >= 0) {
      G->th[best].armed = 3;
      continue;
    }
    bool all = true, polling = false;
    for (int i = 0; i < G->nth; i++) {
      if (G->th[i].st != FIN)
        all = false;
      if (G->th[i].st == RUN)
        polling = true;
    }
    if (polling) {
      // nobody else can run: the polling thread goes on, but not forever
      if (G->spin_epoch != G->write_epoch) {
        G->spin_epoch = G->write_epoch;
        G->spin_rounds = 0;
      }
      if (G->spin_rounds++ < 50) {
        for (int i = 0; i < G->nth; i++)
          G->th[i].ro = 0;
        continue;
      }
    }
    if (all)
      end_of_execution();
    char buf[600];
    int k = 0;
    bool spin = false;
    for (int i = 0; i < G->nth && k < 500; i++) {
      Thread &t = G->th[i];
      const char *s = "?";
      switch (t.st) {
      case RUN:
        s = "spinning without progress";
        spin = true;
        break;
      case B_MUTEX:
        s = "blocked on a mutex";
        break;
      case B_COND:
        s = "blocked on a condition variable";
        break;
      case B_JOIN:
        s = "blocked joining a thread";
        break;
      case B_SLEEP:
        s = "sleeping";
        break;
      case FIN:
        s = "finished";
        break;
      default:
        break;
      }
      k += snprintf(buf + k, sizeof buf - k, "%sT%d %s", i ? ", " : "", i, s);
    }
    violation(spin ? "livelock" : "deadlock", "no thread can continue: %s", buf);
  }
  bool curfirst = list[0] == me && T().st == RUN && !T().yielded;
  bool free_switch = !curfirst || (T().st != RUN);
  int budget = G->pre_bound < 0 ? 1 << 20 : G->pre_bound - G->pre_used;
  if (n > 1 && !free_switch && budget <= 0) {
    G->suppressed = true;
    n = 1;
  }
  if (G->cache && G->depth >= G->prefix && !G->replay) {
    // first visit beyond the replayed prefix
    if (visited(free_switch ? 100 : me, budget))
      finish_exec(E_PRUNED);
  }
  int idx = n > 1 ? take_choice(K_SCHED, n) : 0;
  if (idx > 0 && !free_switch)
    G->pre_used++;
  T().yielded = false;
  int to = list[idx];
  if (to != me)
    switch_to(to);
}

void bump_hash(u64 what) { T().h = mix(T().h, what); }

// note: which threads are spinning is re-evaluated whenever somebody writes
void progress_write() { G->write_epoch++; }
void note_ro() {
  Thread &t = T();
  if (t.ro_epoch == G->write_epoch)
    t.ro++;
  else {
    t.ro_epoch = G->write_epoch;
    t.ro = 1;
  }
}

void sched_point(SyncObj &o) {
  if (!o.shared)
    return;
  if (T().fresh) { // being chosen for the first time already was the scheduling decision
    T().fresh = false;
    return;
  }
  schedule();
}

int env_choice(int n) {
  if (n <= 1)
    return 0;
  if (G->env_bound >= 0 && G->env_used >= G->env_bound) {
    return 0;
  }
  int v = take_choice(K_ENV, n);
  if (v)
    G->env_used++;
  bump_hash(0xE000 + v);
  return v;
}

// object op: read-only
void hist_read(SyncObj &o, u64 op) { T().h = mix(mix(T().h, op), o.h); }
void hist_write(SyncObj &o, u64 op, bool progress = true) {
  T().h = mix(mix(T().h, op ^ o.addr), o.h);
  o.h = mix(o.h, T().h);
  if (progress)
    progress_write();
  else if (o.shared)
    note_ro();
}

void release_to(SyncObj &o) {
  o.rel = T().vc;
  T().vc.c[G->cur]++;
  if (T().vc.c[G->cur] > 60000 && G->nth == 1 && cur_scen_big)
    T().vc.c[G->cur] = 1; // nobody to compare with
  if (T().vc.c[G->cur] > 60000)
    violation("no-progress", "clock overflow");
}

// ---------------------------------------------------------------- fibers
void fiber_exit();

void run_exit_handlers() {
  for (int i = 0; i < G->nth; i++)
    if (i != G->cur && G->th[i].st != FIN)
      return;
  if (!G->nexit)
    return;
  for (int i = 0; i < G->nth; i++)
    T().vc.join(G->th[i].vc);
  while (G->nexit) {
    ExitHandler &h = G->exits[--G->nexit];
    h.f(h.o);
  }
}

extern "C" void mc_fiber_main() {
  Thread &t = T();
  G->in_engine = 0;
  try {
    t.ret = t.fn(t.arg);
    Thread &u = T();
    while (u.ndtors) {
      --u.ndtors;
      u.dtors[u.ndtors].f(u.dtors[u.ndtors].o);
    }
    run_exit_handlers();
  } catch (std::exception &e) {
    violation("uncaught-exception", "exception escaped from thread T%d: %s: %s", G->cur, typeid(e).name(), e.what());
  } catch (...) {
    violation("uncaught-exception", "exception escaped from thread T%d", G->cur);
  }
  fiber_exit();
}
asm(".text\n.type mc_entry,@function\nmc_entry:\n.cfi_startproc\n.cfi_undefined rip\n  xor %ebp,%ebp\n  call mc_fiber_main\n  ud2\n.cfi_endproc\n");
extern "C" void mc_entry();

int new_thread(void *(*fn)(void *), void *arg) {
  if (G->nth >= MAXT)
    engine_error("too many threads in scenario %s", G->cur_name);
  int i = G->nth++;
  if (G->nth > G->maxthreads)
    G->maxthreads = G->nth;
  Thread &t = G->th[i];
  char *tls = t.tls;
  memset((void *)&t, 0, sizeof t);
  t.tls = tls;
  t.st = RUN;
  t.fn = fn;
  t.arg = arg;
  t.deadline = -1;
  t.fresh = true;
  t.heap = (char *)(HBASE + i * HEAPSZ + 64);
  t.ghost = (char *)(GB + i * GHOSTSZ);
  if (G->tlsn)
    memcpy(t.tls, G->tlsimg, G->tlsn);
  if (i > 0) {
    t.vc = T().vc;
    t.h = mix(T().h, 0xC0 + i);
    T().vc.c[G->cur]++;
  } else
    t.h = 0x51;
  t.vc.c[i] = 1;
  // same stack contents in every execution, so that reads of uninitialised memory repeat
  memset((void *)(SB + (i + 1) * STACK - 128 - 12288), 0xA5, 12288);
  u64 *sp = (u64 *)(SB + (i + 1) * STACK - 128);
  *--sp = (u64)&mc_entry;
  for (int k = 0; k < 6; k++)
    *--sp = 0;
  t.sp = sp;
  return i;
}

void fiber_exit() {
  G->in_engine = 1;
  Thread &t = T();
  t.st = FIN;
  bump_hash(0xF1);
  event(E_EXIT, 0, 0, 0);
  progress_write();
  schedule();
  __builtin_unreachable();
}

void end_of_execution() {
  for (int i = 0; i < G->nth; i++)
    if (G->th[i].nlocks)
      violation("lock-leak", "T%d finished holding a mutex", i);
  if (G->leaks) {
    for (int i = 0; i < G->nblocks; i++) {
      Block &b = G->blocks[i];
      if (!b.freed)
        violation("leak", "block of %zu bytes allocated by T%d at pc 0x%x was never released", b.size, b.tid, b.pc);
    }
    for (int i = 1; i < G->nth; i++)
      if (!G->th[i].joined && !G->th[i].detached)
        violation("leak", "thread T%d was neither joined nor detached", i);
  }
  finish_exec(E_DONE);
}

// ---------------------------------------------------------------- heap
void *model_alloc(size_t n, size_t align, int kind, u32 pc) {
  Thread &t = T();
  if (align < 16)
    align = 16;
  u64 a = ((u64)t.heap + align - 1) & ~(align - 1);
  size_t rn = (n + 7) & ~7ull;
  if (a + rn + 64 > HBASE + (G->cur + 1) * HEAPSZ)
    return nullptr;
  t.heap = (char *)(a + ((rn + 15) & ~15ull) + 32);
  int id = G->nblocks++;
  if (id >= MAX_BLOCKS)
    engine_error("too many allocations");
  Block &b = G->blocks[id];
  b = Block{a, n, (u8)G->cur, 0, (u8)(kind == 2), (u8)kind, pc, 0};
  for (size_t o = 0; o < n || o == 0; o += 8) {
    Cell *c = cell_of(a + o);
    c->gen = G->gen - 1;
    fresh(c);
    size_t k = n - o < 8 ? n - o : 8;
    if (n == 0)
      k = 0;
    c->live = (u8)((1u << k) - 1);
    c->block = (u32)id + 1;
    c->norace = kind == 2;
    // the allocation itself is an access of the allocating thread
    if (c->live) {
      c->clk[A_WRITE][G->cur] = t.vc.c[G->cur];
      c->mask[A_WRITE][G->cur] = c->live;
      c->pc[A_WRITE] = pc;
    }
    if (n == 0)
      break;
  }
  memset((void *)a, 0xA5, n);
  G->live_blocks++;
  return (void *)a;
}

void model_free(void *p, u32 pc, int kind) {
  u64 a = (u64)p;
  Cell *c = fresh(cell_of(a & ~7ull));
  Block *b = c->block ? &G->blocks[c->block - 1] : nullptr;
  if (!b || b->addr != a)
    violation("bad-free", "T%d at pc 0x%x frees 0x%lx which is not the start of a block", G->cur, pc, (unsigned long)a);
  if (b->freed)
    violation("double-free", "T%d at pc 0x%x frees a block of %zu bytes already freed by T%d", G->cur, pc, b->size, b->ftid);
  for (size_t o = 0; o < b->size; o += 8) {
    Cell *k = fresh(cell_of(a + o));
    if (k->live)
      record_word(a + o, k->live, A_WRITE, pc);
    if (k->sync) {
      SyncObj &s = G->sync[k->sync - 1];
      if (s.owner >= 0)
        violation("locked-mutex-destroyed", "T%d at pc 0x%x releases memory of a mutex held by T%d", G->cur, pc, s.owner);
      if (s.nw)
        violation("condvar-destroyed", "T%d at pc 0x%x releases memory of a condition variable with waiters", G->cur, pc);
    }
    k->live = 0;
    k->sync = 0;
  }
  b->freed = 1;
  b->ftid = (u8)G->cur;
  memset(p, 0xDD, b->size);
  G->live_blocks--;
}

size_t model_size(void *p) {
  Cell *c = fresh(cell_of((u64)p & ~7ull));
  return c->block ? G->blocks[c->block - 1].size : 0;
}

void *do_new(size_t n, size_t al, u32 pc) {
  if (ACTIVE()) {
    EG e;
    if (G->alloc_armed && G->alloc_tid == G->cur) {
      G->alloc_count++;
      if (G->alloc_fail_at && G->alloc_count == G->alloc_fail_at) {
        event(E_FAULT, n, 0, pc);
        return nullptr;
      }
    }
    return model_alloc(n, al, 1, pc);
  }
  return al > 16 ? __libc_memalign(al, n) : __libc_malloc(n ? n : 1);
}

void do_free(void *p, u32 pc) {
  if (!p)
    return;
  if (is_heap((u64)p)) {
    if (G->active && !G->in_engine) {
      EG e;
      model_free(p, pc, 0);
    }
    return;
  }
  __libc_free(p);
}

} // namespace

// ================================================================ interposed C library
extern "C" {
void *malloc(size_t n) {
  if (ACTIVE()) {
    EG e;
    return model_alloc(n, 16, 0, PC());
  }
  return __libc_malloc(n);
}
void free(void *p) { do_free(p, PC()); }
void *calloc(size_t a, size_t b) {
  if (ACTIVE()) {
    EG e;
    void *p = model_alloc(a * b, 16, 0, PC());
    if (p)
      memset(p, 0, a * b);
    return p;
  }
  return __libc_calloc(a, b);
}
void *realloc(void *p, size_t n) {
  if (ACTIVE() || is_heap((u64)p)) {
    EG e;
    if (p && !is_heap((u64)p))
      return __libc_realloc(p, n);
    void *q = model_alloc(n, 16, 0, PC());
    if (p && q) {
      size_t o = model_size(p);
      memcpy(q, p, o < n ? o : n);
      model_free(p, PC(), 0);
    }
    return q;
  }
  return __libc_realloc(p, n);
}
void *memalign(size_t al, size_t n) {
  if (ACTIVE()) {
    EG e;
    return model_alloc(n, al, 0, PC());
  }
  return __libc_memalign(al, n);
}
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **p, size_t al, size_t n) {
  void *q = memalign(al, n);
  if (!q)
    return ENOMEM;
  *p = q;
  return 0;
}

void *__cxa_allocate_exception(size_t n) noexcept {
  static void *(*real)(size_t);
  if (!real) {
    if (G)
      G->in_engine++;
    real = (void *(*)(size_t))dlsym(RTLD_NEXT, "__cxa_allocate_exception");
    if (G)
      G->in_engine--;
  }
  if (ACTIVE()) {
    int before = G->nblocks;
    void *p = real(n);
    if (G->nblocks == before + 1) {
      Block &b = G->blocks[before];
      b.kind = 2;
      b.norace = 1;
      for (size_t o = 0; o < b.size; o += 8)
        cell_of(b.addr + o)->norace = 1;
    }
    return p;
  }
  return real(n);
}
}

void *operator new(size_t n) {
  void *p = do_new(n, 16, PC());
  if (!p)
    throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n) {
  void *p = do_new(n, 16, PC());
  if (!p)
    throw std::bad_alloc();
  return p;
}
void *operator new(size_t n, const std::nothrow_t &) noexcept { return do_new(n, 16, PC()); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return do_new(n, 16, PC()); }
void *operator new(size_t n, std::align_val_t al) {
  void *p = do_new(n, (size_t)al, PC());
  if (!p)
    throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n, std::align_val_t al) {
  void *p = do_new(n, (size_t)al, PC());
  if (!p)
    throw std::bad_alloc();
  return p;
}
void operator delete(void *p) noexcept { do_free(p, PC()); }
void operator delete[](void *p) noexcept { do_free(p, PC()); }
void operator delete(void *p, const std::nothrow_t &) noexcept { do_free(p, PC()); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { do_free(p, PC()); }
void operator delete(void *p, size_t) noexcept { do_free(p, PC()); }
void operator delete[](void *p, size_t) noexcept { do_free(p, PC()); }
void operator delete(void *p, std::align_val_t) noexcept { do_free(p, PC()); }
void operator delete[](void *p, std::align_val_t) noexcept { do_free(p, PC()); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { do_free(p, PC()); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { do_free(p, PC()); }

// ================================================================ tsan interface: plain accesses
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define ACC(name, n, cls)                                                                                              \
  void name(void *p) {                                                                                                 \
    if (ACTIVE()) {                                                                                                    \
      EG e;                                                                                                            \
      access((u64)p, n, cls, PC());                                                                                    \
    }                                                                                                                  \
  }
#define ACC2(sz)                                                                                                       \
  ACC(__tsan_read##sz, sz, A_READ)                                                                                     \
  ACC(__tsan_write##sz, sz, A_WRITE)                                                                                   \
  ACC(__tsan_unaligned_read##sz, sz, A_READ)                                                                           \
  ACC(__tsan_unaligned_write##sz, sz, A_WRITE)                                                                         \
  ACC(__tsan_volatile_read##sz, sz, A_READ)                                                                            \
  ACC(__tsan_volatile_write##sz, sz, A_WRITE)
ACC2(1) ACC2(2) ACC2(4) ACC2(8) ACC2(16)
void __tsan_read_range(void *p, size_t n) {
  if (ACTIVE()) {
    EG e;
    access((u64)p, n, A_READ, PC());
  }
}
void __tsan_write_range(void *p, size_t n) {
  if (ACTIVE()) {
    EG e;
    access((u64)p, n, A_WRITE, PC());
  }
}
void __tsan_vptr_read(void **p) {
  if (ACTIVE()) {
    EG e;
    access((u64)p, 8, A_READ, PC());
  }
}
void __tsan_vptr_update(void **p, void *v) {
  if (ACTIVE()) {
    EG e;
    if (is_heap((u64)p)) {
      Cell *c = fresh(cell_of((u64)p & ~7ull));
      check_addr((u64)p, c, 0xff, true, PC());
    }
    if (*p == v)
      return;
    access((u64)p, 8, A_WRITE, PC());
  }
}
}

// ================================================================ atomics
namespace {
inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

// weak memory store history (only kept in stale mode)
void hist_init(SyncObj &o, u64 cur) {
  if (o.nst && o.st[o.nst - 1].val != cur) { // initialised again by plain writes
    o.nst = 0;
    memset(o.seen, 0, sizeof o.seen);
  }
  if (o.nst == 0) {
    o.nst = 1;
    o.base = 0;
    o.st[0] = Store{cur, o.rel, 0, 0, 0, {}};
  }
}
void hist_knows(SyncObj &o, int i, u16 clk) {
  if (o.base + i > o.seen[G->cur])
    o.seen[G->cur] = o.base + i;
  if (!o.st[i].rd[G->cur])
    o.st[i].rd[G->cur] = (u16)(clk + 1);
}
// clk: epoch of the writer before its release part
void hist_push(SyncObj &o, u64 v, u16 clk) {
  if (o.nst == 4) {
    memmove(&o.st[0], &o.st[1], 3 * sizeof(Store));
    o.nst = 3;
    o.base++;
  }
  o.st[o.nst++] = Store{v, o.rel, clk, (u8)G->cur, o.h, {}};
  hist_knows(o, o.nst - 1, clk);
}
// whether the current thread must not read anything older than the i-th store
bool hist_floor(SyncObj &o, int i) {
  if (o.base + i <= o.seen[G->cur])
    return true;
  for (int t = 0; t < MAXT; t++) // written or read before something that happens-before now
    if (o.st[i].rd[t] && T().vc.c[t] + 1 >= o.st[i].rd[t])
      return true;
  return false;
}

template <typename A> A at_load(const volatile A *p, int mo, u32 pc) {
  EG e;
  SyncObj &o = sync_at((u64)p);
  sched_point(o);
  access((u64)p, sizeof(A), A_AREAD, pc);
  A v = *p;
  VC *rel = &o.rel;
  u64 oh = o.h;
  if (G->stale && mo != __ATOMIC_SEQ_CST) {
    hist_init(o, (u64)v);
    // candidates: newest first, stop at the first store that happens-before us or was already seen
    int lo = o.nst - 1;
    while (lo > 0) {
      if (hist_floor(o, lo))
        break;
      lo--;
    }
    int k = env_choice(o.nst - lo);
    if (k) {
      Store &s = o.st[o.nst - 1 - k];
      v = (A)s.val;
      rel = &s.rel;
      oh = s.h;
      event(E_STALE, (u64)p, (u64)v, pc);
    }
    hist_knows(o, o.nst - 1 - k, T().vc.c[G->cur]);
  }
  if (is_acq(mo))
    T().vc.join(*rel);
  else
    T().facq.join(*rel);
  T().h = mix(mix(T().h, 0xA1 ^ (u64)p), oh);
  if (o.shared)
    note_ro();
  G->transitions++;
  event(E_LOAD, (u64)p, (u64)v, pc, mo);
  return v;
}

// store part of a store or rmw
void rel_part(SyncObj &o, int mo, bool rmw) {
  Thread &t = T();
  if (is_rel(mo)) {
    if (rmw)
      o.rel.join(t.vc);
    else
      o.rel = t.vc;
    t.vc.c[G->cur]++;
  } else {
    if (rmw)
      o.rel.join(t.frel);
    else
      o.rel = t.frel;
  }
}

template <typename A> void at_store(volatile A *p, A v, int mo, u32 pc) {
  EG e;
  SyncObj &o = sync_at((u64)p);
  sched_point(o);
  access((u64)p, sizeof(A), A_AWRITE, pc);
  if (G->stale)
    hist_init(o, (u64)*p);
  const u16 clk = T().vc.c[G->cur];
  rel_part(o, mo, false);
  *p = v;
  hist_write(o, 0xA2);
  if (G->stale)
    hist_push(o, (u64)v, clk);
  G->transitions++;
  event(E_STORE, (u64)p, (u64)v, pc, mo);
}

template <typename A, typename F> A at_rmw(volatile A *p, F f, int mo, u32 pc) {
  EG e;
  SyncObj &o = sync_at((u64)p);
  sched_point(o);
  access((u64)p, sizeof(A), A_AWRITE, pc);
  A old = *p;
  if (G->stale)
    hist_init(o, (u64)old);
  if (is_acq(mo))
    T().vc.join(o.rel);
  else
    T().facq.join(o.rel);
  const u16 clk = T().vc.c[G->cur];
  A nv = f(old);
  // A step that leaves the value as it was is no progress for those who wait for a change (test-and-set locks).
  const bool same = nv == old;
  if (same && !is_rel(mo) && T().frel.leq(o.rel)) { // acts as a read
    if (G->stale)
      hist_knows(o, o.nst - 1, T().vc.c[G->cur]);
    hist_read(o, 0xA6 ^ (u64)p);
    if (o.shared)
      note_ro();
    G->transitions++;
    event(E_RMW, (u64)p, (u64)nv, pc, mo);
    return old;
  }
  rel_part(o, mo, true);
  *p = nv;
  hist_write(o, 0xA3, !same);
  if (G->stale)
    hist_push(o, (u64)nv, clk);
  G->transitions++;
  event(E_RMW, (u64)p, (u64)nv, pc, mo);
  return old;
}

template <typename A> bool at_cas(volatile A *p, A *exp, A des, int mo, int fmo, bool weak, u32 pc) {
  EG e;
  SyncObj &o = sync_at((u64)p);
  sched_point(o);
  A old = *p;
  access((u64)p, sizeof(A), A_AREAD, pc);
  G->transitions++;
  if (old == *exp && !(weak && env_choice(2))) {
    access((u64)p, sizeof(A), A_AWRITE, pc);
    if (G->stale)
      hist_init(o, (u64)old);
    if (is_acq(mo))
      T().vc.join(o.rel);
    else
      T().facq.join(o.rel);
    const u16 clk = T().vc.c[G->cur];
    rel_part(o, mo, true);
    *p = des;
    hist_write(o, 0xA4);
    if (G->stale)
      hist_push(o, (u64)des, clk);
    event(E_RMW, (u64)p, (u64)des, pc, mo);
    return true;
  }
  if (is_acq(fmo))
    T().vc.join(o.rel);
  else
    T().facq.join(o.rel);
  if (G->stale) {
    hist_init(o, (u64)old);
    hist_knows(o, o.nst - 1, T().vc.c[G->cur]);
  }
  hist_read(o, 0xA5 ^ (u64)p);
  if (o.shared)
    note_ro();
  event(E_CASF, (u64)p, (u64)old, pc, fmo);
  *exp = old;
  return false;
}
} // namespace

extern "C" {
#define ATOMICS(N, A)                                                                                                  \
  A __tsan_atomic##N##_load(const volatile A *p, int mo) {                                                             \
    if (!ACTIVE())                                                                                                     \
      return *p;                                                                                                       \
    return at_load<A>(p, mo, PC());                                                                                    \
  }                                                                                                                    \
  void __tsan_atomic##N##_store(volatile A *p, A v, int mo) {                                                          \
    if (!ACTIVE()) {                                                                                                   \
      *p = v;                                                                                                          \
      return;                                                                                                          \
    }                                                                                                                  \
    at_store<A>(p, v, mo, PC());                                                                                       \
  }                                                                                                                    \
  A __tsan_atomic##N##_exchange(volatile A *p, A v, int mo) {                                                          \
    if (!ACTIVE()) {                                                                                                   \
      A o = *p;                                                                                                        \
      *p = v;                                                                                                          \
      return o;                                                                                                        \
    }                                                                                                                  \
    return at_rmw<A>(p, [v](A) { return v; }, mo, PC());                                                               \
  }                                                                                                                    \
  bool __tsan_atomic##N##_compare_exchange_strong(volatile A *p, A *x, A d, int mo, int fmo) {                         \
    if (!ACTIVE()) {                                                                                                   \
      A o = *p;                                                                                                        \
      if (o == *x) {                                                                                                   \
        *p = d;                                                                                                        \
        return true;                                                                                                   \
      }                                                                                                                \
      *x = o;                                                                                                          \
      return false;                                                                                                    \
    }                                                                                                                  \
    return at_cas<A>(p, x, d, mo, fmo, false, PC());                                                                   \
  }                                                                                                                    \
  bool __tsan_atomic##N##_compare_exchange_weak(volatile A *p, A *x, A d, int mo, int fmo) {                           \
    if (!ACTIVE())                                                                                                     \
      return __tsan_atomic##N##_compare_exchange_strong(p, x, d, mo, fmo);                                             \
    return at_cas<A>(p, x, d, mo, fmo, true, PC());                                                                    \
  }                                                                                                                    \
  A __tsan_atomic##N##_compare_exchange_val(volatile A *p, A x, A d, int mo, int fmo) {                                \
    if (!ACTIVE()) {                                                                                                   \
      A o = *p;                                                                                                        \
      if (o == x)                                                                                                      \
        *p = d;                                                                                                        \
      return o;                                                                                                        \
    }                                                                                                                  \
    at_cas<A>(p, &x, d, mo, fmo, false, PC());                                                                         \
    return x;                                                                                                          \
  }
#define RMW(N, A, name, expr)                                                                                          \
  A __tsan_atomic##N##_##name(volatile A *p, A v, int mo) {                                                            \
    if (!ACTIVE()) {                                                                                                   \
      A o = *p;                                                                                                        \
      *p = (A)(expr);                                                                                                  \
      return o;                                                                                                        \
    }                                                                                                                  \
    return at_rmw<A>(p, [v](A o) { return (A)(expr); }, mo, PC());                                                     \
  }
#define ALLRMW(N, A)                                                                                                   \
  ATOMICS(N, A)                                                                                                        \
  RMW(N, A, fetch_add, o + v)                                                                                          \
  RMW(N, A, fetch_sub, o - v)                                                                                          \
  RMW(N, A, fetch_and, o &v)                                                                                           \
  RMW(N, A, fetch_or, o | v)                                                                                           \
  RMW(N, A, fetch_xor, o ^ v)                                                                                          \
  RMW(N, A, fetch_nand, ~(o & v))
ALLRMW(8, u8)
ALLRMW(16, u16)
ALLRMW(32, u32)
ALLRMW(64, u64)
typedef unsigned __int128 u128;
ALLRMW(128, u128)

void __tsan_atomic_thread_fence(int mo) {
  if (!ACTIVE())
    return;
  EG e;
  Thread &t = T();
  if (is_acq(mo))
    t.vc.join(t.facq);
  if (is_rel(mo)) {
    t.frel = t.vc;
    t.vc.c[G->cur]++;
  }
  bump_hash(0xFE + mo);
  event(E_FENCE, 0, 0, PC(), mo);
}
void __tsan_atomic_signal_fence(int) {}
}

// ================================================================ pthreads
namespace {
template <typename F> F real(const char *name) {
  if (G)
    G->in_engine++;
  F f = (F)dlsym(RTLD_NEXT, name);
  if (G)
    G->in_engine--;
  return f;
}
#define REAL(fn) (real<decltype(&fn)>(#fn))

void mx_lock(u64 m, u32 pc, bool recursive) {
  SyncObj &o = sync_at(m);
  access(m, 8, A_AREAD, pc);
  Thread &t = T();
  if (o.owner == G->cur && recursive) {
    o.depth++;
    return;
  }
  if (o.owner == G->cur)
    violation("deadlock", "T%d at pc 0x%x locks a mutex it already holds", G->cur, pc);
  if (o.shared) {
    // lock is enabled only when the mutex is free
    if (o.owner >= 0) {
      t.st = B_MUTEX;
      t.mutex = m;
      schedule();
      t.st = RUN;
    } else
      sched_point(o);
  }
  while (o.owner >= 0) {
    t.st = B_MUTEX;
    t.mutex = m;
    schedule();
    t.st = RUN;
  }
  access(m, 8, A_AREAD, pc);
  o.owner = G->cur;
  o.depth = 1;
  t.nlocks++;
  t.vc.join(o.rel);
  hist_write(o, 0xB1);
  G->transitions++;
  event(E_LOCK, m, 0, pc);
}

void mx_unlock(u64 m, u32 pc) {
  SyncObj &o = sync_at(m);
  access(m, 8, A_AREAD, pc);
  if (o.owner != G->cur)
    violation("bad-unlock", "T%d at pc 0x%x unlocks a mutex it does not hold", G->cur, pc);
  if (--o.depth > 0)
    return;
  o.owner = -1;
  T().nlocks--;
  release_to(o);
  hist_write(o, 0xB2);
  G->transitions++;
  event(E_UNLOCK, m, 0, pc);
}

int rw_lock(u64 m, bool rd, bool attempt, u32 pc) {
  EG e;
  SyncObj &o = sync_at(m);
  access(m, 8, A_AREAD, pc);
  Thread &t = T();
  const auto busy = [&] { return o.owner >= 0 || (!rd && o.readers); };
  if (!attempt && (o.owner == G->cur || (o.readers & 1u << G->cur)))
    violation("deadlock", "T%d at pc 0x%x locks a read-write lock it already holds", G->cur, pc);
  if (attempt || !busy())
    sched_point(o);
  if (attempt && busy()) {
    hist_read(o, 0xB9);
    if (o.shared)
      note_ro();
    G->transitions++;
    event(E_TRY, m, 0, pc);
    return EBUSY;
  }
  while (busy()) {
    t.st = B_MUTEX;
    t.mutex = m;
    t.shared_mode = rd;
    schedule();
    t.st = RUN;
    t.shared_mode = false;
  }
  access(m, 8, A_AREAD, pc);
  if (rd)
    o.readers |= 1u << G->cur;
  else {
    o.owner = G->cur;
    o.depth = 1;
    t.vc.join(o.rdrel);
  }
  t.nlocks++;
  t.vc.join(o.rel);
  hist_write(o, rd ? 0xB4 : 0xB1);
  G->transitions++;
  event(attempt ? E_TRY : E_LOCK, m, 1, pc);
  return 0;
}
// a timed attempt on a lock that is taken may time out
int rw_timed(u64 m, bool rd, u32 pc) {
  {
    EG e;
    SyncObj &o = sync_at(m);
    sched_point(o);
    if ((o.owner >= 0 || (!rd && o.readers)) && env_choice(2))
      return ETIMEDOUT;
  }
  return rw_lock(m, rd, false, pc);
}

bool is_recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }

int cv_wait(u64 cv, pthread_mutex_t *pm, long long deadline, u32 pc) {
  u64 m = (u64)pm;
  SyncObj &c = sync_at(cv);
  access(cv, 8, A_AREAD, pc);
  sched_point(c);
  access(cv, 8, A_AREAD, pc);
  SyncObj &mo = sync_at(m);
  if (mo.owner != G->cur)
    violation("bad-unlock", "T%d at pc 0x%x waits on a condition variable without holding the mutex", G->cur, pc);
  Thread &t = T();
  int arm = 0;
  // a spurious wake-up or a time-out may strike at any later moment
  if (c.shared || true) {
    int k = env_choice(deadline >= 0 ? 3 : 2);
    arm = k == 0 ? 0 : k == 1 ? 2 : 3;
  }
  c.waiters[c.nw++] = G->cur;
  hist_write(c, 0xB3);
  if (t.cv_ghost) {
    SyncObj &g = sync_at((u64)t.cv_ghost);
    ++*t.cv_ghost;
    hist_write(g, 0x64);
  }
  int depth = mo.depth;
  mo.depth = 1;
  mx_unlock(m, pc);
  event(E_CWAIT, cv, (u64)arm, pc);
  t.st = B_COND;
  t.cond = cv;
  t.mutex = m;
  t.deadline = deadline;
  t.armed = arm;
  t.wake = 0;
  schedule();
  // either signalled (state was changed to B_MUTEX) or armed
  if (t.wake == 0) {
    t.wake = t.armed;
    SyncObj &c2 = c;
    for (int i = 0; i < c2.nw; i++)
      if (c2.waiters[i] == G->cur) {
        memmove(&c2.waiters[i], &c2.waiters[i + 1], (c2.nw - i - 1) * sizeof(int));
        c2.nw--;
        break;
      }
    hist_write(c2, 0xB4 + t.wake);
    if (t.wake == 3 && t.deadline > G->now) {
      G->now = t.deadline;
      G->clock_h = mix(G->clock_h, (u64)G->now);
    }
  }
  int wake = t.wake;
  bump_hash(0xC300 + wake);
  t.armed = 0;
  t.deadline = -1;
  t.st = RUN;
  event(E_CWAKE, cv, (u64)wake, pc);
  // reacquire
  SyncObj &m2 = mo;
  access(m, 8, A_AREAD, pc);
  if (wake != 1 && m2.owner < 0)
    sched_point(m2);
  while (m2.owner >= 0) {
    t.st = B_MUTEX;
    t.mutex = m;
    schedule();
    t.st = RUN;
  }
  m2.owner = G->cur;
  m2.depth = depth;
  t.nlocks++;
  t.vc.join(m2.rel);
  hist_write(m2, 0xB1);
  G->transitions++;
  event(E_LOCK, m, 0, pc);
  return wake == 3 ? ETIMEDOUT : 0;
}

void cv_signal(u64 cv, bool all, u32 pc) {
  SyncObj &c = sync_at(cv);
  access(cv, 8, A_AREAD, pc);
  sched_point(c);
  access(cv, 8, A_AREAD, pc);
  int n = c.nw;
  if (n) {
    int pick = 0;
    if (!all && n > 1) {
      pick = take_choice(K_SIG, n);
      bump_hash(0x5160 + pick);
    }
    for (int i = 0; i < n; i++) {
      if (!all && i != pick)
        continue;
      Thread &t = G->th[c.waiters[i]];
      t.wake = 1;
      t.st = B_MUTEX;
      t.armed = 0;
      t.deadline = -1;
    }
    if (all)
      c.nw = 0;
    else {
      memmove(&c.waiters[pick], &c.waiters[pick + 1], (n - pick - 1) * sizeof(int));
      c.nw--;
    }
  }
  hist_write(c, all ? 0xB7 : 0xB6);
  G->transitions++;
  event(all ? E_BCAST : E_SIG, cv, (u64)n, pc);
}

constexpr long long RT_OFFSET = 1700000000000000000ll;

long long to_ns(const timespec *ts, clockid_t clk) {
  // saturate: far-away deadlines are legal
  if (ts->tv_sec > 4000000000ll)
    return 4000000000000000000ll;
  long long v = ts->tv_sec * 1000000000ll + ts->tv_nsec;
  if (clk == CLOCK_REALTIME)
    v -= RT_OFFSET;
  return v < 0 ? 0 : v;
}

void do_sleep(long long until, u32 pc) {
  Thread &t = T();
  if (until <= G->now)
    return;
  int k = env_choice(2);
  t.st = B_SLEEP;
  t.deadline = until;
  t.armed = k ? 3 : 0;
  event(E_SLEEP, 0, (u64)until, pc);
  schedule();
  t.st = RUN;
  t.armed = 0;
  t.deadline = -1;
  if (until > G->now) {
    G->now = until;
    G->clock_h = mix(G->clock_h, (u64)G->now);
  }
  bump_hash(0x51EE);
  progress_write();
}
} // namespace

extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) __THROWNL {
  if (!ACTIVE())
    return 0;
  EG e;
  mx_lock((u64)m, PC(), is_recursive(m));
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) __THROWNL {
  if (!ACTIVE())
    return 0;
  EG e;
  SyncObj &o = sync_at((u64)m);
  sched_point(o);
  access((u64)m, 8, A_AREAD, PC());
  G->transitions++;
  if (o.owner == G->cur && is_recursive(m)) {
    o.depth++;
    return 0;
  }
  if (o.owner >= 0) {
    hist_read(o, 0xB9);
    if (o.shared)
      note_ro();
    event(E_TRY, (u64)m, 0, PC());
    return EBUSY;
  }
  o.owner = G->cur;
  o.depth = 1;
  T().nlocks++;
  T().vc.join(o.rel);
  hist_write(o, 0xB1);
  event(E_TRY, (u64)m, 1, PC());
  return 0;
}
static int timed_lock(pthread_mutex_t *m, u32 pc) {
  if (!ACTIVE())
    return 0;
  EG e;
  SyncObj &o = sync_at((u64)m);
  sched_point(o);
  if (o.owner >= 0 && !(o.owner == G->cur && is_recursive(m)) && env_choice(2))
    return ETIMEDOUT;
  mx_lock((u64)m, pc, is_recursive(m));
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const timespec *) __THROWNL { return timed_lock(m, PC()); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const timespec *) __THROWNL { return timed_lock(m, PC()); }
int pthread_mutex_unlock(pthread_mutex_t *m) __THROWNL {
  if (!ACTIVE())
    return 0;
  EG e;
  mx_unlock((u64)m, PC());
  return 0;
}
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) __THROW {
  static auto r = REAL(pthread_mutex_init);
  return r(m, a);
}
int pthread_mutex_destroy(pthread_mutex_t *m) __THROW {
  if (!ACTIVE())
    return 0;
  EG e;
  SyncObj &o = sync_at((u64)m);
  if (o.owner >= 0)
    violation("locked-mutex-destroyed", "T%d destroys a mutex held by T%d", G->cur, o.owner);
  return 0;
}
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) __THROW {
  memset(c, 0, sizeof *c);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t *c) __THROW {
  if (!ACTIVE())
    return 0;
  EG e;
  SyncObj &o = sync_at((u64)c);
  if (o.nw)
    violation("condvar-destroyed", "T%d at pc 0x%x destroys a condition variable with blocked waiters", G->cur, PC());
  access((u64)c, 8, A_WRITE, PC());
  return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!ACTIVE())
    return 0;
  EG e;
  return cv_wait((u64)c, m, -1, PC());
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *ts) {
  if (!ACTIVE())
    return 0;
  EG e;
  return cv_wait((u64)c, m, to_ns(ts, CLOCK_REALTIME), PC());
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t clk, const timespec *ts) {
  if (!ACTIVE())
    return 0;
  EG e;
  return cv_wait((u64)c, m, to_ns(ts, clk), PC());
}
int pthread_cond_signal(pthread_cond_t *c) __THROWNL {
  if (!ACTIVE())
    return 0;
  EG e;
  cv_signal((u64)c, false, PC());
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) __THROWNL {
  if (!ACTIVE())
    return 0;
  EG e;
  cv_signal((u64)c, true, PC());
  return 0;
}

int pthread_create(pthread_t *th, const pthread_attr_t *, void *(*fn)(void *), void *arg) __THROWNL {
  if (!ACTIVE())
    engine_error("pthread_create outside of an execution");
  EG e;
  G->thread_count++;
  if (G->thread_fail_at && G->thread_count == G->thread_fail_at) {
    event(E_FAULT, 0, 1, PC());
    return EAGAIN;
  }
  int i = new_thread(fn, arg);
  T().fresh = false; // from now on somebody else could run
  bump_hash(0xC1 + i);
  progress_write();
  *th = (pthread_t)(i + 1);
  event(E_CREATE, 0, (u64)i, PC());
  G->transitions++;
  return 0;
}
int pthread_join(pthread_t th, void **ret) {
  if (!ACTIVE())
    engine_error("pthread_join outside of an execution");
  EG e;
  int i = (int)th - 1;
  if (i < 0 || i >= G->nth || G->th[i].joined || G->th[i].detached)
    return EINVAL;
  if (i == G->cur)
    return EDEADLK;
  Thread &t = T();
  if (G->th[i].st != FIN) {
    t.st = B_JOIN;
    t.target = i;
    schedule();
    t.st = RUN;
  }
  G->th[i].joined = true;
  t.vc.join(G->th[i].vc);
  t.h = mix(mix(t.h, 0xC2 + i), G->th[i].h);
  if (ret)
    *ret = G->th[i].ret;
  event(E_JOIN, 0, (u64)i, PC());
  G->transitions++;
  return 0;
}
int pthread_detach(pthread_t th) __THROW {
  if (ACTIVE())
    G->th[(int)th - 1].detached = true;
  return 0;
}
pthread_t pthread_self() __THROW {
  if (ACTIVE())
    return (pthread_t)(G->cur + 1);
  static auto r = REAL(pthread_self);
  return r();
}
int sched_yield() __THROW {
  if (!ACTIVE())
    return 0;
  EG e;
  T().yielded = true;
  T().fresh = false;
  bump_hash(0x1E1C);
  note_ro();
  event(E_YIELD, 0, 0, PC());
  schedule();
  bump_hash(0x1E1D);
  return 0;
}
int nanosleep(const timespec *ts, timespec *) {
  if (!ACTIVE())
    return 0;
  EG e;
  do_sleep(G->now + ts->tv_sec * 1000000000ll + ts->tv_nsec, PC());
  return 0;
}
int clock_nanosleep(clockid_t clk, int flags, const timespec *ts, timespec *) {
  if (!ACTIVE())
    return 0;
  EG e;
  do_sleep(flags & TIMER_ABSTIME ? to_ns(ts, clk) : G->now + ts->tv_sec * 1000000000ll + ts->tv_nsec, PC());
  return 0;
}
int usleep(useconds_t us) {
  if (!ACTIVE())
    return 0;
  EG e;
  do_sleep(G->now + us * 1000ll, PC());
  return 0;
}
int clock_gettime(clockid_t clk, timespec *ts) __THROW {
  if (!ACTIVE()) {
    static auto r = REAL(clock_gettime);
    return r(clk, ts);
  }
  long long v = G->now + (clk == CLOCK_REALTIME ? RT_OFFSET : 0);
  ts->tv_sec = v / 1000000000ll;
  ts->tv_nsec = v % 1000000000ll;
  T().h = mix(T().h, G->clock_h);
  return 0;
}
int pthread_once(pthread_once_t *o, void (*f)()) {
  if (!ACTIVE()) {
    if (!*o) {
      *o = 2;
      f();
    }
    return 0;
  }
  bool run = false;
  {
    EG e;
    mx_lock((u64)o, PC(), true);
    run = *o == 0;
    if (run)
      *o = 2;
  }
  if (run) {
    try {
      f();
    } catch (...) {
      EG e;
      *o = 0;
      mx_unlock((u64)o, PC());
      throw;
    }
  }
  EG e;
  mx_unlock((u64)o, PC());
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) __THROWNL { return ACTIVE() ? rw_lock((u64)l, true, false, PC()) : 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) __THROWNL { return ACTIVE() ? rw_lock((u64)l, false, false, PC()) : 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) __THROWNL { return ACTIVE() ? rw_lock((u64)l, true, true, PC()) : 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) __THROWNL { return ACTIVE() ? rw_lock((u64)l, false, true, PC()) : 0; }
int pthread_rwlock_timedrdlock(pthread_rwlock_t *l, const timespec *) __THROWNL { return ACTIVE() ? rw_timed((u64)l, true, PC()) : 0; }
int pthread_rwlock_timedwrlock(pthread_rwlock_t *l, const timespec *) __THROWNL { return ACTIVE() ? rw_timed((u64)l, false, PC()) : 0; }
int pthread_rwlock_clockrdlock(pthread_rwlock_t *l, clockid_t, const timespec *) __THROWNL { return ACTIVE() ? rw_timed((u64)l, true, PC()) : 0; }
int pthread_rwlock_clockwrlock(pthread_rwlock_t *l, clockid_t, const timespec *) __THROWNL { return ACTIVE() ? rw_timed((u64)l, false, PC()) : 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *l) __THROWNL {
  if (!ACTIVE())
    return 0;
  EG e;
  SyncObj &o = sync_at((u64)l);
  if (o.owner == G->cur) {
    mx_unlock((u64)l, PC());
    return 0;
  }
  access((u64)l, 8, A_AREAD, PC());
  if (!(o.readers & 1u << G->cur))
    violation("bad-unlock", "T%d at pc 0x%x unlocks a lock it does not hold", G->cur, PC());
  o.readers &= ~(1u << G->cur);
  T().nlocks--;
  o.rdrel.join(T().vc);
  T().vc.c[G->cur]++;
  hist_write(o, 0xB5);
  G->transitions++;
  event(E_UNLOCK, (u64)l, 0, PC());
  return 0;
}

// function-local statics
int __cxa_guard_acquire(long long *g) {
  if (*(volatile char *)g) {
    if (ACTIVE()) {
      EG e;
      SyncObj &o = sync_at((u64)g);
      T().vc.join(o.rel);
    }
    return 0;
  }
  if (!ACTIVE())
    return 1;
  EG e;
  mx_lock((u64)g, PC(), false);
  if (*(volatile char *)g) {
    mx_unlock((u64)g, PC());
    return 0;
  }
  return 1;
}
void __cxa_guard_release(long long *g) {
  *(volatile char *)g = 1;
  if (ACTIVE()) {
    EG e;
    mx_unlock((u64)g, PC());
  }
}
void __cxa_guard_abort(long long *g) {
  if (ACTIVE()) {
    EG e;
    mx_unlock((u64)g, PC());
  }
}
int __cxa_atexit(void (*f)(void *), void *o, void *dso) {
  if (ACTIVE() && dso == &__dso_handle) { // the object itself is restored before every execution
    EG e;
    if (G->nexit < MAXEXIT) {
      G->exits[G->nexit].f = f;
      G->exits[G->nexit++].o = o;
    }
    return 0;
  }
  static auto r = REAL(__cxa_atexit);
  if (!ACTIVE())
    return r(f, o, dso);
  EG e;
  return r(f, o, dso);
}
int __cxa_thread_atexit(void (*f)(void *), void *o, void *) {
  if (ACTIVE()) {
    Thread &t = T();
    if (t.ndtors < 16) {
      t.dtors[t.ndtors].f = f;
      t.dtors[t.ndtors++].o = o;
    }
  }
  return 0;
}

void __assert_fail(const char *x, const char *file, unsigned line, const char *) __THROW {
  if (G && G->active)
    violation("assertion", "assertion failed at %s:%u: %s", file, line, x);
  fprintf(stderr, "assertion failed: %s:%u: %s\n", file, line, x);
  _exit(3);
}
void abort() __THROW {
  if (G && G->active)
    violation("abort", "abort() called by T%d", G->cur);
  fprintf(stderr, "abort in engine\n");
  _exit(3);
}
[[noreturn]] void __stack_chk_fail() {
  if (G && G->active)
    violation("crash", "stack smashing detected in T%d", G->cur);
  _exit(3);
}
}

// ================================================================ scenario API
namespace mc {
void reg(const char *prop, const char *name, Fn fn, Opts o) {
  if (!scens)
    scens = new std::vector<Scen>;
  scens->push_back(Scen{prop, name, fn, o});
}
int choose(int n) {
  EG e;
  int v = n > 1 ? take_choice(K_DATA, n) : 0;
  bump_hash(0xDA7A0000ull + v);
  event(E_CHOICE, 0, (u64)v, PC(), n);
  return v;
}
int deviate(int n) {
  EG e;
  return env_choice(n);
}
void fail(const char *fmt, ...) {
  G->in_engine = 1;
  va_list ap;
  va_start(ap, fmt);
  snprintf(G->vkind, sizeof G->vkind, "oracle");
  vsnprintf(G->vmsg, sizeof G->vmsg, fmt, ap);
  va_end(ap);
  finish_exec(E_VIOL);
}
void fail_at(const char *file, int line, const char *cond, const char *fmt, ...) {
  G->in_engine = 1;
  if (const char *b = strrchr(file, '/'))
    file = b + 1;
  snprintf(G->vkind, sizeof G->vkind, "oracle");
  int n = snprintf(G->vmsg, sizeof G->vmsg, "%s:%d: %s ", file, line, cond);
  if (n > 0 && n < (int)sizeof G->vmsg) {
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(G->vmsg + n, sizeof G->vmsg - n, fmt, ap);
    va_end(ap);
  }
  finish_exec(E_VIOL);
}
void outcome(const char *fmt, ...) {
  EG e;
  char b[256];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (G->outcomes->size() < 400 || G->outcomes->count(b))
    (*G->outcomes)[b]++;
  if (G->tracing)
    printf("  T%d outcome: %s\n", G->cur, b);
}
int tid() { return G->cur; }
bool thorough() { return G->thorough; }
void yield_point() {
  EG e;
  event(E_YIELD, 0, 0, PC());
  if (T().fresh)
    T().fresh = false;
  else
    schedule();
  bump_hash(0x1E1B);
}
size_t live_blocks() { return G->live_blocks; }
void fail_alloc_at(long k) {
  G->alloc_fail_at = k;
  G->alloc_count = 0;
  G->alloc_armed = true;
  G->alloc_tid = G->cur;
}
long allocs_since_arm() { return G->alloc_count; }
void fail_thread_at(int k) {
  G->thread_fail_at = k;
  G->thread_count = 0;
}
long long now_ns() {
  T().h = mix(T().h, G->clock_h);
  return G->now;
}
void discard() {
  G->in_engine = 1;
  finish_exec(E_DISCARD);
}
void *ghost_alloc(size_t n) {
  EG e;
  Thread &t = T();
  void *p = t.ghost;
  t.ghost += (n + 7) & ~7ull;
  if ((u64)t.ghost > GB + (G->cur + 1) * GHOSTSZ)
    engine_error("ghost memory exhausted");
  memset(p, 0, n);
  return p;
}
void ghost_cond(long *p) { T().cv_ghost = p; }
long ghost_load(const long *p) {
  if (!ACTIVE())
    return *p;
  EG e;
  SyncObj &o = sync_at((u64)p);
  sched_point(o);
  hist_read(o, 0x61 ^ (u64)p);
  if (o.shared)
    note_ro();
  G->transitions++;
  event(E_GLOAD, (u64)p, (u64)*p, PC());
  return *p;
}
void ghost_store(long *p, long v) {
  EG e;
  SyncObj &o = sync_at((u64)p);
  sched_point(o);
  *p = v;
  hist_write(o, 0x62);
  G->transitions++;
  event(E_GSTORE, (u64)p, (u64)v, PC());
}
long ghost_add(long *p, long v) {
  EG e;
  SyncObj &o = sync_at((u64)p);
  sched_point(o);
  long r = *p;
  *p = r + v;
  hist_write(o, 0x63);
  G->transitions++;
  event(E_GADD, (u64)p, (u64)*p, PC());
  return r;
}
} // namespace mc

// ================================================================ explorer
namespace {

void on_signal(int sig) {
  if (sig == SIGVTALRM) {
    if (!G->active)
      return;
    if (G->tick_exec != G->execs) {
      G->tick_exec = G->execs;
      G->tick_n = 0;
      return;
    }
    if (++G->tick_n < 10)
      return;
  }
  if (!G->active) {
    const char m[] = "ENGINE-ERROR signal outside of an execution\n";
    (void)!write(2, m, sizeof m - 1);
    _exit(3);
  }
  sigset_t s;
  sigemptyset(&s);
  sigaddset(&s, sig);
  sigprocmask(SIG_UNBLOCK, &s, nullptr);
  if (sig == SIGVTALRM)
    violation("no-progress", "T%d runs forever", G->cur);
  violation("crash", "signal %d (%s) in T%d", sig, strsignal(sig), G->cur);
}

void on_terminate() {
  if (G && G->active) {
    const char *w = "";
    G->in_engine = 1;
    if (auto p = std::current_exception()) {
      try {
        std::rethrow_exception(p);
      } catch (std::exception &e) {
        w = e.what();
      } catch (...) {
        w = "unknown exception";
      }
    }
    violation("terminate", "std::terminate called by T%d: %s", G->cur, w);
  }
  fprintf(stderr, "terminate in engine\n");
  _exit(3);
}

void *map_fixed(u64 a, size_t n) {
  void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)a)
    engine_error("cannot map engine memory");
  return p;
}

const Scen *cur_scen;
void *root_fn(void *) {
  cur_scen->fn();
  return nullptr;
}

int tls_cb(dl_phdr_info *i, size_t, void *) {
  for (int k = 0; k < i->dlpi_phnum; k++)
    if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) {
      G->tlsaddr = (char *)i->dlpi_tls_data;
      G->tlsn = i->dlpi_phdr[k].p_memsz;
    }
  return 1; // only the executable
}

void init_engine() {
  G = (Engine *)mmap(nullptr, sizeof(Engine), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  G->in_engine = 1;
  g_data_lo = (u64)&__data_start & ~7ull;
  g_data_hi = ((u64)&_end + 7) & ~7ull;
  map_fixed(SB, MAXT * STACK);
  // guard pages
  for (int i = 0; i < MAXT; i++)
    mprotect((void *)(SB + i * STACK), 4096, PROT_NONE);
  map_fixed(HBASE, MAXT * HEAPSZ);
  map_fixed(GB, MAXT * GHOSTSZ);
  map_fixed(SHB, ((MAXT * (STACK + HEAPSZ + GHOSTSZ) + (g_data_hi - g_data_lo)) / 8 + 16) * sizeof(Cell));
  G->sync = (SyncObj *)mmap(nullptr, 4096 * sizeof(SyncObj), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  G->blocks = (Block *)mmap(nullptr, MAX_BLOCKS * sizeof(Block), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  G->ev = (Ev *)mmap(nullptr, 20000 * sizeof(Ev), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  G->path = new std::vector<Node>;
  G->shared = new std::set<u64>;
  G->pending = new std::set<u64>;
  G->outcomes = new std::map<std::string, long>;
  G->osync = new std::map<u64, int>;
  dl_iterate_phdr(tls_cb, nullptr);
  if (G->tlsn) {
    G->tlsimg = (char *)__libc_malloc(G->tlsn);
    memcpy(G->tlsimg, G->tlsaddr, G->tlsn);
    for (int i = 0; i < MAXT; i++)
      G->th[i].tls = (char *)__libc_malloc(G->tlsn);
  }
  __libc_single_threaded = 0;
  // warm up lazily initialised library state
  try {
    throw std::runtime_error("warm up");
  } catch (std::exception &e) {
    std::exception_ptr p = std::current_exception();
    try {
      std::rethrow_exception(p);
    } catch (...) {
    }
  }
  (void)REAL(pthread_self);
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  {
    static pthread_mutex_t m;
    pthread_mutex_init(&m, nullptr);
    pthread_self();
    void *p = __cxa_allocate_exception(8);
    __cxxabiv1::__cxa_free_exception(p);
  }
  std::set_terminate(on_terminate);
  stack_t ss{};
  ss.ss_sp = __libc_malloc(65536);
  ss.ss_size = 65536;
  sigaltstack(&ss, nullptr);
  struct sigaction sa {};
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP})
    sigaction(s, &sa, nullptr);
  sa.sa_flags = SA_ONSTACK | SA_NODEFER | SA_RESTART;
  sigaction(SIGVTALRM, &sa, nullptr);
  itimerval it{};
  it.it_interval.tv_sec = 1;
  it.it_value.tv_sec = 1;
  setitimer(ITIMER_VIRTUAL, &it, nullptr);
  cur_scen = nullptr;
}

void take_snapshot() {
  G->snapn = g_data_hi - g_data_lo;
  if (!G->snap)
    G->snap = (char *)__libc_malloc(G->snapn);
  memcpy(G->snap, (void *)g_data_lo, G->snapn);
}

void run_once() {
  memcpy((void *)g_data_lo, G->snap, G->snapn);
  G->gen++;
  G->nth = 0;
  G->nexit = 0;
  G->cur = 0;
  G->steps = G->accesses = G->write_epoch = 0;
  G->spin_epoch = -1;
  G->spin_rounds = 0;
  G->now = 1000000000000ll;
  G->clock_h = 1;
  G->pre_used = G->env_used = 0;
  G->live_blocks = 0;
  G->alloc_fail_at = G->alloc_count = 0;
  G->alloc_armed = false;
  G->thread_fail_at = G->thread_count = 0;
  G->nsync = G->nblocks = G->nev = 0;
  G->osync->clear();
  G->depth = 0;
  for (int i = 0; i < MAXT; i++)
    G->th[i].st = FREE;
  void *eh = __cxxabiv1::__cxa_get_globals();
  memcpy(G->xeh, eh, 16);
  new_thread(root_fn, nullptr);
  memset(eh, 0, 16);
  G->active = true;
  G->in_engine = 1;
  mc_switch(&G->xsp, G->th[0].sp);
  G->active = false;
  G->in_engine = 1;
  if (G->tlsn)
    memcpy(G->tlsaddr, G->tlsimg, G->tlsn);
  G->execs++;
  if (G->depth > G->maxdepth)
    G->maxdepth = G->depth;
}

// moves to the next unexplored branch; false if there is none
bool backtrack() {
  auto &p = *G->path;
  if (p.size() > G->depth)
    p.resize(G->depth);
  while (!p.empty()) {
    Node &n = p.back();
    if (n.chosen + 1 < n.n) {
      n.chosen++;
      G->prefix = p.size();
      return true;
    }
    p.pop_back();
  }
  return false;
}

double now_s() {
  static auto r = REAL(clock_gettime);
  timespec ts;
  r(CLOCK_MONOTONIC, &ts);
  return (double)ts.tv_sec + (double)ts.tv_nsec * 1e-9;
}
double cpu_s() {
  static auto r = REAL(clock_gettime);
  timespec ts;
  r(CLOCK_PROCESS_CPUTIME_ID, &ts);
  return (double)ts.tv_sec + (double)ts.tv_nsec * 1e-9;
}

void clear_table() {
  if (G->tab)
    munmap(G->tab, G->tabcap * sizeof(Key));
  G->tabcap = 1 << 16;
  G->tabn = 0;
  G->tab = (Key *)mmap(nullptr, G->tabcap * sizeof(Key), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
}

enum Res { R_CLOSED, R_TIME, R_VIOL };

Res explore(int bound, double deadline, double cpu_deadline) {
  for (;;) {
    G->path->clear();
    G->prefix = 0;
    G->shared->insert(G->pending->begin(), G->pending->end());
    G->pending->clear();
    G->suppressed = false;
    G->newshared = false;
    G->pre_bound = bound;
    G->outcomes->clear();
    clear_table();
    long start = G->execs, next = 64;
    G->nodes = 0;
    bool restart = false;
    for (;;) {
      run_once();
      if (G->end == E_VIOL)
        return R_VIOL;
      if (G->end == E_PRUNED)
        G->pruned++;
      else if (G->end == E_DISCARD)
        G->discarded++;
      else
        G->done++;
      if (G->newshared && G->execs - start >= next) {
        next *= 4;
        restart = true;
        break;
      }
      if ((G->execs & 15) == 0 && (now_s() > deadline || cpu_s() > cpu_deadline || G->tabn > 40000000))
        return R_TIME;
      if (!backtrack()) {
        restart = G->newshared;
        break;
      }
    }
    if (!restart)
      return R_CLOSED;
  }
}

std::string jesc(const char *s) {
  std::string r;
  for (; *s; s++) {
    unsigned char c = (unsigned char)*s;
    if (c == '"' || c == '\\') {
      r += '\\';
      r += (char)c;
    } else if (c < 32) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else
      r += (char)c;
  }
  return r;
}

void dump_trace() {
  for (int i = 0; i < G->nev; i++) {
    Ev &e = G->ev[i];
    printf("  %4d T%d %-11s obj 0x%lx val 0x%lx pc 0x%x\n", i, e.tid, evname[e.kind], (unsigned long)e.addr, (unsigned long)e.val, e.pc);
  }
}

} // namespace

int main(int argc, char **argv) {
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
    if (personality(ADDR_NO_RANDOMIZE) != -1 && !getenv("MC_REEXEC")) {
      setenv("MC_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  const char *name = nullptr, *out = nullptr, *replay = nullptr;
  int bound = -2, env = -2;
  double tlimit = 1e9;
  bool list = false, thorough = false, trace = false, stale = false;
  int nocache = 0;
  std::vector<int> choices;
  std::vector<u64> sharedv;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--list")
      list = true;
    else if (a == "--stale")
      stale = true;
    else if (a == "--run")
      name = argv[++i];
    else if (a == "--bound")
      bound = atoi(argv[++i]);
    else if (a == "--env")
      env = atoi(argv[++i]);
    else if (a == "--time")
      tlimit = atof(argv[++i]);
    else if (a == "--out")
      out = argv[++i];
    else if (a == "--thorough")
      thorough = true;
    else if (a == "--trace")
      trace = true;
    else if (a == "--nocache")
      nocache = 1;
    else if (a == "--shared") {
      const char *s = argv[++i];
      while (*s) {
        char *e;
        u64 v = strtoull(s, &e, 16);
        if (e == s)
          break;
        sharedv.push_back(v);
        s = *e == ',' ? e + 1 : e;
      }
    } else if (a == "--replay") {
      replay = argv[++i];
      for (const char *s = replay; *s;) {
        char *e;
        long v = strtol(s, &e, 10);
        if (e == s)
          break;
        choices.push_back((int)v);
        s = *e == ',' ? e + 1 : e;
      }
    }
  }
  if (list) {
    if (scens)
      for (auto &s : *scens)
        printf("%s %s %d %d %d %d\n", s.prop, s.name, s.o.preempt, s.o.preempt_max, s.o.env, s.o.env_max);
    return 0;
  }
  Scen *scen = nullptr;
  if (scens)
    for (auto &s : *scens)
      if (name && !strcmp(s.name, name))
        scen = &s;
  if (scen && scen->o.big) {
    HEAPSZ = 64 * 1024 * 1024;
    MAX_BLOCKS = 1000000;
    cur_scen_big = true;
    MAX_STEPS = 10000000;
    MAX_ACCESSES = 400000000;
  }
  init_engine();
  cur_scen = scen;
  if (!cur_scen) {
    fprintf(stderr, "no such scenario\n");
    return 2;
  }
  const mc::Opts o = cur_scen->o;
  G->cur_name = cur_scen->name;
  G->thorough = thorough;
  G->leaks = o.leaks;
  G->stale = o.stale || stale;
  G->cache = !nocache;
  int envb = thorough && o.env_max >= 0 ? o.env_max : o.env;
  if (G->stale && envb < 1)
    envb = 1;
  G->env_bound = env >= 0 ? env : envb;
  int target = thorough ? o.preempt_max : o.preempt;
  if (bound != -2)
    target = bound;
  for (u64 v : sharedv)
    G->shared->insert(v);
  take_snapshot();
  double t0 = now_s();
  if (replay) {
    G->tracing = true;
    G->replay = &choices;
    G->pre_bound = bound == -2 ? -1 : bound;
    run_once();
    if (trace)
      dump_trace();
    if (G->end == E_VIOL) {
      printf("REPLAY-VIOLATION %s: %s\n", G->vkind, G->vmsg);
      return 1;
    }
    printf("REPLAY-OK end=%d\n", (int)G->end);
    return 0;
  }
  Res r = R_CLOSED;
  int done_bound = -2; // -2 none, -1 unbounded
  bool closed = false;
  double dl = t0 + tlimit, cdl = cpu_s() + tlimit;
  std::string log;
  int b = 0;
  long st = 0;
  std::map<std::string, long> outc;
  for (;;) {
    r = explore(b, dl, cdl);
    for (auto &k : *G->outcomes)
      if (outc[k.first] < k.second)
        outc[k.first] = k.second;
    st = (long)G->tabn > st ? (long)G->tabn : st;
    char buf[160];
    snprintf(buf, sizeof buf, "%s{\"bound\":%d,\"result\":\"%s\",\"states\":%zu,\"execs\":%ld,\"t\":%.2f}", log.empty() ? "" : ",", b, r == R_CLOSED ? "complete" : r == R_TIME ? "time" : "violation", G->tabn, G->execs, now_s() - t0);
    log += buf;
    if (r != R_CLOSED)
      break;
    done_bound = b;
    if (!G->suppressed || b < 0) {
      closed = true;
      break;
    }
    if (target >= 0 && b >= target)
      break;
    if (b < 0)
      break;
    // iterate 0,1,2,3 then unbounded when asked for
    if (target < 0 && b >= 2)
      b = -1;
    else
      b++;
  }
  std::string js = "{\"scenario\":\"" + std::string(cur_scen->name) + "\"";
  char buf[4096];
  snprintf(buf, sizeof buf, ",\"property\":\"%s\",\"bound_target\":%d,\"bound_done\":%d,\"closed\":%s,\"env_bound\":%d,\"executions\":%ld,\"complete_executions\":%ld,\"pruned\":%ld,\"discarded\":%ld,\"transitions\":%ld,\"states\":%ld,\"max_choices\":%zu,\"threads\":%d,\"shared_objects\":%zu,\"stale\":%d,\"data_choice_nodes\":%ld,\"wall\":%.3f,\"log\":[", cur_scen->prop, target, done_bound, closed ? "true" : "false", G->env_bound, G->execs, G->done, G->pruned, G->discarded, G->transitions, st, G->maxdepth, G->maxthreads, G->shared->size(), (int)G->stale, G->nodes, now_s() - t0);
  js += buf;
  js += log + "],\"outcomes\":{";
  bool first = true;
  for (auto &k : outc) {
    snprintf(buf, sizeof buf, "%s\"%s\":%ld", first ? "" : ",", jesc(k.first.c_str()).c_str(), k.second);
    js += buf;
    first = false;
  }
  js += "}";
  // last schedule as a sample
  js += ",\"choices\":\"";
  size_t cn = r == R_VIOL ? G->depth : (G->path->size() < G->depth ? G->path->size() : G->depth);
  if (cn > G->path->size())
    cn = G->path->size();
  for (size_t i = 0; i < cn; i++) {
    snprintf(buf, sizeof buf, "%s%d", i ? "," : "", (*G->path)[i].chosen);
    js += buf;
  }
  js += "\"";
  snprintf(buf, sizeof buf, ",\"replay_bound\":%d,\"shared\":\"", G->pre_bound);
  js += buf;
  first = true;
  for (u64 v : *G->shared) {
    snprintf(buf, sizeof buf, "%s%lx", first ? "" : ",", (unsigned long)v);
    js += buf;
    first = false;
  }
  js += "\"";
  if (r == R_VIOL)
    js += ",\"violation\":{\"kind\":\"" + jesc(G->vkind) + "\",\"message\":\"" + jesc(G->vmsg) + "\"}";
  js += "}\n";
  if (out) {
    FILE *f = fopen(out, "w");
    fputs(js.c_str(), f);
    fclose(f);
  } else
    fputs(js.c_str(), stdout);
  fflush(stdout);
  _exit(r == R_VIOL ? 1 : 0);
}
