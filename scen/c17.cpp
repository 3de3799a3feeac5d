// C17: unique_function behaves as an owning box for any callable.
// All sequences of operations up to a depth are run on real objects and on a model.
#include "common.h"
#include <array>

static_assert(std::is_nothrow_move_constructible<pc::unique_function<int(int)>>::value, "moves never throw");
static_assert(std::is_nothrow_move_assignable<pc::unique_function<int(int)>>::value, "moves never throw");
static_assert(std::is_nothrow_default_constructible<pc::unique_function<int(int)>>::value, "");
static_assert(!std::is_copy_constructible<pc::unique_function<int(int)>>::value, "");

// ------------------------------------------------------------------ identity of a stored callable
struct Ids {
  int made = 0;
  int destroyed[16] = {};
  int calls[16] = {};
  bool throwing = false; // throwing-move callables throw when moved from now on
};
static Ids *I;
// moves along with the callable; exactly one object carries an id
class Token {
public:
  explicit Token(int id) : id_(id) {}
  Token(Token &&o) noexcept : id_(o.id_) { o.id_ = -1; }
  Token(const Token &) = delete;
  ~Token() {
    if (id_ >= 0 && I->destroyed[id_]++)
      mc::fail("callable %d destroyed twice", id_);
    if (id_ == -7)
      mc::fail("destruction of a destroyed callable");
    id_ = -7;
  }
  int id() const {
    if (id_ < 0)
      mc::fail("call of a callable that was %s", id_ == -7 ? "destroyed" : "moved away");
    return id_;
  }

private:
  int id_;
};
// result of the n-th call of callable id with argument x
static int result(int id, int n, int x) { return id * 10000 + n * 100 + x; }
static int invoked(int id, int n, int x) {
  I->calls[id]++;
  return result(id, n, x);
}
struct Small {
  Token t;
  int n = 0;
  explicit Small(int id) : t(id) {}
  Small(Small &&) noexcept = default;
  int operator()(int x) { return invoked(t.id(), n++, x); }
};
// the largest object that is kept in place, and one byte more
template <size_t N> struct Sized {
  Token t;
  int n = 0;
  std::array<char, N - sizeof(Token) - sizeof(int)> pad;
  explicit Sized(int id) : t(id) { pad.fill(static_cast<char>(id + 1)); }
  Sized(Sized &&) noexcept = default;
  int operator()(int x) {
    for (char c : pad)
      if (c != t.id() + 1)
        mc::fail("callable %d was damaged", t.id());
    return invoked(t.id(), n++, x);
  }
};
struct ThrowMove {
  Token t;
  int n = 0;
  explicit ThrowMove(int id) : t(id) {}
  ThrowMove(ThrowMove &&o) noexcept(false) : t(std::move(o.t)), n(o.n) {
    if (I->throwing)
      throw test_error(1);
  }
  int operator()(int x) { return invoked(t.id(), n++, x); }
};
struct alignas(16) OverAligned {
  Token t;
  int n = 0;
  explicit OverAligned(int id) : t(id) {}
  OverAligned(OverAligned &&) noexcept = default;
  int operator()(int x) {
    if (reinterpret_cast<uintptr_t>(this) % 16)
      mc::fail("over-aligned callable is not aligned");
    return invoked(t.id(), n++, x);
  }
};
struct ConstCall {
  Token t;
  explicit ConstCall(int id) : t(id) {}
  ConstCall(ConstCall &&) noexcept = default;
  int operator()(int x) const { return invoked(t.id(), 0, x); }
  int operator()(int x) { return invoked(t.id(), 0, x); }
};
// self-referencing callable: relies on its move constructor being used
struct SelfRef {
  Token t;
  int n = 0;
  SelfRef *self;
  explicit SelfRef(int id) : t(id), self(this) {}
  SelfRef(SelfRef &&o) noexcept : t(std::move(o.t)), n(o.n), self(this) {}
  ~SelfRef() {
    if (self != this)
      mc::fail("callable was relocated without its move constructor");
  }
  int operator()(int x) {
    if (self != this)
      mc::fail("callable was relocated without its move constructor");
    return invoked(t.id(), n++, x);
  }
};
using UF = pc::unique_function<int(int)>;
using big = pc::unique_function<long(int)>;

enum { K_SMALL, K_FIT, K_BIG, K_THROW, K_ALIGN, K_FPTR, K_REFW, K_SELF, K_CONST, K_STDF, K_NEST, N_K };
// Functions and referenced objects live outside of the box; ids of function pointers are fixed.
static int fp_calls;
static int fp(int x) { return 7700 + x; }
struct Ext {
  int n = 0;
  int operator()(int x) { return 880000 + 100 * n++ + x; }
};
static Ext *ext;

struct Slot {
  enum { EMPTY, HELD, SHELL } st = EMPTY; // SHELL: moved from, state not specified
  int kind = -1, id = -1, n = 0;
};
static UF make(int kind, Slot &m) {
  m.st = Slot::HELD;
  m.kind = kind;
  m.n = 0;
  m.id = -1;
  const int id = I->made;
  switch (kind) {
  case K_FPTR:
    return UF(&fp);
  case K_REFW:
    return UF(std::ref(*ext));
  case K_STDF: {
    m.id = -1;
    return UF(std::function<int(int)>([](int x) { return 990000 + x; }));
  }
  default:
    break;
  }
  m.id = id;
  I->made++;
  switch (kind) {
  case K_SMALL:
    return UF(Small(id));
  case K_FIT:
    return UF(Sized<5 * sizeof(void *)>(id));
  case K_BIG:
    return UF(Sized<5 * sizeof(void *) + 8>(id));
  case K_THROW:
    return UF(ThrowMove(id));
  case K_ALIGN:
    return UF(OverAligned(id));
  case K_SELF:
    return UF(SelfRef(id));
  case K_CONST:
    return UF(ConstCall(id));
  default:
    return UF(pc::unique_function<int(int)>(Small(id)));
  }
}
static void call(UF &f, Slot &m, int x) {
  if (m.st == Slot::EMPTY) {
    CHECK(!f && f == nullptr, "an empty function does not report so");
    CHECK(outcome_of([&] { return f(x); }) == BADCALL);
    return;
  }
  CHECK(static_cast<bool>(f) && !(f == nullptr), "a function holding a callable reports empty");
  const int r = f(x);
  int want;
  if (m.kind == K_FPTR)
    want = 7700 + x;
  else if (m.kind == K_STDF)
    want = 990000 + x;
  else if (m.kind == K_REFW)
    want = 880000 + 100 * (ext->n - 1) + x;
  else
    want = result(m.id, m.kind == K_CONST ? 0 : m.n, x);
  CHECK(r == want, "invocation gave %d instead of %d", r, want);
  m.n++;
}
static void verify_ids(const std::vector<Slot> &ms) {
  for (int id = 0; id < I->made; id++) {
    bool held = false;
    for (auto &m : ms)
      held = held || (m.st == Slot::HELD && m.id == id);
    CHECK(I->destroyed[id] == (held ? 0 : 1), "callable %d was %s", id, held ? "destroyed while held" : "not destroyed exactly once when it was replaced");
  }
}
static void sequences(int nslots, int depth, const std::vector<int> &kinds) {
  init();
  Ids ids;
  Ext e;
  I = &ids;
  ext = &e;
  const int nk = static_cast<int>(kinds.size());
  {
    std::vector<Slot> ms(nslots);
    // two of three boxes are not aligned to more than a pointer
    struct Cells {
      struct Cell {
        long pad;
        UF f;
      };
      std::vector<Cell> v;
      UF &operator[](int i) { return v[i].f; }
    } fs{std::vector<Cells::Cell>(nslots)};
    for (int d = 0; d < depth; d++) {
      // the same enumeration, simplest first
      const int op = mc::choose(6);
      const int a = mc::choose(nslots);
      ids.throwing = false;
      switch (op) {
      case 0: { // store a callable
        const int k = kinds[mc::choose(nk)];
        Slot m;
        UF tmp = make(k, m);
        ids.throwing = true;
        fs[a] = std::move(tmp);
        ms[a] = m;
        break;
      }
      case 1: // invoke
        if (ms[a].st == Slot::SHELL)
          mc::discard();
        call(fs[a], ms[a], 10 + d);
        break;
      case 2: { // move assignment between slots
        const int b = mc::choose(nslots);
        if (a == b)
          mc::discard();
        ids.throwing = true;
        fs[a] = std::move(fs[b]);
        ms[a] = ms[b];
        if (ms[b].st == Slot::HELD)
          ms[b].st = Slot::SHELL;
        break;
      }
      case 3: { // move construction, and back
        if (ms[a].st == Slot::SHELL)
          mc::discard();
        ids.throwing = true;
        UF tmp(std::move(fs[a]));
        call(tmp, ms[a], 20 + d);
        fs[a] = std::move(tmp);
        break;
      }
      case 4: { // swap
        const int b = mc::choose(nslots);
        if (a >= b)
          mc::discard();
        ids.throwing = true;
        std::swap(fs[a], fs[b]);
        std::swap(ms[a], ms[b]);
        break;
      }
      default: // make empty
        if (mc::choose(2))
          fs[a] = UF(nullptr);
        else
          fs[a] = UF();
        ms[a] = Slot();
        break;
      }
      verify_ids(ms);
    }
    for (int i = 0; i < nslots; i++)
      if (ms[i].st != Slot::SHELL)
        call(fs[i], ms[i], 30 + i);
  }
  for (int id = 0; id < ids.made; id++)
    CHECK(ids.destroyed[id] == 1, "callable %d destroyed %d times", id, ids.destroyed[id]);
}
SCENARIO(C17, seq_all_kinds) { sequences(2, 3, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}); }
SCENARIO(C17, seq_deep) { sequences(2, mc::thorough() ? 6 : 5, {K_SMALL, K_BIG}); }
SCENARIO(C17, seq_three) { sequences(3, mc::thorough() ? 5 : 4, {K_SELF, K_BIG}); }
SCENARIO(C17, seq_mixed) { sequences(2, mc::thorough() ? 5 : 4, {K_FIT, K_THROW, K_ALIGN, K_FPTR, K_REFW}); }

// ------------------------------------------------------------------ null callables
struct Mem {
  int v = 40;
  int get(int x) const { return v + x; }
  int &ref() { return v; }
};
SCENARIO(C17, nulls) {
  init();
  Ids ids;
  I = &ids;
  const int k = mc::choose(8);
  UF f;
  switch (k) {
  case 0:
    f = UF(nullptr);
    break;
  case 1:
    f = UF(static_cast<int (*)(int)>(nullptr));
    break;
  case 2:
    f = UF(std::function<int(int)>());
    break;
  case 3:
    f = UF(pc::unique_function<short(int)>());
    break;
  case 4:
    f = UF(UF());
    break;
  case 5: {
    pc::unique_function<int(const Mem &, int)> g(static_cast<int (Mem::*)(int) const>(nullptr));
    CHECK(!g && g == nullptr);
    Mem m;
    CHECK(outcome_of([&] { return g(m, 1); }) == BADCALL);
    break;
  }
  case 6: {
    pc::unique_function<int(Mem &)> g(static_cast<int Mem::*>(nullptr));
    CHECK(!g && g == nullptr);
    Mem m;
    CHECK(outcome_of([&] { return g(m); }) == BADCALL);
    break;
  }
  default:
    f = UF(Small(ids.made++));
    f = UF(nullptr);
    CHECK(ids.destroyed[0] == 1);
    break;
  }
  CHECK(!f && f == nullptr, "a null callable does not give an empty function");
  CHECK(outcome_of([&] { return f(1); }) == BADCALL);
  UF g(std::move(f));
  CHECK(!g && outcome_of([&] { return g(1); }) == BADCALL);
  g = UF(&fp);
  CHECK(g && g(3) == 7703);
}
// ------------------------------------------------------------------ arguments and results pass unmodified
template <size_t N, typename F> struct Padded {
  F f;
  char pad[N] = {};
  explicit Padded(F g) : f(std::move(g)) {}
  template <typename... A> auto operator()(A &&...a) -> decltype(std::declval<F &>()(std::forward<A>(a)...)) { return f(std::forward<A>(a)...); }
};
template <typename Sig, typename F> pc::unique_function<Sig> boxed(F f, int how) {
  if (how == 0)
    return pc::unique_function<Sig>(std::move(f));
  if (how == 1)
    return pc::unique_function<Sig>(Padded<100, F>(std::move(f)));
  pc::unique_function<Sig> g(std::move(f));
  pc::unique_function<Sig> h(std::move(g));
  g = std::move(h);
  return g;
}
SCENARIO(C17, values) {
  init();
  {
    const int how = mc::choose(3);
    auto f = boxed<Tracked(Tracked)>([](Tracked t) { return Tracked(t.get() + 1); }, how);
    CHECK(f(Tracked(4)).get() == 5);
    Tracked t(8);
    CHECK(f(t).get() == 9 && t.get() == 8);
    auto g = boxed<uptr(uptr, int)>([](uptr p, int k) {
      *p += k;
      return p;
    }, how);
    uptr p(new int(1));
    int *raw = p.get();
    p = g(std::move(p), 5);
    CHECK(p.get() == raw && *p == 6);
    auto h = boxed<void(uptr)>([](uptr) {}, how);
    h(uptr(new int(3)));
    auto v = boxed<void(int &)>([](int &x) { return x++; }, how); // result dropped
    int x = 1;
    v(x);
    CHECK(x == 2);
    auto c = boxed<long(short)>([](int a) { return a * 2; }, how); // converting
    CHECK(c(21) == 42);
  }
  NO_TRACKED_LEFT();
}
// a callable that could be called as an rvalue too keeps its state over calls
template <size_t N> struct Qualified {
  uptr p{new int(5)};
  char pad[N] = {};
  Qualified() = default;
  Qualified(Qualified &&) noexcept = default;
  int operator()(int x) & {
    CHECK(p, "called without its state");
    return *p += x;
  }
  int operator()(int x) && {
    uptr q = std::move(p);
    CHECK(q, "called without its state");
    return -*q - x;
  }
  int operator()(int x) const & { return 1000 + x; }
};
template <typename Q> static void qualified() {
  UF f{Q()};
  CHECK(f(1) == 6);
  UF g(std::move(f));
  CHECK(g(2) == 8);
  f = std::move(g);
  CHECK(f(3) == 11 && f(4) == 15);
}
SCENARIO(C17, qualified) {
  init();
  qualified<Qualified<1>>();
  qualified<Qualified<100>>();
}
SCENARIO(C17, references) {
  init();
  {
    const int how = mc::choose(3);
    Tracked t(3);
    auto lv = boxed<Tracked &(Tracked &)>([](Tracked &x) -> Tracked & { return x; }, how);
    CHECK(&lv(t) == &t, "reference argument or result was copied");
    auto cr = boxed<const Tracked &(const Tracked &)>([](const Tracked &x) -> const Tracked & { return x; }, how);
    CHECK(&cr(t) == &t, "reference argument or result was copied");
    auto rv = boxed<Tracked && (Tracked &&)>([](Tracked &&x) -> Tracked && { return std::move(x); }, how);
    Tracked &&r = rv(std::move(t));
    CHECK(&r == &t && t.get() == 3);
    auto own = boxed<const Tracked &()>([k = std::make_shared<Tracked>(9)]() -> const Tracked & { return *k; }, how);
    const Tracked &o = own();
    CHECK(o.get() == 9 && &o == &own());
    CHECK(ctr().v[C_COPIES] == 0, "%ld copies were made", ctr().v[C_COPIES]);
    int n = 5;
    auto rw = boxed<int &()>([&n]() -> int & { return n; }, how);
    rw() = 6;
    CHECK(n == 6);
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C17, members) {
  init();
  Mem m;
  pc::unique_function<int(const Mem &, int)> f(&Mem::get);
  CHECK(f(m, 2) == 42);
  pc::unique_function<int(Mem *, int)> fp_(&Mem::get);
  CHECK(fp_(&m, 3) == 43);
  pc::unique_function<int(std::shared_ptr<Mem>, int)> fs(&Mem::get);
  CHECK(fs(std::make_shared<Mem>(), 4) == 44);
  pc::unique_function<int(std::reference_wrapper<Mem>, int)> fr(&Mem::get);
  CHECK(fr(std::ref(m), 5) == 45);
  pc::unique_function<int &(Mem &)> fd(&Mem::v);
  CHECK(&fd(m) == &m.v);
  pc::unique_function<int &(Mem *)> fdp(&Mem::v);
  CHECK(&fdp(&m) == &m.v);
  pc::unique_function<int &(std::reference_wrapper<Mem>)> fdr(&Mem::v);
  CHECK(&fdr(std::ref(m)) == &m.v);
  pc::unique_function<int &(Mem &)> fm(&Mem::ref);
  fm(m) = 50;
  CHECK(m.v == 50);
}
// no allocation for pointers, member pointers, reference wrappers and packaged tasks
SCENARIO(C17, no_allocation) {
  init();
  Ext e;
  Mem m;
  const size_t before = mc::live_blocks();
  UF a(&fp), b(std::ref(e)), c(fp);
  pc::unique_function<int(const Mem &, int)> d(&Mem::get);
  UF x(std::move(a)), y(std::move(b));
  c = std::move(x);
  CHECK(mc::live_blocks() == before, "a callable guaranteed to be stored in place was put on the heap");
  CHECK(c(1) == 7701 && y(2) == 880002 && d(m, 1) == 41);
}
// an exception thrown by the callable passes through and leaves the function usable
SCENARIO(C17, throwing_call) {
  init();
  {
    const int how = mc::choose(3);
    auto f = boxed<int(int)>([t = std::make_shared<Tracked>(1), n = 0](int x) mutable {
      if (x < 0)
        throw test_error(-x);
      return t->get() * 1000 + 10 * n++ + x;
    }, how);
    CHECK(f(1) == 1001);
    CHECK(outcome_of([&] { return f(-4); }) == EXC - 4);
    CHECK(f && f(2) == 1012);
  }
  NO_TRACKED_LEFT();
}
// construction that fails leaves nothing behind and keeps the assigned-to function intact
struct ThrowCopy {
  Tracked t{1};
  char pad[100] = {};
  bool *fail;
  explicit ThrowCopy(bool *f) : fail(f) {}
  ThrowCopy(const ThrowCopy &o) : t(o.t), fail(o.fail) {
    if (*fail)
      throw test_error(2);
  }
  int operator()(int x) { return 600 + x; }
};
struct ThrowCopySmall {
  std::shared_ptr<Tracked> t = std::make_shared<Tracked>(1);
  bool *fail;
  explicit ThrowCopySmall(bool *f) : fail(f) {}
  ThrowCopySmall(const ThrowCopySmall &o) : t(o.t), fail(o.fail) {
    if (*fail)
      throw test_error(2);
  }
  ThrowCopySmall(ThrowCopySmall &&) noexcept = default;
  int operator()(int x) { return 600 + x; }
};
template <typename C> void failing() {
  bool fail = false;
  C c(&fail);
  Small keep(I->made++);
  UF f(std::move(keep));
  const int what = mc::choose(3);
  fail = true;
  if (what == 2) {
    fail = false;
    mc::fail_alloc_at(1);
  }
  const int r = outcome_of([&] {
    if (what == 0)
      f = UF(c);
    else
      f = UF(static_cast<const C &>(c));
    return 0;
  });
  mc::fail_alloc_at(0);
  const bool failed = r != 0;
  CHECK(what == 2 || failed);
  CHECK(f(1) == (failed ? result(0, 0, 1) : 601));
  CHECK(I->destroyed[0] == (failed ? 0 : 1));
  fail = false;
  f = UF(c);
  CHECK(f(2) == 602);
}
SCENARIO(C17, failing_construction) {
  init();
  Ids ids;
  I = &ids;
  if (mc::choose(2))
    failing<ThrowCopy>();
  else
    failing<ThrowCopySmall>();
  CHECK(ids.destroyed[0] == 1);
  NO_TRACKED_LEFT();
}
// the void() instantiation compiled into the library, moved between threads
SCENARIO(C17, across_threads, o.preempt = 3; o.preempt_max = -1) {
  init();
  {
    const int kind = mc::choose(2);
    mc::ghost runs;
    pc::unique_function<void()> f, g;
    int data = 0;
    if (kind)
      f = pc::unique_function<void()>([t = Tracked(5), &data, runs] {
        data = t.get();
        runs.bump();
      });
    else
      f = pc::unique_function<void()>(Padded<80, std::function<void()>>([t = std::make_shared<Tracked>(5), &data, runs] {
        data = t->get();
        runs.bump();
      }));
    std::mutex m;
    bool there = false;
    thr t([&] {
      std::lock_guard<std::mutex> l(m);
      if (there) {
        pc::unique_function<void()> mine = std::move(g);
        g = pc::unique_function<void()>();
        mine();
      }
    });
    {
      std::lock_guard<std::mutex> l(m);
      g = std::move(f);
      f = pc::unique_function<void()>();
      there = true;
    }
    t = thr();
    if (g) {
      g();
      g = pc::unique_function<void()>();
    }
    CHECK(runs.peek() == 1 && data == 5);
    CHECK(live_tracked() == 0);
  }
}
