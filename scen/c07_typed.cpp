// C07: an executor may keep tasks as objects of their own type, which is documented to be MoveConstructible and
// MoveAssignable. A task that is overwritten by assignment, erased or never run breaks its promise at that moment.
#include "common.h"

struct Keeper {
  virtual ~Keeper() = default;
  virtual void assign(int to, int from) = 0;
  virtual void swap() = 0;
  virtual void erase_front() = 0;
  virtual void rebuild(int i) = 0;
  virtual void run(int i) = 0;
};
template <typename Task> struct Typed : Keeper {
  std::vector<Task> v;
  void assign(int to, int from) override { v[to] = std::move(v[from]); }
  void swap() override { std::swap(v[0], v[1]); }
  void erase_front() override { v.erase(v.begin()); }
  void rebuild(int i) override {
    Task tmp(std::move(v[i]));
    v[i] = std::move(tmp);
  }
  void run(int i) override { v[i](); }
};
struct Box {
  std::unique_ptr<Keeper> k;
};
struct texec {
  Box *box;
};
template <typename F> void post(texec e, F &&f) {
  using Task = std::decay_t<F>;
  if (!e.box->k) {
    std::unique_ptr<Typed<Task>> fresh(new Typed<Task>());
    fresh->v.reserve(4);
    e.box->k = std::move(fresh);
  }
  static_cast<Typed<Task> *>(e.box->k.get())->v.push_back(Task(std::forward<F>(f)));
}
namespace portable_concurrency {
template <> struct is_executor<texec> : std::true_type {};
} // namespace portable_concurrency

struct Env {
  Box box;
  mc::ghost ran[2];
};
enum { THEN, NEXT, INTERRUPTIBLE, UNWRAP, SHARED_THEN, SHARED_NEXT, ASYNC, ASYNC_UNWRAP, N_KINDS };
// the i-th task of the kind; all tasks of a kind have one type
static pc::future<int> start(Env &e, int kind_, int i) {
  mc::ghost ran = e.ran[i];
  texec x{&e.box};
  switch (kind_) {
  case THEN:
    return pc::make_ready_future(i).then(x, [ran, c = Tracked(5)](pc::future<int> f) {
      ran.bump();
      return f.get() + 10;
    });
  case NEXT:
    return pc::make_ready_future(i).next(x, [ran, c = Tracked(5)](int v) {
      ran.bump();
      return v + 10;
    });
  case INTERRUPTIBLE:
    return pc::make_ready_future(i).then(x, [ran, c = Tracked(5)](pc::promise<int> p, pc::future<int> f) {
      ran.bump();
      p.set_value(f.get() + 10);
    });
  case UNWRAP:
    return pc::make_ready_future(i).then(x, [ran, c = Tracked(5)](pc::future<int> f) {
      ran.bump();
      return pc::make_ready_future(f.get() + 10);
    });
  case SHARED_THEN:
    return pc::make_ready_future(i).share().then(x, [ran, c = Tracked(5)](pc::shared_future<int> f) {
      ran.bump();
      return f.get() + 10;
    });
  case SHARED_NEXT:
    return pc::make_ready_future(i).share().next(x, [ran, c = Tracked(5)](const int &v) {
      ran.bump();
      return v + 10;
    });
  case ASYNC:
    return pc::async(x, [ran, i, c = Tracked(5)] {
      ran.bump();
      return i + 10;
    });
  default:
    return pc::async(x, [ran, i, c = Tracked(5)] {
      ran.bump();
      return pc::make_ready_future(i + 10);
    });
  }
}
static void typed(int kind_, int len) {
  init();
  {
    Env e;
    pc::future<int> f[2];
    mc::ghost note[2];
    for (int i = 0; i < 2; i++) {
      f[i] = start(e, kind_, i);
      f[i].notify([n = note[i]] { n.bump(); });
    }
    const int dropped = mc::choose(3); // 0: both futures are kept
    if (dropped)
      f[dropped - 1] = pc::future<int>();
    enum { PENDING = 1 << 20 };
    int slot[2] = {0, 1}, n = 2, res[2] = {PENDING, PENDING};
    auto lose = [&](int s) {
      if (slot[s] >= 0 && res[slot[s]] == PENDING)
        res[slot[s]] = BROKEN;
      slot[s] = -1;
    };
    auto check = [&](int op) {
      int alive = 0;
      for (int i = 0; i < 2; i++) {
        if (!f[i].valid()) {
          CHECK(e.ran[i].peek() == 0);
          continue;
        }
        alive += res[i] == PENDING;
        CHECK(f[i].is_ready() == (res[i] != PENDING), "operation %d: task %d ready %d", op, i, (int)f[i].is_ready());
        CHECK(note[i].peek() == (res[i] != PENDING), "operation %d: task %d was notified %ld times", op, i, note[i].peek());
        CHECK(e.ran[i].peek() == (res[i] >= 0 && res[i] != PENDING), "operation %d: task %d ran %ld times", op, i, e.ran[i].peek());
      }
      CHECK(live_tracked() == alive, "operation %d: %ld functions stored for %d tasks", op, (long)live_tracked(), alive);
    };
    check(-1);
    for (int step = 0; step < len; step++) {
      const int op = mc::choose(8);
      switch (op) {
      case 0:
      case 1: // overwrite
        if (n < 2)
          mc::discard();
        e.box.k->assign(op, 1 - op);
        {
          const int in = slot[1 - op];
          lose(op);
          slot[op] = in;
          slot[1 - op] = -1;
        }
        break;
      case 2:
        if (n < 2)
          mc::discard();
        e.box.k->swap();
        std::swap(slot[0], slot[1]);
        break;
      case 3:
        if (n < 1)
          mc::discard();
        e.box.k->erase_front();
        lose(0);
        slot[0] = slot[1];
        slot[1] = -1;
        n--;
        break;
      case 4:
      case 5:
        if (op - 4 >= n)
          mc::discard();
        e.box.k->rebuild(op - 4);
        break;
      default: {
        const int s = op - 6;
        if (s >= n || slot[s] < 0 || res[slot[s]] != PENDING)
          mc::discard();
        e.box.k->run(s);
        res[slot[s]] = f[slot[s]].valid() ? slot[s] + 10 : BROKEN;
        break;
      }
      }
      check(op);
    }
    e.box.k.reset();
    for (int s = 0; s < 2; s++)
      lose(s);
    check(100);
    for (int i = 0; i < 2; i++)
      if (f[i].valid())
        CHECK(outcome_of([&] { return f[i].get(); }) == res[i], "task %d", i);
  }
  NO_TRACKED_LEFT();
}
#define TYPED(n, K)                                                                                                    \
  SCENARIO(C07, typed_##n) { typed(K, mc::thorough() ? 5 : 4); }
TYPED(then, THEN)
TYPED(next, NEXT)
TYPED(interruptible, INTERRUPTIBLE)
TYPED(unwrap, UNWRAP)
TYPED(shared_then, SHARED_THEN)
TYPED(shared_next, SHARED_NEXT)
TYPED(async, ASYNC)
TYPED(async_unwrap, ASYNC_UNWRAP)
