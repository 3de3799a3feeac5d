// C05: the continuation is the function given at the call, whatever happens to the caller's objects afterwards
#include "copy.h"

template <typename B> struct Then : B {
  int operator()(pc::future<int> f) const { return f.get() + this->id.get(); }
};
template <typename B> struct SThen : B {
  int operator()(pc::shared_future<int> f) const { return f.get() + this->id.get(); }
};
template <typename B> struct Next : B {
  int operator()(int v) const { return v + this->id.get(); }
};
template <typename B> struct Intr : B {
  void operator()(pc::promise<int> p, pc::future<int> f) const { p.set_value(f.get() + this->id.get()); }
};
template <typename B> struct SIntr : B {
  void operator()(pc::promise<int> p, pc::shared_future<int> f) const { p.set_value(f.get() + this->id.get()); }
};
template <typename B> struct Unwrap : B {
  pc::future<int> operator()(int v) const { return pc::make_ready_future(v + this->id.get()); }
};
template <typename B> struct VNext : B {
  int operator()() const { return 10 + this->id.get(); }
};
template <typename B> struct UThen : B {
  pc::future<int> operator()(pc::future<int> f) const { return pc::make_ready_future(f.get() + this->id.get()); }
};
template <typename B> struct SUThen : B {
  pc::future<int> operator()(pc::shared_future<int> f) const { return pc::make_ready_future(f.get() + this->id.get()); }
};
template <typename B> struct VUnwrap : B {
  pc::future<int> operator()() const { return pc::make_ready_future(10 + this->id.get()); }
};
#define ATTACH(FN, CALL)                                                                                                                                                                               \
  hand<FN>::over([&](auto &&fn) { f = parent.CALL; });                                                                                                                                                  \
  break
template <typename B> static void given_function() {
  init();
  const int op = mc::choose(10), late = mc::choose(2);
  {
    Queue q;
    pc::promise<int> p;
    pc::future<int> parent = p.get_future();
    pc::future<int> f;
    if (late)
      p.set_value(10);
    switch (op) {
    case 0:
      ATTACH(Then<B>, then(FWD(fn)));
    case 1:
      ATTACH(Then<B>, then(qexec{&q}, FWD(fn)));
    case 2:
      ATTACH(Next<B>, next(FWD(fn)));
    case 3:
      ATTACH(Next<B>, next(qexec{&q}, FWD(fn)));
    case 4:
      ATTACH(Intr<B>, then(FWD(fn)));
    case 5:
      ATTACH(Intr<B>, then(qexec{&q}, FWD(fn)));
    case 6:
      ATTACH(Unwrap<B>, next(FWD(fn)));
    case 7:
      ATTACH(Unwrap<B>, next(qexec{&q}, FWD(fn)));
    case 8:
      ATTACH(UThen<B>, then(FWD(fn)));
    case 9:
      ATTACH(UThen<B>, then(qexec{&q}, FWD(fn)));
    }
    if (!late)
      p.set_value(10);
    q.run_all();
    CHECK(f.is_ready() && f.get() == 15);
  }
  NO_TRACKED_LEFT();
}
template <typename B> static void given_shared() {
  init();
  const int op = mc::choose(10), late = mc::choose(2);
  {
    Queue q;
    pc::promise<int> p;
    pc::shared_future<int> parent = p.get_future();
    pc::future<int> f;
    if (late)
      p.set_value(10);
    switch (op) {
    case 0:
      ATTACH(SThen<B>, then(FWD(fn)));
    case 1:
      ATTACH(SThen<B>, then(qexec{&q}, FWD(fn)));
    case 2:
      ATTACH(Next<B>, next(FWD(fn)));
    case 3:
      ATTACH(Next<B>, next(qexec{&q}, FWD(fn)));
    case 4:
      ATTACH(SIntr<B>, then(FWD(fn)));
    case 5:
      ATTACH(SIntr<B>, then(qexec{&q}, FWD(fn)));
    case 6:
      ATTACH(Unwrap<B>, next(FWD(fn)));
    case 7:
      ATTACH(Unwrap<B>, next(qexec{&q}, FWD(fn)));
    case 8:
      ATTACH(SUThen<B>, then(FWD(fn)));
    case 9:
      ATTACH(SUThen<B>, then(qexec{&q}, FWD(fn)));
    }
    if (!late)
      p.set_value(10);
    q.run_all();
    CHECK(f.is_ready() && f.get() == 15);
  }
  NO_TRACKED_LEFT();
}
template <typename B> static void given_void() {
  init();
  const int op = mc::choose(8), late = mc::choose(2);
  {
    Queue q;
    pc::promise<void> p;
    pc::future<void> parent = p.get_future();
    pc::shared_future<void> s;
    pc::future<int> f;
    if (op % 4 > 1)
      s = parent.share();
    if (late)
      p.set_value();
    switch (op) {
    case 0:
      ATTACH(VNext<B>, next(FWD(fn)));
    case 1:
      ATTACH(VNext<B>, next(qexec{&q}, FWD(fn)));
    case 2:
      hand<VNext<B>>::over([&](auto &&fn) { f = s.next(FWD(fn)); });
      break;
    case 3:
      hand<VNext<B>>::over([&](auto &&fn) { f = s.next(qexec{&q}, FWD(fn)); });
      break;
    case 4:
      ATTACH(VUnwrap<B>, next(FWD(fn)));
    case 5:
      ATTACH(VUnwrap<B>, next(qexec{&q}, FWD(fn)));
    case 6:
      hand<VUnwrap<B>>::over([&](auto &&fn) { f = s.next(FWD(fn)); });
      break;
    case 7:
      hand<VUnwrap<B>>::over([&](auto &&fn) { f = s.next(qexec{&q}, FWD(fn)); });
      break;
    }
    if (!late)
      p.set_value();
    q.run_all();
    CHECK(f.is_ready() && f.get() == 15);
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C05, copy_executor) {
  init();
  const int op = mc::choose(6), late = mc::choose(2);
  {
    Queue q;
    the_queue() = &q;
    pc::promise<int> p;
    pc::future<int> parent = p.get_future();
    pc::shared_future<int> s;
    pc::future<int> f;
    if (op > 2)
      s = parent.share();
    if (late)
      p.set_value(10);
    hand_over_exec([&](auto &&e) {
      switch (op) {
      case 0:
        f = parent.then(FWD(e), Then<Orig>{});
        break;
      case 1:
        f = parent.next(FWD(e), Next<Orig>{});
        break;
      case 2:
        f = parent.then(FWD(e), Intr<Orig>{});
        break;
      case 3:
        f = s.then(FWD(e), SThen<Orig>{});
        break;
      case 4:
        f = s.next(FWD(e), Next<Orig>{});
        break;
      case 5:
        f = s.then(FWD(e), SIntr<Orig>{});
        break;
      }
    });
    if (!late)
      p.set_value(10);
    CHECK(!f.is_ready());
    CHECK(q.run_all() == 1);
    CHECK(f.is_ready() && f.get() == 15);
  }
  NO_TRACKED_LEFT();
}

SCENARIO(C05, copy_function) { given_function<Orig>(); }
SCENARIO(C05, copy_shared) { given_shared<Orig>(); }
SCENARIO(C05, copy_void) { given_void<Orig>(); }
SCENARIO(C05, sole_function) { given_function<Sole>(); }
SCENARIO(C05, sole_shared) { given_shared<Sole>(); }
SCENARIO(C05, sole_void) { given_void<Sole>(); }
