// C04: the notification is the function given at the call, whatever happens to the caller's objects afterwards
#include "copy.h"

template <typename B> struct Note : B {
  void operator()() const { ctr().v[10] += this->id.get(); }
};
template <typename B> static void given() {
  init();
  ctr().v[10] = 0;
  const int late = mc::choose(2), shared = mc::choose(2), exec = mc::choose(2), broken = mc::choose(2);
  {
    Queue q;
    std::unique_ptr<pc::promise<int>> p(new pc::promise<int>);
    pc::future<int> f = p->get_future();
    pc::shared_future<int> s;
    if (shared)
      s = f.share();
    auto go = [&] {
      if (broken)
        p.reset();
      else
        p->set_value(1);
    };
    if (late)
      go();
    hand<Note<B>>::over([&](auto &&fn) {
      if (shared && exec)
        s.notify(qexec{&q}, FWD(fn));
      else if (shared)
        s.notify(FWD(fn));
      else if (exec)
        f.notify(qexec{&q}, FWD(fn));
      else
        f.notify(FWD(fn));
    });
    if (!late)
      go();
    CHECK(q.run_all() == exec);
    CHECK(ctr().v[10] == 5, "%ld", ctr().v[10]);
  }
  CHECK(ctr().v[10] == 5);
  NO_TRACKED_LEFT();
}
SCENARIO(C04, copy_executor) {
  init();
  const int late = mc::choose(2), shared = mc::choose(2);
  int n = 0;
  {
    Queue q;
    the_queue() = &q;
    pc::promise<int> p;
    pc::future<int> f = p.get_future();
    pc::shared_future<int> s;
    if (shared)
      s = f.share();
    if (late)
      p.set_value(1);
    hand_over_exec([&](auto &&e) {
      if (shared)
        s.notify(FWD(e), [&n] { n++; });
      else
        f.notify(FWD(e), [&n] { n++; });
    });
    if (!late)
      p.set_value(1);
    CHECK(n == 0 && q.run_all() == 1 && n == 1);
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C04, copy_function) { given<Orig>(); }
SCENARIO(C04, sole_function) { given<Sole>(); }
