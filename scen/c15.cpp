// C15: a latch releases all waiters exactly at zero and may be destroyed then.
#include "common.h"

// Number of count-downs that have been started / completed, kept outside of the model.
struct Book {
  mc::ghost begun, done, left; // left: waiters that returned
};
// nwait waiters, down[] one count-down per further thread, both[] threads using count_down_and_wait
static void run(int nwait, std::initializer_list<int> downs, int nboth, bool destroy_by_waiter) {
  init();
  int total = nboth;
  for (int d : downs)
    total += d;
  Book b;
  long *data = new long[8]();
  auto *l = new pc::latch(total);
  CHECK(l->is_ready() == (total == 0));
  std::vector<thr> ts;
  auto released = [&, total](int) {
    CHECK(b.begun.get() == total, "released after %ld of %d counts", b.begun.get(), total);
    for (int i = 0; i < 8; i++) { // everything written before a count-down is visible
      long v = data[i];
      CHECK(v == 0 || v == 100 + i);
    }
  };
  int slot = 0;
  for (int i = 0; i < nwait; i++)
    ts.emplace_back([&, i] {
      l->wait();
      released(i);
      b.left.add();
    });
  for (int d : downs) {
    int s = slot++;
    ts.emplace_back([&, d, s] {
      data[s] = 100 + s;
      b.begun.add(d);
      l->count_down(d);
    });
  }
  for (int i = 0; i < nboth; i++) {
    int s = slot++;
    ts.emplace_back([&, s] {
      data[s] = 100 + s;
      b.begun.add(1);
      l->count_down_and_wait();
      released(s);
      b.left.add();
    });
  }
  l->wait();
  released(-1);
  for (int s = 0; s < slot; s++)
    CHECK(data[s] == 100 + s, "write of thread %d before its count-down is not visible", s);
  CHECK(l->is_ready());
  if (destroy_by_waiter)
    delete l; // the others may still be on their way out
  for (auto &t : ts)
    t.join();
  CHECK(b.left.get() == nwait + nboth);
  if (!destroy_by_waiter) {
    CHECK(l->is_ready());
    l->wait();
    delete l;
  }
  delete[] data;
}
// The destroying variants: a waiter that has not yet entered wait() must not be
// overtaken by the destructor, so there only counting threads take part.
SCENARIO(C15, zero) {
  init();
  pc::latch l(0);
  CHECK(l.is_ready());
  l.wait();
  l.count_down(0);
  CHECK(l.is_ready());
  l.wait();
}
SCENARIO(C15, w1_d1, o.preempt = 5; o.preempt_max = -1; o.env = 2) { run(1, {1}, 0, false); }
SCENARIO(C15, w2_d1, o.preempt = 3; o.preempt_max = -1; o.env = 1; o.env_max = 2) { run(2, {1}, 0, false); }
SCENARIO(C15, w1_d2, o.preempt = 4; o.preempt_max = 5; o.env = 1; o.env_max = 2) { run(1, {1, 2}, 0, false); }
SCENARIO(C15, w1_b1, o.preempt = 4; o.preempt_max = -1; o.env = 1; o.env_max = 2) { run(1, {}, 1, false); }
SCENARIO(C15, b2, o.preempt = 3; o.preempt_max = -1; o.env = 1; o.env_max = 2) { run(0, {}, 2, false); }
SCENARIO(C15, d1_b1, o.preempt = 3; o.preempt_max = -1; o.env = 1; o.env_max = 2) { run(0, {2}, 1, false); }
SCENARIO(C15, w2_b2, o.preempt = 2; o.preempt_max = 3) { run(2, {}, 2, false); }
SCENARIO(C15, del_d1, o.preempt = -1; o.env = 2) { run(0, {1}, 0, true); }
SCENARIO(C15, del_d2, o.preempt = 4; o.preempt_max = -1; o.env = 1) { run(0, {1, 1}, 0, true); }
SCENARIO(C15, del_b1, o.preempt = -1; o.env = 1; o.env_max = 2) { run(0, {}, 1, true); }
SCENARIO(C15, del_b2, o.preempt = 3; o.preempt_max = -1; o.env = 1; o.env_max = 2) { run(0, {}, 2, true); }
SCENARIO(C15, del_d1_b1, o.preempt = 3; o.preempt_max = -1; o.env = 1; o.env_max = 2) { run(0, {1}, 1, true); }
SCENARIO(C15, del_d3, o.preempt = 4; o.preempt_max = 4) { run(0, {1, 1, 2}, 0, true); }
SCENARIO(C15, del_b3, o.preempt = 2; o.preempt_max = 3) { run(0, {}, 3, true); }

// the destroyer is released by count_down_and_wait; a plain waiter known to be inside is still on its way out
static void del_by_both(int others) {
  init();
  auto *l = new pc::latch(others + 1);
  mc::ghost left;
  std::vector<thr> ts;
  for (int i = 0; i < others; i++)
    ts.emplace_back([l, left] {
      l->count_down_and_wait();
      left.add();
    });
  l->count_down_and_wait();
  delete l;
  for (auto &t : ts)
    t.join();
  CHECK(left.get() == others);
}
SCENARIO(C15, del_both1, o.preempt = -1; o.env = 2) { del_by_both(1); }
SCENARIO(C15, del_both2, o.preempt = 4; o.preempt_max = -1; o.env = 1; o.env_max = 2) { del_by_both(2); }

// whichever participant is first to leave destroys the latch
SCENARIO(C15, first_leaver, o.preempt = 5; o.preempt_max = -1; o.env = 1; o.env_max = 2) {
  init();
  auto *l = new pc::latch(2);
  mc::ghost n;
  auto leave = [l, n] {
    if (n.add() == 0)
      delete l;
  };
  thr a([=] {
    l->count_down_and_wait();
    leave();
  });
  thr b([=] {
    l->count_down_and_wait();
    leave();
  });
  a.join();
  b.join();
}
// the latch lives on the stack of the thread that waits for it (fork/join)
static void fork_join(int n, bool nested) {
  init();
  std::vector<thr> ts;
  long sum = 0;
  {
    std::vector<long> part(n);
    {
      pc::latch l(n);
      for (int i = 0; i < n; i++)
        ts.emplace_back([&l, &part, i] {
          part[i] = i + 1;
          l.count_down();
        });
      l.wait();
      if (nested)
        CHECK(l.is_ready());
    }
    for (long p : part)
      sum += p;
  }
  CHECK(sum == n * (n + 1) / 2);
  for (auto &t : ts)
    t.join();
}
SCENARIO(C15, fork_join1, o.preempt = -1; o.env = 2) { fork_join(1, true); }
SCENARIO(C15, fork_join2, o.preempt = 4; o.preempt_max = -1; o.env = 1; o.env_max = 2) { fork_join(2, false); }
SCENARIO(C15, fork_join3, o.preempt = 4; o.preempt_max = 4; o.env = 1) { fork_join(3, false); }

// is_ready: false before zero, true from zero on, and acts as a synchronising observation
static void observe(int k) {
  init();
  pc::latch l(k);
  mc::ghost begun, done;
  long data[3] = {0, 0, 0};
  std::vector<thr> ts;
  for (int i = 0; i < k; i++)
    ts.emplace_back([&, i] {
      data[i] = 1;
      begun.add();
      l.count_down();
      done.add();
    });
  bool before = false;
  for (int r = 0; r < 3; r++) {
    const bool must = done.get() == k;
    const bool ready = l.is_ready();
    CHECK(!must || ready, "is_ready() false although all counts are done");
    if (ready) {
      CHECK(begun.get() == k, "is_ready() true after %ld of %d counts", begun.get(), k);
      for (int i = 0; i < k; i++)
        CHECK(data[i] == 1);
    }
    CHECK(!before || ready, "is_ready() went back");
    before = ready;
  }
  for (auto &t : ts)
    t.join();
  CHECK(l.is_ready());
}
SCENARIO(C15, observe1, o.preempt = -1) { observe(1); }
SCENARIO(C15, observe2, o.preempt = 4; o.preempt_max = -1) { observe(2); }

// count-downs of any size: every way to split the count over two threads and several calls
SCENARIO(C15, splits, o.preempt = 3; o.preempt_max = 4) {
  init();
  const int n = 1 + mc::choose(4);
  const int a = mc::choose(n + 1);
  pc::latch l(n);
  mc::ghost left;
  left.set(n);
  thr t([&, a] {
    for (int i = 0; i < a; i++) {
      left.add(-1);
      l.count_down();
    }
  });
  thr w([&] {
    l.wait();
    CHECK(left.get() == 0, "released with %ld counts left", left.get());
  });
  int rest = n - a;
  while (rest > 0) {
    const int k = rest == 1 ? 1 : 1 + mc::choose(rest);
    CHECK(!l.is_ready());
    left.add(-k);
    l.count_down(k);
    rest -= k;
  }
  l.count_down(0);
  t.join();
  w.join();
  CHECK(l.is_ready());
}
// several waiters released by one count-down, none before
SCENARIO(C15, gate, o.preempt = 3; o.preempt_max = 4; o.env = 1; o.env_max = 2) {
  init();
  pc::latch gate(1), ready(2);
  mc::ghost open, in;
  std::vector<thr> ts;
  for (int i = 0; i < 2; i++)
    ts.emplace_back([&] {
      ready.count_down();
      gate.wait();
      CHECK(open.get() == 1);
      in.add();
    });
  ready.wait();
  CHECK(in.get() == 0 && !gate.is_ready());
  open.set(1);
  gate.count_down();
  for (auto &t : ts)
    t.join();
  CHECK(in.get() == 2);
}
// with the pool: the usual way to wait for posted tasks
SCENARIO(C15, pool_tasks, o.preempt = 4; o.preempt_max = 3) {
  init();
  long sum[2] = {0, 0};
  pc::static_thread_pool p(1);
  {
    pc::latch l(2);
    for (int i = 0; i < 2; i++)
      post(p.executor(), [&l, &sum, i] {
        sum[i] = i + 1;
        l.count_down();
      });
    l.wait();
  }
  CHECK(sum[0] == 1 && sum[1] == 2);
  p.wait();
}

// A thread known to be inside wait() (it has blocked there) when another one, already released, destroys the latch.
static void del_inside(int waiters, int downs, bool by_both) {
  init();
  auto *l = new pc::latch(downs + (by_both ? 1 : 0));
  mc::ghost in[3], left, begun;
  std::vector<thr> ts;
  for (int i = 0; i < waiters; i++)
    ts.emplace_back([=] {
      in[i].count_cond_waits();
      l->wait();
      CHECK(begun.get() == downs + (by_both ? 1 : 0));
      left.add();
    });
  std::vector<thr> cs;
  for (int i = 0; i < downs; i++)
    cs.emplace_back([=] {
      begun.add();
      l->count_down();
    });
  if (by_both) {
    begun.add();
    l->count_down_and_wait();
  } else
    l->wait();
  bool inside = true;
  for (int i = 0; i < waiters; i++)
    inside = inside && in[i].get() > 0;
  if (!inside) // somebody may not have called wait() yet: destroying now would be an error of the caller
    ts.clear();
  mc::outcome(inside ? "destroyed with waiters inside" : "destroyed afterwards");
  delete l;
  ts.clear();
  cs.clear();
  CHECK(left.get() == waiters);
}
SCENARIO(C15, del_inside1, o.preempt = 5; o.preempt_max = -1; o.env = 2) { del_inside(1, 1, false); }
SCENARIO(C15, del_inside2, o.preempt = 3; o.preempt_max = 4; o.env = 1; o.env_max = 2) { del_inside(2, 1, false); }
SCENARIO(C15, del_inside1_d2, o.preempt = 3; o.preempt_max = 4; o.env = 1; o.env_max = 2) { del_inside(1, 2, false); }
SCENARIO(C15, del_inside1_both, o.preempt = -1; o.env = 2) { del_inside(1, 0, true); }
SCENARIO(C15, del_inside2_both, o.preempt = 4; o.preempt_max = -1; o.env = 1; o.env_max = 2) { del_inside(2, 0, true); }
SCENARIO(C15, del_inside1_d1_both, o.preempt = 3; o.preempt_max = 4; o.env = 1; o.env_max = 2) { del_inside(1, 1, true); }
