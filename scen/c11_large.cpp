// C11 with many inputs
#include "comb.h"

template <typename W> static void look(W &w, int n, int fail) {
  CHECK(w.is_ready(), "not ready although every one of %d inputs is", n);
  auto v = w.get();
  CHECK((int)v.size() == n);
  for (int i = 0; i < n; i++)
    CHECK(v[i].is_ready() && get_outcome(v[i]) == (i == fail ? EXC - 1 : i), "input %d of %d", i, n);
}
// n inputs, completed upwards, downwards or from the middle, some before the call; one of them last
SCENARIO(C11, large) {
  init();
  static const int sizes[] = {9, 17, 33, 64, 65, 130, 257, 300};
  const int n = sizes[mc::choose(8)], shape = mc::choose(3), dir = mc::choose(3), pre = mc::choose(3), fail = mc::choose(2) ? n / 2 : -1;
  std::vector<pc::promise<int>> p;
  std::vector<pc::future<int>> f;
  for (int i = 0; i < n; i++) {
    auto x = pc::make_promise<int>();
    p.push_back(std::move(x.first));
    f.push_back(std::move(x.second));
  }
  auto nth = [&](int k) { return dir == 0 ? k : dir == 1 ? n - 1 - k : (k + n / 2) % n; };
  auto done = [&](int k) {
    const int i = nth(k);
    if (i == fail)
      p[i].set_exception(err(1));
    else
      set_id<int>(p[i], i);
  };
  int k = 0;
  for (const int to = pre == 0 ? 0 : pre == 1 ? n / 2 : n - 1; k < to; k++)
    done(k);
  auto rest = [&](auto w) {
    for (; k < n; k++) {
      CHECK(!w.is_ready(), "ready after %d of %d inputs", k, n);
      done(k);
    }
    look(w, n, fail);
  };
  if (shape == 0)
    rest(pc::when_all(std::move(f)));
  else if (shape == 1)
    rest(pc::when_all(f.begin(), f.end()));
  else {
    std::vector<pc::shared_future<int>> s;
    for (auto &x : f)
      s.push_back(x.share());
    rest(pc::when_all(s.begin(), s.end()));
    for (int i = 0; i < n; i++)
      CHECK(s[i].valid() && get_outcome(s[i]) == (i == fail ? EXC - 1 : i));
  }
}
// a wide tuple
SCENARIO(C11, wide_tuple) {
  init();
  std::vector<pc::promise<int>> p;
  std::vector<pc::future<int>> f;
  for (int i = 0; i < 10; i++) {
    auto x = pc::make_promise<int>();
    p.push_back(std::move(x.first));
    f.push_back(std::move(x.second));
  }
  const int last = mc::choose(10);
  auto w = pc::when_all(std::move(f[0]), std::move(f[1]), f[2].share(), std::move(f[3]), std::move(f[4]), f[5].share(), std::move(f[6]), std::move(f[7]), std::move(f[8]), f[9].share());
  for (int i = 0; i < 10; i++)
    if (i != last)
      set_id<int>(p[i], i);
  CHECK(!w.is_ready());
  set_id<int>(p[last], last);
  CHECK(w.is_ready());
  auto t = w.get();
  const int got[] = {get_outcome(std::get<0>(t)), get_outcome(std::get<1>(t)), get_outcome(std::get<2>(t)), get_outcome(std::get<3>(t)), get_outcome(std::get<4>(t)),
                     get_outcome(std::get<5>(t)), get_outcome(std::get<6>(t)), get_outcome(std::get<7>(t)), get_outcome(std::get<8>(t)), get_outcome(std::get<9>(t))};
  for (int i = 0; i < 10; i++)
    CHECK(got[i] == i, "position %d holds input %d", i, got[i]);
}
// named shared futures, constant or not, stay usable
SCENARIO(C11, named_inputs) {
  init();
  auto a = pc::make_promise<int>(), b = pc::make_promise<int>();
  pc::shared_future<int> s = a.second.share();
  const pc::shared_future<int> c = s;
  const std::vector<pc::shared_future<int>> v{s, c};
  const int order = mc::choose(2);
  auto w = pc::when_all(s, c, std::move(b.second));
  auto r = pc::when_all(v.begin(), v.end());
  auto x = pc::when_all(v);
  CHECK(s.valid() && c.valid() && v[0].valid() && v[1].valid(), "an input passed by name was moved from");
  if (order)
    set_id<int>(b.first, 2);
  CHECK(!w.is_ready() && !r.is_ready() && !x.is_ready());
  set_id<int>(a.first, 1);
  CHECK(r.is_ready() && x.is_ready() && w.is_ready() == (bool)order);
  if (!order)
    set_id<int>(b.first, 2);
  CHECK(w.is_ready());
  auto t = w.get();
  CHECK(get_outcome(std::get<0>(t)) == 1 && get_outcome(std::get<1>(t)) == 1 && get_outcome(std::get<2>(t)) == 2);
  CHECK(get_outcome(s) == 1 && get_outcome(c) == 1 && get_outcome(v[0]) == 1 && get_outcome(r.get()[1]) == 1 && get_outcome(x.get()[0]) == 1);
}
// more inputs than a 16-bit counter holds
SCENARIO(C11, huge, o.big = true) {
  init();
  const int n = 65537 + mc::choose(2) * 1000, before = mc::choose(2);
  auto a = pc::make_promise<int>(), b = pc::make_promise<int>();
  pc::shared_future<int> sa = a.second.share(), sb = b.second.share();
  if (before)
    set_id<int>(a.first, 1);
  std::vector<pc::shared_future<int>> v(n, sa);
  v[n / 2] = sb;
  auto w = pc::when_all(std::move(v));
  if (!before)
    set_id<int>(a.first, 1);
  CHECK(!w.is_ready(), "ready with 1 of %d inputs pending", n);
  set_id<int>(b.first, 2);
  CHECK(w.is_ready(), "not ready although all %d inputs are", n);
  auto r = w.get();
  CHECK((int)r.size() == n);
  for (int i = 0; i < n; i++)
    CHECK(r[i].valid());
  CHECK(get_outcome(r[n / 2]) == 2 && get_outcome(r[n - 1]) == 1 && get_outcome(r[0]) == 1);
}
