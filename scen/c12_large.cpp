// C12 with many inputs
#include "comb.h"

// n inputs, each position once as the first ready one
SCENARIO(C12, large) {
  init();
  static const int sizes[] = {9, 17, 33, 65, 130, 257, 300};
  static const int poss[] = {0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 129, 255, 256, 299};
  const int n = sizes[mc::choose(7)], pos = poss[mc::choose(16)], shape = mc::choose(3), before = mc::choose(2);
  if (pos >= n)
    return;
  std::vector<pc::promise<int>> p;
  std::vector<pc::future<int>> f;
  for (int i = 0; i < n; i++) {
    auto x = pc::make_promise<int>();
    p.push_back(std::move(x.first));
    f.push_back(std::move(x.second));
  }
  if (before)
    set_id<int>(p[pos], pos);
  auto rest = [&](auto w) {
    CHECK(w.is_ready() == (bool)before);
    if (!before)
      set_id<int>(p[pos], pos);
    CHECK(w.is_ready(), "not ready although input %d of %d is", pos, n);
    auto r = w.get();
    CHECK(r.index == (size_t)pos, "index %zu although input %d of %d is the ready one", r.index, pos, n);
    CHECK((int)r.futures.size() == n);
    for (int i = 0; i < n; i++)
      CHECK(r.futures[i].valid() && r.futures[i].is_ready() == (i == pos));
    for (int i = 0; i < n; i++)
      if (i != pos)
        set_id<int>(p[i], i);
    for (int i = 0; i < n; i++)
      CHECK(r.futures[i].is_ready() && get_outcome(r.futures[i]) == i, "input %d of %d", i, n);
  };
  if (shape == 0)
    rest(pc::when_any(std::move(f)));
  else if (shape == 1)
    rest(pc::when_any(f.begin(), f.end()));
  else {
    std::vector<pc::shared_future<int>> s;
    for (auto &x : f)
      s.push_back(x.share());
    rest(pc::when_any(s.begin(), s.end()));
  }
}
SCENARIO(C12, wide_tuple) {
  init();
  std::vector<pc::promise<int>> p;
  std::vector<pc::future<int>> f;
  for (int i = 0; i < 10; i++) {
    auto x = pc::make_promise<int>();
    p.push_back(std::move(x.first));
    f.push_back(std::move(x.second));
  }
  const int first = mc::choose(10), before = mc::choose(2);
  if (before)
    set_id<int>(p[first], first);
  auto w = pc::when_any(std::move(f[0]), std::move(f[1]), f[2].share(), std::move(f[3]), std::move(f[4]), f[5].share(), std::move(f[6]), std::move(f[7]), std::move(f[8]), f[9].share());
  if (!before) {
    CHECK(!w.is_ready());
    set_id<int>(p[first], first);
  }
  CHECK(w.is_ready());
  auto r = w.get();
  CHECK(r.index == (size_t)first, "index %zu although input %d is the ready one", r.index, first);
  auto &t = r.futures;
  for (int i = 0; i < 10; i++)
    if (i != first)
      set_id<int>(p[i], i);
  const int got[] = {get_outcome(std::get<0>(t)), get_outcome(std::get<1>(t)), get_outcome(std::get<2>(t)), get_outcome(std::get<3>(t)), get_outcome(std::get<4>(t)),
                     get_outcome(std::get<5>(t)), get_outcome(std::get<6>(t)), get_outcome(std::get<7>(t)), get_outcome(std::get<8>(t)), get_outcome(std::get<9>(t))};
  for (int i = 0; i < 10; i++)
    CHECK(got[i] == i, "position %d holds input %d", i, got[i]);
}
SCENARIO(C12, named_inputs) {
  init();
  auto a = pc::make_promise<int>(), b = pc::make_promise<int>();
  pc::shared_future<int> s = a.second.share();
  const pc::shared_future<int> c = s;
  const std::vector<pc::shared_future<int>> v{s, c};
  const int which = mc::choose(2);
  auto w = pc::when_any(s, c, std::move(b.second));
  auto r = pc::when_any(v.begin(), v.end());
  auto x = pc::when_any(v);
  CHECK(s.valid() && c.valid() && v[0].valid() && v[1].valid(), "an input passed by name was moved from");
  CHECK(!w.is_ready() && !r.is_ready() && !x.is_ready());
  if (which) {
    set_id<int>(b.first, 2);
    CHECK(w.is_ready() && !r.is_ready() && !x.is_ready());
    set_id<int>(a.first, 1);
  } else {
    set_id<int>(a.first, 1);
    CHECK(w.is_ready() && r.is_ready() && x.is_ready());
    set_id<int>(b.first, 2);
  }
  auto t = w.get();
  CHECK(which ? t.index == 2 : t.index < 2);
  CHECK(get_outcome(std::get<0>(t.futures)) == 1 && get_outcome(std::get<1>(t.futures)) == 1 && get_outcome(std::get<2>(t.futures)) == 2);
  CHECK(get_outcome(s) == 1 && get_outcome(c) == 1 && get_outcome(v[0]) == 1 && get_outcome(r.get().futures[1]) == 1 && get_outcome(x.get().futures[0]) == 1);
}
// more inputs than a 16-bit index names
SCENARIO(C12, huge, o.big = true) {
  init();
  const int n = 66000, pos = 65535 + mc::choose(3), before = mc::choose(2);
  auto a = pc::make_promise<int>(), b = pc::make_promise<int>();
  pc::shared_future<int> sa = a.second.share(), sb = b.second.share();
  if (before)
    set_id<int>(b.first, 2);
  std::vector<pc::shared_future<int>> v(n, sa);
  v[pos] = sb;
  auto w = pc::when_any(std::move(v));
  CHECK(w.is_ready() == (bool)before);
  if (!before)
    set_id<int>(b.first, 2);
  CHECK(w.is_ready());
  auto r = w.get();
  CHECK(r.index == (size_t)pos, "index %zu although input %d of %d is the ready one", r.index, pos, n);
  CHECK((int)r.futures.size() == n && get_outcome(r.futures[pos]) == 2 && !r.futures[pos - 1].is_ready());
  set_id<int>(a.first, 1);
  CHECK(get_outcome(r.futures[n - 1]) == 1);
}
