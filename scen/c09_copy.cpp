// C09: the cancel action is the one given at the call, whatever happens to the caller's object afterwards
#include "copy.h"

template <typename B> struct Act : B {
  void operator()() const { ctr().v[10] += this->id.get(); }
};
template <typename T, typename B = Orig> static void action() {
  init();
  ctr().v[10] = 0;
  const int how = mc::choose(2), supplied = mc::choose(2), moved = mc::choose(2);
  {
    pc::promise<T> p;
    pc::future<T> f;
    hand<Act<B>>::over([&](auto &&a) {
      if (how) {
        p = pc::promise<T>(pc::canceler_arg, FWD(a));
        f = p.get_future();
      } else {
        auto x = pc::make_promise<T>(pc::canceler_arg, FWD(a));
        p = std::move(x.first);
        f = std::move(x.second);
      }
    });
    pc::promise<T> other;
    if (moved)
      other = std::move(p);
    pc::promise<T> &r = moved ? other : p;
    if (supplied)
      r.set_exception(err(1));
    CHECK(ctr().v[10] == 0);
    f = {};
    CHECK(ctr().v[10] == (supplied ? 0 : 5), "%ld", ctr().v[10]);
  }
  CHECK(ctr().v[10] == (supplied ? 0 : 5));
  NO_TRACKED_LEFT();
}
SCENARIO(C09, copy_int) { action<int>(); }
SCENARIO(C09, copy_void) { action<void>(); }
SCENARIO(C09, copy_ref) { action<int &>(); }
SCENARIO(C09, sole_int) { action<int, Sole>(); }
SCENARIO(C09, sole_void) { action<void, Sole>(); }
SCENARIO(C09, sole_ref) { action<int &, Sole>(); }
