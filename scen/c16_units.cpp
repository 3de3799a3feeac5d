// C16: every unit and representation of time
#include "common.h"
#include <ratio>
using namespace std::chrono_literals;
namespace cr = std::chrono;

// a clock of the user: other epoch, coarser unit
struct my_clock {
  using duration = cr::duration<long long, std::micro>;
  using rep = duration::rep;
  using period = duration::period;
  using time_point = cr::time_point<my_clock>;
  static constexpr bool is_steady = true;
  static time_point now() noexcept { return time_point(cr::duration_cast<duration>(cr::steady_clock::now().time_since_epoch()) + 12345s); }
};
template <typename W, typename D> static pc::future_status wait(W &w, D d, int api) {
  if (cr::treat_as_floating_point<typename D::rep>::value)
    return w.wait_for(d); // the sum with a time point would lose digits
  switch (api) {
  case 0:
    return w.wait_for(d);
  case 1:
    return w.wait_until(cr::steady_clock::now() + d);
  case 2:
    return w.wait_until(cr::system_clock::now() + d);
  case 3:
    return w.wait_until(my_clock::now() + d);
  default: // a time point of the unit of the duration, rounded up
    return w.wait_until(cr::time_point<cr::steady_clock, D>(cr::duration_cast<D>(cr::steady_clock::now().time_since_epoch()) + d));
  }
}
enum { N_APIS = 5, N_UNITS = 13 };
struct Res {
  pc::future_status s;
  double ns; // nominal length
};
template <typename W, typename D> static Res r(W &w, D d, int api) { return Res{wait(w, d, api), cr::duration<double, std::nano>(d).count()}; }
template <typename W> static Res unit(W &w, int u, int api) {
  switch (u) {
  case 0:
    return r(w, 1ns, api);
  case 1:
    return r(w, 250us, api);
  case 2:
    return r(w, 1500us, api);
  case 3:
    return r(w, 999ms, api);
  case 4:
    return r(w, cr::duration<double>(1.5), api);
  case 5:
    return r(w, cr::duration<float, std::milli>(2.5f), api);
  case 6:
    return r(w, 7s, api);
  case 7:
    return r(w, 3min, api);
  case 8:
    return r(w, 2h, api);
  case 9:
    return r(w, cr::duration<long, std::ratio<86400>>(30), api);
  case 10:
    return r(w, cr::duration<int, std::ratio<1, 60>>(3), api);
  case 11:
    return r(w, cr::duration<short, std::milli>(32000), api);
  default:
    return r(w, cr::duration<unsigned>(40), api);
  }
}
template <typename Fut> static void timeout(bool own) {
  init();
  const int u = mc::choose(N_UNITS), api = mc::choose(N_APIS);
  auto x = pc::make_promise<int>();
  Fut f = std::move(x.second);
  const long long start = mc::now_ns();
  Res q;
  if (own) {
    pc::timed_waiter w(f);
    q = unit(w, u, api);
  } else
    q = unit(f, u, api);
  const double took = static_cast<double>(mc::now_ns() - start);
  CHECK(q.s == pc::future_status::timeout, "ready reported for a future without result");
  const double before = api == 3 ? 1e3 : 1; // resolution of the clock
  // a time point cut to a coarse unit may lie in the past
  if (api != 4)
    CHECK(took >= q.ns - before, "timeout %.0f ns before the deadline (unit %d, api %d)", q.ns - took, u, api);
  CHECK(took <= q.ns + 1e6, "the wait went on for %.0f ns after its deadline (unit %d, api %d)", took - q.ns, u, api);
}
SCENARIO(C16, units_waiter) { timeout<pc::future<int>>(true); }
SCENARIO(C16, units_waiter_shared) { timeout<pc::shared_future<int>>(true); }
SCENARIO(C16, units_future) { timeout<pc::future<int>>(false); }
SCENARIO(C16, units_shared) { timeout<pc::shared_future<int>>(false); }
// the result comes half-way
template <typename Fut> static void in_time(bool own) {
  init();
  const int u = 3 + mc::choose(N_UNITS - 3), api = mc::choose(4);
  auto x = pc::make_promise<int>();
  Fut f = std::move(x.second);
  thr t([p = std::move(x.first)]() mutable {
    std::this_thread::sleep_for(1ms);
    p.set_value(1);
  });
  const long long start = mc::now_ns();
  Res q;
  if (own) {
    pc::timed_waiter w(f);
    q = unit(w, u, api);
  } else
    q = unit(f, u, api);
  if (q.s == pc::future_status::timeout)
    CHECK(static_cast<double>(mc::now_ns() - start) >= q.ns - 1e3, "timeout reported before the deadline (unit %d, api %d)", u, api);
  else
    CHECK(f.is_ready());
}
SCENARIO(C16, units_in_time, o.preempt = 2; o.preempt_max = 4) { in_time<pc::future<int>>(true); }
SCENARIO(C16, units_in_time_m, o.preempt = 2; o.preempt_max = 4) { in_time<pc::shared_future<int>>(false); }
