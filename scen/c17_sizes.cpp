// C17: every size and alignment of the callable, small enough to be kept in place or not
#include "common.h"

template <size_t N, size_t A, bool NT> struct alignas(A) Sz {
  unsigned char pad[N];
  explicit Sz(int id) {
    for (size_t i = 0; i < N; i++)
      pad[i] = static_cast<unsigned char>(id + i);
    ctr().v[C_LIVE]++;
  }
  Sz(Sz &&o) noexcept(NT) {
    std::memcpy(pad, o.pad, N);
    std::memset(o.pad, 0xee, N);
    ctr().v[C_LIVE]++;
  }
  ~Sz() {
    std::memset(pad, 0xdd, N);
    ctr().v[C_LIVE]--;
  }
  int operator()(int id) {
    if (reinterpret_cast<uintptr_t>(this) % A)
      mc::fail("callable of alignment %zu at a misaligned address", A);
    for (size_t i = 0; i < N; i++)
      if (pad[i] != static_cast<unsigned char>(id + i))
        mc::fail("callable of %zu bytes, alignment %zu damaged at byte %zu", N, A, i);
    return id + 1;
  }
};
template <size_t N, size_t A, bool NT> static void trip() {
  using F = pc::unique_function<int(int)>;
  struct Guarded { // neighbours of the function object stay as they are
    long before[2] = {11, 12};
    F f;
    long after[2] = {13, 14};
    bool ok() const { return before[0] == 11 && before[1] == 12 && after[0] == 13 && after[1] == 14; }
  };
  {
  Guarded a, b, c;
  a.f = F(Sz<N, A, NT>(1));
  CHECK(a.f && a.f(1) == 2);
  b.f = std::move(a.f);
  CHECK(b.f && b.f(1) == 2);
  c.f = F(Sz<N, A, NT>(2));
  std::swap(b.f, c.f);
  CHECK(c.f(1) == 2 && b.f(2) == 3);
  b.f = F([](int v) { return v - 1; });
  CHECK(b.f(2) == 1 && c.f(1) == 2);
  F d(std::move(c.f));
  CHECK(d(1) == 2);
  a.f = std::move(d);
  CHECK(a.f(1) == 2);
  a.f = F();
  CHECK(!a.f && a.ok() && b.ok() && c.ok(), "memory beside the function object was written");
  }
  CHECK(ctr().v[C_LIVE] == 0, "(%ld callables of %zu bytes left)", ctr().v[C_LIVE], N);
}
template <size_t... I, size_t... J> static void all(std::index_sequence<I...>, std::index_sequence<J...>) {
  using fn = void (*)();
  static const fn t[] = {trip<I + 1, 1, true>..., trip<I + 33, 1, false>..., trip<I * 8 + 8, 8, true>..., trip<J * 8 + 8, 8, false>..., trip<J * 4 + 28, 4, true>..., trip<J * 16 + 16, 16, true>..., trip<J * 32 + 32, 32, true>..., trip<J * 64 + 64, 64, false>...};
  t[mc::choose(static_cast<int>(sizeof(t) / sizeof(t[0])))]();
}
SCENARIO(C17, sizes) {
  init();
  all(std::make_index_sequence<18>(), std::make_index_sequence<6>());
}
SCENARIO(C17, sizes_limit) {
  init();
  using fn = void (*)();
  static const fn t[] = {trip<24, 1, true>, trip<30, 2, true>, trip<31, 1, true>, trip<32, 1, true>, trip<33, 1, true>, trip<38, 2, true>, trip<39, 1, true>, trip<40, 1, true>, trip<41, 1, true>, trip<42, 2, true>, trip<44, 4, true>, trip<47, 1, true>, trip<48, 1, true>, trip<49, 1, true>, trip<64, 1, true>, trip<65, 1, true>, trip<256, 1, true>, trip<4096, 1, true>};
  t[mc::choose(static_cast<int>(sizeof(t) / sizeof(t[0])))]();
}
