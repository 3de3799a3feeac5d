// Shared by C11 (when_all) and C12 (when_any).
#pragma once
#include "common.h"
#include <list>

// how an input completes
enum { VAL = 0, EXCP = 1, BRK = 2 };
template <typename T> static void complete(pc::promise<T> p, int how, int i) {
  if (how == VAL)
    set_id<T>(p, i);
  else if (how == EXCP)
    p.set_exception(err(i));
  // else: p is destroyed
}
template <typename T> static int want(int how, int i) { return how == VAL ? vid<T>(i) : how == EXCP ? EXC - i : BROKEN; }

// single-pass iterator over a vector, to exercise ranges that can be walked only once
template <typename V> struct input_it {
  using iterator_category = std::input_iterator_tag;
  using value_type = typename V::value_type;
  using difference_type = std::ptrdiff_t;
  using pointer = value_type *;
  using reference = value_type &;
  V *v;
  size_t *pos; // shared by all copies
  size_t end;
  reference operator*() const { return (*v)[*pos]; }
  pointer operator->() const { return &(*v)[*pos]; }
  input_it &operator++() {
    ++*pos;
    return *this;
  }
  input_it operator++(int) {
    ++*pos;
    return *this;
  }
  bool at_end() const { return end == size_t(-1) ? false : true; }
  friend bool operator==(const input_it &a, const input_it &b) {
    return (a.at_end() ? a.end : *a.pos) == (b.at_end() ? b.end : *b.pos);
  }
  friend bool operator!=(const input_it &a, const input_it &b) { return !(a == b); }
};
// pool of producers for n inputs of type T
template <typename T> struct Inputs {
  std::vector<pc::promise<T>> p;
  std::vector<pc::future<T>> f;
  std::vector<int> how;
  std::vector<int> left;
  std::vector<int> done;
  explicit Inputs(int n, int hows) {
    for (int i = 0; i < n; i++) {
      auto x = pc::make_promise<T>();
      p.push_back(std::move(x.first));
      f.push_back(std::move(x.second));
      how.push_back(hows > 1 ? mc::choose(hows) : VAL);
      left.push_back(i);
      done.push_back(0);
    }
  }
  int next() { // completes some remaining input, returns which
    const int k = mc::choose((int)left.size());
    const int i = left[k];
    left.erase(left.begin() + k);
    complete(std::move(p[i]), how[i], i);
    done[i] = 1;
    return i;
  }
  int n_done() const {
    int n = 0;
    for (int d : done)
      n += d;
    return n;
  }
};
