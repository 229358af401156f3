// Deterministic stand-in for tbb::enumerable_thread_specific: one value-initialised slot per simulated thread,
// created on first use, never moved, iterated in creation order.
#pragma once
#include <cstddef>
#include <iterator>
#include <cstdlib>
#include <new>
#include <atomic>
#include <memory>
#include <functional>
#include <utility>
#include <limits>
#include <tuple>
#include <array>
#include <cstring>
#include <immintrin.h>
extern "C" int sim_tid(void);
namespace tbb {
enum ets_key_usage_type { ets_key_per_instance, ets_no_key, ets_suspend_aware };
template <class T> struct cache_aligned_allocator { typedef T value_type; template <class U> struct rebind { typedef cache_aligned_allocator<U> other; }; };
template <class T, class A = cache_aligned_allocator<T>, ets_key_usage_type K = ets_no_key>
class enumerable_thread_specific {
  struct Node { alignas(64) T v; int tid; std::atomic<Node *> next{nullptr}; Node(int t) : v(), tid(t) {} template <class F> Node(int t, F &f) : v(f()), tid(t) {} };
  std::atomic<Node *> head_{nullptr};
  std::function<T()> init_;
 public:
  enumerable_thread_specific() {}
  template <class F, class = decltype(std::declval<F>()())> explicit enumerable_thread_specific(F f) : init_(f) {}
  enumerable_thread_specific(const enumerable_thread_specific &) = delete;
  ~enumerable_thread_specific() { clear(); }
  void clear() { Node *n = head_.load(); head_ = nullptr; while (n) { Node *x = n->next.load(); n->~Node(); std::free(n); n = x; } }
  T &local() { bool e; return local(e); }
  T &local(bool &exists) {
    int t = sim_tid();
    for (Node *n = head_.load(std::memory_order_acquire); n; n = n->next.load(std::memory_order_acquire)) if (n->tid == t) { exists = true; return n->v; }
    exists = false;
    Node *m = make(t);
    std::atomic<Node *> *p = &head_;
    for (;;) { Node *e = nullptr; if (p->compare_exchange_strong(e, m)) break; p = &e->next; }
    return m->v;
  }
  struct iterator {
    typedef std::forward_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T *pointer; typedef T &reference;
    Node *n;
    T &operator*() const { return n->v; }
    T *operator->() const { return &n->v; }
    iterator &operator++() { n = n->next.load(std::memory_order_acquire); return *this; }
    iterator operator++(int) { iterator o = *this; ++*this; return o; }
    bool operator!=(const iterator &o) const { return n != o.n; }
    bool operator==(const iterator &o) const { return n == o.n; }
  };
  typedef iterator const_iterator;
  iterator begin() { return iterator{head_.load(std::memory_order_acquire)}; }
  iterator end() { return iterator{nullptr}; }
  iterator begin() const { return iterator{head_.load(std::memory_order_acquire)}; }
  iterator end() const { return iterator{nullptr}; }
  size_t size() const { size_t k = 0; for (Node *n = head_.load(); n; n = n->next.load()) k++; return k; }
  bool empty() const { return !size(); }
 private:
  Node *make(int t) { void *p = aligned_alloc(64, (sizeof(Node) + 63) & ~63ul); if (init_) return new (p) Node(t, init_); return new (p) Node(t); }
};
}  // namespace tbb
