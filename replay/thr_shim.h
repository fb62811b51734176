// Forced in front of every C++ file of the thread replay driver: atomics and mutexes of the code under test call into a
// cooperative scheduler, so that a given interleaving can be replayed deterministically.
#pragma once
#include <atomic>
#include <condition_variable>
#include <future>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <gmpxx.h>
#include <boost/intrusive_ptr.hpp>
#include <boost/operators.hpp>
extern "C" void vp_point(void);
extern "C" void vp_lock(void *);
extern "C" bool vp_try_lock(void *);
extern "C" void vp_unlock(void *);
namespace std {
template <class T> struct vp_atomic : atomic<T> {
  typedef atomic<T> B;
  vp_atomic() noexcept = default;
  constexpr vp_atomic(T v) noexcept : B(v) {}
  vp_atomic(const vp_atomic &) = delete;
  T load(memory_order m = memory_order_seq_cst) const noexcept { vp_point(); return B::load(m); }
  void store(T v, memory_order m = memory_order_seq_cst) noexcept { vp_point(); B::store(v, m); }
  T exchange(T v, memory_order m = memory_order_seq_cst) noexcept { vp_point(); return B::exchange(v, m); }
  template <class U> T fetch_add(U v, memory_order m = memory_order_seq_cst) noexcept { vp_point(); return B::fetch_add(v, m); }
  template <class U> T fetch_sub(U v, memory_order m = memory_order_seq_cst) noexcept { vp_point(); return B::fetch_sub(v, m); }
  bool compare_exchange_weak(T &e, T v, memory_order a = memory_order_seq_cst) noexcept { vp_point(); return B::compare_exchange_strong(e, v, a); }
  bool compare_exchange_weak(T &e, T v, memory_order a, memory_order b) noexcept { vp_point(); return B::compare_exchange_strong(e, v, a, b); }
  bool compare_exchange_strong(T &e, T v, memory_order a = memory_order_seq_cst) noexcept { vp_point(); return B::compare_exchange_strong(e, v, a); }
  bool compare_exchange_strong(T &e, T v, memory_order a, memory_order b) noexcept { vp_point(); return B::compare_exchange_strong(e, v, a, b); }
  operator T() const noexcept { return load(); }
  T operator=(T v) noexcept { store(v); return v; }
  template <class U> T operator+=(U v) noexcept { return fetch_add(v) + v; }
  template <class U> T operator-=(U v) noexcept { return fetch_sub(v) - v; }
  T operator++() noexcept { return fetch_add(1) + 1; }
  T operator--() noexcept { return fetch_sub(1) - 1; }
  T operator++(int) noexcept { return fetch_add(1); }
  T operator--(int) noexcept { return fetch_sub(1); }
};
struct vp_mutex {
  constexpr vp_mutex() noexcept : x(0) {}
  vp_mutex(const vp_mutex &) = delete;
  void lock() { vp_lock(this); }
  bool try_lock() { return vp_try_lock(this); }
  void unlock() { vp_unlock(this); }
  int x;
};
struct vp_shared_mutex : vp_mutex { void lock_shared() { lock(); } bool try_lock_shared() { return try_lock(); } void unlock_shared() { unlock(); } };
}
#define atomic vp_atomic
#define mutex vp_mutex
#define timed_mutex vp_mutex
#define shared_mutex vp_shared_mutex
