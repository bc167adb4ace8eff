// Own run-time for code compiled with -fsanitize=thread: every memory access and atomic operation
// of the library becomes a simulator event.  The compiler's thread sanitizer run-time is not linked.
#include <cstddef>
#include <cstdint>
#include <cstring>
namespace sim {
bool Instrumented() { return true; }
void MemAccess(uintptr_t a, size_t n, bool write, void* pc);
void AtomicPoint(const volatile void* a, int mode);
}
using namespace sim;
#define PC __builtin_return_address(0)
#define A(p) reinterpret_cast<uintptr_t>(p)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { MemAccess(A(p), 8, true, PC); }
void __tsan_vptr_read(void** p) { MemAccess(A(p), 8, false, PC); }
void __tsan_read_range(void* p, size_t n) { if (n) MemAccess(A(p), n, false, PC); }
void __tsan_write_range(void* p, size_t n) { if (n) MemAccess(A(p), n, true, PC); }
#define RW(N) \
  void __tsan_read##N(void* p) { MemAccess(A(p), N, false, PC); } \
  void __tsan_write##N(void* p) { MemAccess(A(p), N, true, PC); } \
  void __tsan_unaligned_read##N(void* p) { MemAccess(A(p), N, false, PC); } \
  void __tsan_unaligned_write##N(void* p) { MemAccess(A(p), N, true, PC); } \
  void __tsan_volatile_read##N(void* p) { MemAccess(A(p), N, false, PC); } \
  void __tsan_volatile_write##N(void* p) { MemAccess(A(p), N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define AT(N, T) \
  T __tsan_atomic##N##_load(const volatile T* a, int) { AtomicPoint(a, 1); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##N##_store(volatile T* a, T v, int) { AtomicPoint(a, 2); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_exchange(volatile T* a, T v, int) { AtomicPoint(a, 3); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int) { AtomicPoint(a, 3); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int) { AtomicPoint(a, 3); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int) { AtomicPoint(a, 3); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int) { AtomicPoint(a, 3); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int) { AtomicPoint(a, 3); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int) { AtomicPoint(a, 3); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { AtomicPoint(a, 3); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { AtomicPoint(a, 3); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int, int) { AtomicPoint(a, 3); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
