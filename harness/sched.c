/* Points at which a process may be preempted: with the variant "sched" of the
 * library (compiled with -fsanitize=thread, whose run-time functions are the
 * ones below) every access to shared memory is one. */
#define _GNU_SOURCE
#include "sim.h"
#include <string.h>
#pragma GCC diagnostic ignored "-Wbuiltin-declaration-mismatch"
int sim_is_shared(const void *a); void sim_point(void);
#define PT(a) do { if (sim_conc && sim_is_shared((const void*)(a))) sim_point(); } while (0)
void __tsan_init(void) {} void __tsan_func_entry(void *p) { (void)p; } void __tsan_func_exit(void) {}
void __tsan_vptr_update(void *a, void *b) { (void)a; (void)b; } void __tsan_vptr_read(void *a) { (void)a; }
void __tsan_read_range(void *a, unsigned long n) { (void)n; PT(a); } void __tsan_write_range(void *a, unsigned long n) { (void)n; PT(a); }
#include <sched.h>
void __tsan_atomic_thread_fence(int mo) { (void)mo; sched_yield(); } void __tsan_atomic_signal_fence(int mo) { (void)mo; }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { PT(d); PT(s); return memcpy(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { PT(d); return memset(d, c, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { PT(d); PT(s); return memmove(d, s, n); }
void __tsan_read1(void *a) { PT(a); }
void __tsan_unaligned_read1(void *a) { PT(a); }
void __tsan_volatile_read1(void *a) { PT(a); }
void __tsan_unaligned_volatile_read1(void *a) { PT(a); }
void __tsan_read1_pc(void *a, void *pc) { (void)pc; PT(a); }
void __tsan_read2(void *a) { PT(a); }
void __tsan_unaligned_read2(void *a) { PT(a); }
void __tsan_volatile_read2(void *a) { PT(a); }
void __tsan_unaligned_volatile_read2(void *a) { PT(a); }
void __tsan_read2_pc(void *a, void *pc) { (void)pc; PT(a); }
void __tsan_read4(void *a) { PT(a); }
void __tsan_unaligned_read4(void *a) { PT(a); }
void __tsan_volatile_read4(void *a) { PT(a); }
void __tsan_unaligned_volatile_read4(void *a) { PT(a); }
void __tsan_read4_pc(void *a, void *pc) { (void)pc; PT(a); }
void __tsan_read8(void *a) { PT(a); }
void __tsan_unaligned_read8(void *a) { PT(a); }
void __tsan_volatile_read8(void *a) { PT(a); }
void __tsan_unaligned_volatile_read8(void *a) { PT(a); }
void __tsan_read8_pc(void *a, void *pc) { (void)pc; PT(a); }
void __tsan_read16(void *a) { PT(a); }
void __tsan_unaligned_read16(void *a) { PT(a); }
void __tsan_volatile_read16(void *a) { PT(a); }
void __tsan_unaligned_volatile_read16(void *a) { PT(a); }
void __tsan_read16_pc(void *a, void *pc) { (void)pc; PT(a); }
void __tsan_write1(void *a) { PT(a); }
void __tsan_unaligned_write1(void *a) { PT(a); }
void __tsan_volatile_write1(void *a) { PT(a); }
void __tsan_unaligned_volatile_write1(void *a) { PT(a); }
void __tsan_write1_pc(void *a, void *pc) { (void)pc; PT(a); }
void __tsan_write2(void *a) { PT(a); }
void __tsan_unaligned_write2(void *a) { PT(a); }
void __tsan_volatile_write2(void *a) { PT(a); }
void __tsan_unaligned_volatile_write2(void *a) { PT(a); }
void __tsan_write2_pc(void *a, void *pc) { (void)pc; PT(a); }
void __tsan_write4(void *a) { PT(a); }
void __tsan_unaligned_write4(void *a) { PT(a); }
void __tsan_volatile_write4(void *a) { PT(a); }
void __tsan_unaligned_volatile_write4(void *a) { PT(a); }
void __tsan_write4_pc(void *a, void *pc) { (void)pc; PT(a); }
void __tsan_write8(void *a) { PT(a); }
void __tsan_unaligned_write8(void *a) { PT(a); }
void __tsan_volatile_write8(void *a) { PT(a); }
void __tsan_unaligned_volatile_write8(void *a) { PT(a); }
void __tsan_write8_pc(void *a, void *pc) { (void)pc; PT(a); }
void __tsan_write16(void *a) { PT(a); }
void __tsan_unaligned_write16(void *a) { PT(a); }
void __tsan_volatile_write16(void *a) { PT(a); }
void __tsan_unaligned_volatile_write16(void *a) { PT(a); }
void __tsan_write16_pc(void *a, void *pc) { (void)pc; PT(a); }
unsigned char __tsan_atomic8_load(const volatile unsigned char *a, int mo) { PT(a); return __atomic_load_n(a, 5); }
void __tsan_atomic8_store(volatile unsigned char *a, unsigned char v, int mo) { PT(a); __atomic_store_n(a, v, 5); }
unsigned char __tsan_atomic8_exchange(volatile unsigned char *a, unsigned char v, int mo) { PT(a); return __atomic_exchange_n(a, v, 5); }
unsigned char __tsan_atomic8_fetch_add(volatile unsigned char *a, unsigned char v, int mo) { PT(a); return __atomic_fetch_add(a, v, 5); }
unsigned char __tsan_atomic8_fetch_sub(volatile unsigned char *a, unsigned char v, int mo) { PT(a); return __atomic_fetch_sub(a, v, 5); }
unsigned char __tsan_atomic8_fetch_and(volatile unsigned char *a, unsigned char v, int mo) { PT(a); return __atomic_fetch_and(a, v, 5); }
unsigned char __tsan_atomic8_fetch_or(volatile unsigned char *a, unsigned char v, int mo) { PT(a); return __atomic_fetch_or(a, v, 5); }
unsigned char __tsan_atomic8_fetch_xor(volatile unsigned char *a, unsigned char v, int mo) { PT(a); return __atomic_fetch_xor(a, v, 5); }
unsigned char __tsan_atomic8_fetch_nand(volatile unsigned char *a, unsigned char v, int mo) { PT(a); return __atomic_fetch_nand(a, v, 5); }
int __tsan_atomic8_compare_exchange_strong(volatile unsigned char *a, unsigned char *c, unsigned char v, int mo, int fmo) { PT(a); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); }
int __tsan_atomic8_compare_exchange_weak(volatile unsigned char *a, unsigned char *c, unsigned char v, int mo, int fmo) { PT(a); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); }
unsigned char __tsan_atomic8_compare_exchange_val(volatile unsigned char *a, unsigned char c, unsigned char v, int mo, int fmo) { PT(a); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
unsigned short __tsan_atomic16_load(const volatile unsigned short *a, int mo) { PT(a); return __atomic_load_n(a, 5); }
void __tsan_atomic16_store(volatile unsigned short *a, unsigned short v, int mo) { PT(a); __atomic_store_n(a, v, 5); }
unsigned short __tsan_atomic16_exchange(volatile unsigned short *a, unsigned short v, int mo) { PT(a); return __atomic_exchange_n(a, v, 5); }
unsigned short __tsan_atomic16_fetch_add(volatile unsigned short *a, unsigned short v, int mo) { PT(a); return __atomic_fetch_add(a, v, 5); }
unsigned short __tsan_atomic16_fetch_sub(volatile unsigned short *a, unsigned short v, int mo) { PT(a); return __atomic_fetch_sub(a, v, 5); }
unsigned short __tsan_atomic16_fetch_and(volatile unsigned short *a, unsigned short v, int mo) { PT(a); return __atomic_fetch_and(a, v, 5); }
unsigned short __tsan_atomic16_fetch_or(volatile unsigned short *a, unsigned short v, int mo) { PT(a); return __atomic_fetch_or(a, v, 5); }
unsigned short __tsan_atomic16_fetch_xor(volatile unsigned short *a, unsigned short v, int mo) { PT(a); return __atomic_fetch_xor(a, v, 5); }
unsigned short __tsan_atomic16_fetch_nand(volatile unsigned short *a, unsigned short v, int mo) { PT(a); return __atomic_fetch_nand(a, v, 5); }
int __tsan_atomic16_compare_exchange_strong(volatile unsigned short *a, unsigned short *c, unsigned short v, int mo, int fmo) { PT(a); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); }
int __tsan_atomic16_compare_exchange_weak(volatile unsigned short *a, unsigned short *c, unsigned short v, int mo, int fmo) { PT(a); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); }
unsigned short __tsan_atomic16_compare_exchange_val(volatile unsigned short *a, unsigned short c, unsigned short v, int mo, int fmo) { PT(a); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
unsigned int __tsan_atomic32_load(const volatile unsigned int *a, int mo) { PT(a); return __atomic_load_n(a, 5); }
void __tsan_atomic32_store(volatile unsigned int *a, unsigned int v, int mo) { PT(a); __atomic_store_n(a, v, 5); }
unsigned int __tsan_atomic32_exchange(volatile unsigned int *a, unsigned int v, int mo) { PT(a); return __atomic_exchange_n(a, v, 5); }
unsigned int __tsan_atomic32_fetch_add(volatile unsigned int *a, unsigned int v, int mo) { PT(a); return __atomic_fetch_add(a, v, 5); }
unsigned int __tsan_atomic32_fetch_sub(volatile unsigned int *a, unsigned int v, int mo) { PT(a); return __atomic_fetch_sub(a, v, 5); }
unsigned int __tsan_atomic32_fetch_and(volatile unsigned int *a, unsigned int v, int mo) { PT(a); return __atomic_fetch_and(a, v, 5); }
unsigned int __tsan_atomic32_fetch_or(volatile unsigned int *a, unsigned int v, int mo) { PT(a); return __atomic_fetch_or(a, v, 5); }
unsigned int __tsan_atomic32_fetch_xor(volatile unsigned int *a, unsigned int v, int mo) { PT(a); return __atomic_fetch_xor(a, v, 5); }
unsigned int __tsan_atomic32_fetch_nand(volatile unsigned int *a, unsigned int v, int mo) { PT(a); return __atomic_fetch_nand(a, v, 5); }
int __tsan_atomic32_compare_exchange_strong(volatile unsigned int *a, unsigned int *c, unsigned int v, int mo, int fmo) { PT(a); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); }
int __tsan_atomic32_compare_exchange_weak(volatile unsigned int *a, unsigned int *c, unsigned int v, int mo, int fmo) { PT(a); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); }
unsigned int __tsan_atomic32_compare_exchange_val(volatile unsigned int *a, unsigned int c, unsigned int v, int mo, int fmo) { PT(a); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
unsigned long __tsan_atomic64_load(const volatile unsigned long *a, int mo) { PT(a); return __atomic_load_n(a, 5); }
void __tsan_atomic64_store(volatile unsigned long *a, unsigned long v, int mo) { PT(a); __atomic_store_n(a, v, 5); }
unsigned long __tsan_atomic64_exchange(volatile unsigned long *a, unsigned long v, int mo) { PT(a); return __atomic_exchange_n(a, v, 5); }
unsigned long __tsan_atomic64_fetch_add(volatile unsigned long *a, unsigned long v, int mo) { PT(a); return __atomic_fetch_add(a, v, 5); }
unsigned long __tsan_atomic64_fetch_sub(volatile unsigned long *a, unsigned long v, int mo) { PT(a); return __atomic_fetch_sub(a, v, 5); }
unsigned long __tsan_atomic64_fetch_and(volatile unsigned long *a, unsigned long v, int mo) { PT(a); return __atomic_fetch_and(a, v, 5); }
unsigned long __tsan_atomic64_fetch_or(volatile unsigned long *a, unsigned long v, int mo) { PT(a); return __atomic_fetch_or(a, v, 5); }
unsigned long __tsan_atomic64_fetch_xor(volatile unsigned long *a, unsigned long v, int mo) { PT(a); return __atomic_fetch_xor(a, v, 5); }
unsigned long __tsan_atomic64_fetch_nand(volatile unsigned long *a, unsigned long v, int mo) { PT(a); return __atomic_fetch_nand(a, v, 5); }
int __tsan_atomic64_compare_exchange_strong(volatile unsigned long *a, unsigned long *c, unsigned long v, int mo, int fmo) { PT(a); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); }
int __tsan_atomic64_compare_exchange_weak(volatile unsigned long *a, unsigned long *c, unsigned long v, int mo, int fmo) { PT(a); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); }
unsigned long __tsan_atomic64_compare_exchange_val(volatile unsigned long *a, unsigned long c, unsigned long v, int mo, int fmo) { PT(a); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
