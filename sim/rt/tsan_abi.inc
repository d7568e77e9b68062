// generated by gen_tsan.py: entry points of the -fsanitize=thread instrumentation ABI
extern "C" {
void __tsan_read1(void* p) { access(p, 1, 0, __builtin_return_address(0)); }
void __tsan_unaligned_read1(void* p) { access(p, 1, 0, __builtin_return_address(0)); }
void __tsan_volatile_read1(void* p) { access(p, 1, 0, __builtin_return_address(0)); }
void __tsan_unaligned_volatile_read1(void* p) { access(p, 1, 0, __builtin_return_address(0)); }
void __tsan_read1_pc(void* p, void* pc) { access(p, 1, 0, pc); }
void __tsan_write1(void* p) { access(p, 1, 1, __builtin_return_address(0)); }
void __tsan_unaligned_write1(void* p) { access(p, 1, 1, __builtin_return_address(0)); }
void __tsan_volatile_write1(void* p) { access(p, 1, 1, __builtin_return_address(0)); }
void __tsan_unaligned_volatile_write1(void* p) { access(p, 1, 1, __builtin_return_address(0)); }
void __tsan_write1_pc(void* p, void* pc) { access(p, 1, 1, pc); }
void __tsan_read2(void* p) { access(p, 2, 0, __builtin_return_address(0)); }
void __tsan_unaligned_read2(void* p) { access(p, 2, 0, __builtin_return_address(0)); }
void __tsan_volatile_read2(void* p) { access(p, 2, 0, __builtin_return_address(0)); }
void __tsan_unaligned_volatile_read2(void* p) { access(p, 2, 0, __builtin_return_address(0)); }
void __tsan_read2_pc(void* p, void* pc) { access(p, 2, 0, pc); }
void __tsan_write2(void* p) { access(p, 2, 1, __builtin_return_address(0)); }
void __tsan_unaligned_write2(void* p) { access(p, 2, 1, __builtin_return_address(0)); }
void __tsan_volatile_write2(void* p) { access(p, 2, 1, __builtin_return_address(0)); }
void __tsan_unaligned_volatile_write2(void* p) { access(p, 2, 1, __builtin_return_address(0)); }
void __tsan_write2_pc(void* p, void* pc) { access(p, 2, 1, pc); }
void __tsan_read4(void* p) { access(p, 4, 0, __builtin_return_address(0)); }
void __tsan_unaligned_read4(void* p) { access(p, 4, 0, __builtin_return_address(0)); }
void __tsan_volatile_read4(void* p) { access(p, 4, 0, __builtin_return_address(0)); }
void __tsan_unaligned_volatile_read4(void* p) { access(p, 4, 0, __builtin_return_address(0)); }
void __tsan_read4_pc(void* p, void* pc) { access(p, 4, 0, pc); }
void __tsan_write4(void* p) { access(p, 4, 1, __builtin_return_address(0)); }
void __tsan_unaligned_write4(void* p) { access(p, 4, 1, __builtin_return_address(0)); }
void __tsan_volatile_write4(void* p) { access(p, 4, 1, __builtin_return_address(0)); }
void __tsan_unaligned_volatile_write4(void* p) { access(p, 4, 1, __builtin_return_address(0)); }
void __tsan_write4_pc(void* p, void* pc) { access(p, 4, 1, pc); }
void __tsan_read8(void* p) { access(p, 8, 0, __builtin_return_address(0)); }
void __tsan_unaligned_read8(void* p) { access(p, 8, 0, __builtin_return_address(0)); }
void __tsan_volatile_read8(void* p) { access(p, 8, 0, __builtin_return_address(0)); }
void __tsan_unaligned_volatile_read8(void* p) { access(p, 8, 0, __builtin_return_address(0)); }
void __tsan_read8_pc(void* p, void* pc) { access(p, 8, 0, pc); }
void __tsan_write8(void* p) { access(p, 8, 1, __builtin_return_address(0)); }
void __tsan_unaligned_write8(void* p) { access(p, 8, 1, __builtin_return_address(0)); }
void __tsan_volatile_write8(void* p) { access(p, 8, 1, __builtin_return_address(0)); }
void __tsan_unaligned_volatile_write8(void* p) { access(p, 8, 1, __builtin_return_address(0)); }
void __tsan_write8_pc(void* p, void* pc) { access(p, 8, 1, pc); }
void __tsan_read16(void* p) { access(p, 16, 0, __builtin_return_address(0)); }
void __tsan_unaligned_read16(void* p) { access(p, 16, 0, __builtin_return_address(0)); }
void __tsan_volatile_read16(void* p) { access(p, 16, 0, __builtin_return_address(0)); }
void __tsan_unaligned_volatile_read16(void* p) { access(p, 16, 0, __builtin_return_address(0)); }
void __tsan_read16_pc(void* p, void* pc) { access(p, 16, 0, pc); }
void __tsan_write16(void* p) { access(p, 16, 1, __builtin_return_address(0)); }
void __tsan_unaligned_write16(void* p) { access(p, 16, 1, __builtin_return_address(0)); }
void __tsan_volatile_write16(void* p) { access(p, 16, 1, __builtin_return_address(0)); }
void __tsan_unaligned_volatile_write16(void* p) { access(p, 16, 1, __builtin_return_address(0)); }
void __tsan_write16_pc(void* p, void* pc) { access(p, 16, 1, pc); }
void __tsan_read_range(void* p, unsigned long n) { access_range(p, n, 0, __builtin_return_address(0)); }
void __tsan_write_range(void* p, unsigned long n) { access_range(p, n, 1, __builtin_return_address(0)); }
void __tsan_vptr_read(void** p) { access(p, 8, 0, __builtin_return_address(0)); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, 1, __builtin_return_address(0)); }
void __tsan_func_entry(void*) {} void __tsan_func_exit() {} void __tsan_init() {}
void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
unsigned char __tsan_atomic8_load(const volatile void* p0, int mo) { auto p=(volatile unsigned char*)p0; A a((void*)p, 1, 0, mo, __builtin_return_address(0)); unsigned char v = *p; a.acq(mo); return v; }
void __tsan_atomic8_store(volatile void* p0, unsigned char v, int mo) { auto p=(volatile unsigned char*)p0; A a((void*)p, 1, 1, mo, __builtin_return_address(0)); a.rel(mo); *p = v; }
unsigned char __tsan_atomic8_exchange(volatile void* p0, unsigned char v, int mo) { auto p=(volatile unsigned char*)p0; A a((void*)p, 1, 1, mo, __builtin_return_address(0)); a.acq(mo); unsigned char o = *p; a.rel(mo); *p = (unsigned char)(v); return o; }
unsigned char __tsan_atomic8_fetch_add(volatile void* p0, unsigned char v, int mo) { auto p=(volatile unsigned char*)p0; A a((void*)p, 1, 1, mo, __builtin_return_address(0)); a.acq(mo); unsigned char o = *p; a.rel(mo); *p = (unsigned char)(o + v); return o; }
unsigned char __tsan_atomic8_fetch_sub(volatile void* p0, unsigned char v, int mo) { auto p=(volatile unsigned char*)p0; A a((void*)p, 1, 1, mo, __builtin_return_address(0)); a.acq(mo); unsigned char o = *p; a.rel(mo); *p = (unsigned char)(o - v); return o; }
unsigned char __tsan_atomic8_fetch_and(volatile void* p0, unsigned char v, int mo) { auto p=(volatile unsigned char*)p0; A a((void*)p, 1, 1, mo, __builtin_return_address(0)); a.acq(mo); unsigned char o = *p; a.rel(mo); *p = (unsigned char)(o & v); return o; }
unsigned char __tsan_atomic8_fetch_or(volatile void* p0, unsigned char v, int mo) { auto p=(volatile unsigned char*)p0; A a((void*)p, 1, 1, mo, __builtin_return_address(0)); a.acq(mo); unsigned char o = *p; a.rel(mo); *p = (unsigned char)(o | v); return o; }
unsigned char __tsan_atomic8_fetch_xor(volatile void* p0, unsigned char v, int mo) { auto p=(volatile unsigned char*)p0; A a((void*)p, 1, 1, mo, __builtin_return_address(0)); a.acq(mo); unsigned char o = *p; a.rel(mo); *p = (unsigned char)(o ^ v); return o; }
unsigned char __tsan_atomic8_fetch_nand(volatile void* p0, unsigned char v, int mo) { auto p=(volatile unsigned char*)p0; A a((void*)p, 1, 1, mo, __builtin_return_address(0)); a.acq(mo); unsigned char o = *p; a.rel(mo); *p = (unsigned char)(~(o & v)); return o; }
bool __tsan_atomic8_compare_exchange_strong(volatile void* p0, void* c0, unsigned char v, int mo, int fmo) { auto p=(volatile unsigned char*)p0; auto c=(unsigned char*)c0; A a((void*)p, 1, 1, mo, __builtin_return_address(0)); if (*p == *c) { a.acq(mo); a.rel(mo); *p = v; return true; } a.acq(fmo); *c = *p; return false; }
bool __tsan_atomic8_compare_exchange_weak(volatile void* p0, void* c0, unsigned char v, int mo, int fmo) { auto p=(volatile unsigned char*)p0; auto c=(unsigned char*)c0; A a((void*)p, 1, 1, mo, __builtin_return_address(0)); if (*p == *c) { a.acq(mo); a.rel(mo); *p = v; return true; } a.acq(fmo); *c = *p; return false; }
unsigned short __tsan_atomic16_load(const volatile void* p0, int mo) { auto p=(volatile unsigned short*)p0; A a((void*)p, 2, 0, mo, __builtin_return_address(0)); unsigned short v = *p; a.acq(mo); return v; }
void __tsan_atomic16_store(volatile void* p0, unsigned short v, int mo) { auto p=(volatile unsigned short*)p0; A a((void*)p, 2, 1, mo, __builtin_return_address(0)); a.rel(mo); *p = v; }
unsigned short __tsan_atomic16_exchange(volatile void* p0, unsigned short v, int mo) { auto p=(volatile unsigned short*)p0; A a((void*)p, 2, 1, mo, __builtin_return_address(0)); a.acq(mo); unsigned short o = *p; a.rel(mo); *p = (unsigned short)(v); return o; }
unsigned short __tsan_atomic16_fetch_add(volatile void* p0, unsigned short v, int mo) { auto p=(volatile unsigned short*)p0; A a((void*)p, 2, 1, mo, __builtin_return_address(0)); a.acq(mo); unsigned short o = *p; a.rel(mo); *p = (unsigned short)(o + v); return o; }
unsigned short __tsan_atomic16_fetch_sub(volatile void* p0, unsigned short v, int mo) { auto p=(volatile unsigned short*)p0; A a((void*)p, 2, 1, mo, __builtin_return_address(0)); a.acq(mo); unsigned short o = *p; a.rel(mo); *p = (unsigned short)(o - v); return o; }
unsigned short __tsan_atomic16_fetch_and(volatile void* p0, unsigned short v, int mo) { auto p=(volatile unsigned short*)p0; A a((void*)p, 2, 1, mo, __builtin_return_address(0)); a.acq(mo); unsigned short o = *p; a.rel(mo); *p = (unsigned short)(o & v); return o; }
unsigned short __tsan_atomic16_fetch_or(volatile void* p0, unsigned short v, int mo) { auto p=(volatile unsigned short*)p0; A a((void*)p, 2, 1, mo, __builtin_return_address(0)); a.acq(mo); unsigned short o = *p; a.rel(mo); *p = (unsigned short)(o | v); return o; }
unsigned short __tsan_atomic16_fetch_xor(volatile void* p0, unsigned short v, int mo) { auto p=(volatile unsigned short*)p0; A a((void*)p, 2, 1, mo, __builtin_return_address(0)); a.acq(mo); unsigned short o = *p; a.rel(mo); *p = (unsigned short)(o ^ v); return o; }
unsigned short __tsan_atomic16_fetch_nand(volatile void* p0, unsigned short v, int mo) { auto p=(volatile unsigned short*)p0; A a((void*)p, 2, 1, mo, __builtin_return_address(0)); a.acq(mo); unsigned short o = *p; a.rel(mo); *p = (unsigned short)(~(o & v)); return o; }
bool __tsan_atomic16_compare_exchange_strong(volatile void* p0, void* c0, unsigned short v, int mo, int fmo) { auto p=(volatile unsigned short*)p0; auto c=(unsigned short*)c0; A a((void*)p, 2, 1, mo, __builtin_return_address(0)); if (*p == *c) { a.acq(mo); a.rel(mo); *p = v; return true; } a.acq(fmo); *c = *p; return false; }
bool __tsan_atomic16_compare_exchange_weak(volatile void* p0, void* c0, unsigned short v, int mo, int fmo) { auto p=(volatile unsigned short*)p0; auto c=(unsigned short*)c0; A a((void*)p, 2, 1, mo, __builtin_return_address(0)); if (*p == *c) { a.acq(mo); a.rel(mo); *p = v; return true; } a.acq(fmo); *c = *p; return false; }
unsigned int __tsan_atomic32_load(const volatile void* p0, int mo) { auto p=(volatile unsigned int*)p0; A a((void*)p, 4, 0, mo, __builtin_return_address(0)); unsigned int v = *p; a.acq(mo); return v; }
void __tsan_atomic32_store(volatile void* p0, unsigned int v, int mo) { auto p=(volatile unsigned int*)p0; A a((void*)p, 4, 1, mo, __builtin_return_address(0)); a.rel(mo); *p = v; }
unsigned int __tsan_atomic32_exchange(volatile void* p0, unsigned int v, int mo) { auto p=(volatile unsigned int*)p0; A a((void*)p, 4, 1, mo, __builtin_return_address(0)); a.acq(mo); unsigned int o = *p; a.rel(mo); *p = (unsigned int)(v); return o; }
unsigned int __tsan_atomic32_fetch_add(volatile void* p0, unsigned int v, int mo) { auto p=(volatile unsigned int*)p0; A a((void*)p, 4, 1, mo, __builtin_return_address(0)); a.acq(mo); unsigned int o = *p; a.rel(mo); *p = (unsigned int)(o + v); return o; }
unsigned int __tsan_atomic32_fetch_sub(volatile void* p0, unsigned int v, int mo) { auto p=(volatile unsigned int*)p0; A a((void*)p, 4, 1, mo, __builtin_return_address(0)); a.acq(mo); unsigned int o = *p; a.rel(mo); *p = (unsigned int)(o - v); return o; }
unsigned int __tsan_atomic32_fetch_and(volatile void* p0, unsigned int v, int mo) { auto p=(volatile unsigned int*)p0; A a((void*)p, 4, 1, mo, __builtin_return_address(0)); a.acq(mo); unsigned int o = *p; a.rel(mo); *p = (unsigned int)(o & v); return o; }
unsigned int __tsan_atomic32_fetch_or(volatile void* p0, unsigned int v, int mo) { auto p=(volatile unsigned int*)p0; A a((void*)p, 4, 1, mo, __builtin_return_address(0)); a.acq(mo); unsigned int o = *p; a.rel(mo); *p = (unsigned int)(o | v); return o; }
unsigned int __tsan_atomic32_fetch_xor(volatile void* p0, unsigned int v, int mo) { auto p=(volatile unsigned int*)p0; A a((void*)p, 4, 1, mo, __builtin_return_address(0)); a.acq(mo); unsigned int o = *p; a.rel(mo); *p = (unsigned int)(o ^ v); return o; }
unsigned int __tsan_atomic32_fetch_nand(volatile void* p0, unsigned int v, int mo) { auto p=(volatile unsigned int*)p0; A a((void*)p, 4, 1, mo, __builtin_return_address(0)); a.acq(mo); unsigned int o = *p; a.rel(mo); *p = (unsigned int)(~(o & v)); return o; }
bool __tsan_atomic32_compare_exchange_strong(volatile void* p0, void* c0, unsigned int v, int mo, int fmo) { auto p=(volatile unsigned int*)p0; auto c=(unsigned int*)c0; A a((void*)p, 4, 1, mo, __builtin_return_address(0)); if (*p == *c) { a.acq(mo); a.rel(mo); *p = v; return true; } a.acq(fmo); *c = *p; return false; }
bool __tsan_atomic32_compare_exchange_weak(volatile void* p0, void* c0, unsigned int v, int mo, int fmo) { auto p=(volatile unsigned int*)p0; auto c=(unsigned int*)c0; A a((void*)p, 4, 1, mo, __builtin_return_address(0)); if (*p == *c) { a.acq(mo); a.rel(mo); *p = v; return true; } a.acq(fmo); *c = *p; return false; }
unsigned long __tsan_atomic64_load(const volatile void* p0, int mo) { auto p=(volatile unsigned long*)p0; A a((void*)p, 8, 0, mo, __builtin_return_address(0)); unsigned long v = *p; a.acq(mo); return v; }
void __tsan_atomic64_store(volatile void* p0, unsigned long v, int mo) { auto p=(volatile unsigned long*)p0; A a((void*)p, 8, 1, mo, __builtin_return_address(0)); a.rel(mo); *p = v; }
unsigned long __tsan_atomic64_exchange(volatile void* p0, unsigned long v, int mo) { auto p=(volatile unsigned long*)p0; A a((void*)p, 8, 1, mo, __builtin_return_address(0)); a.acq(mo); unsigned long o = *p; a.rel(mo); *p = (unsigned long)(v); return o; }
unsigned long __tsan_atomic64_fetch_add(volatile void* p0, unsigned long v, int mo) { auto p=(volatile unsigned long*)p0; A a((void*)p, 8, 1, mo, __builtin_return_address(0)); a.acq(mo); unsigned long o = *p; a.rel(mo); *p = (unsigned long)(o + v); return o; }
unsigned long __tsan_atomic64_fetch_sub(volatile void* p0, unsigned long v, int mo) { auto p=(volatile unsigned long*)p0; A a((void*)p, 8, 1, mo, __builtin_return_address(0)); a.acq(mo); unsigned long o = *p; a.rel(mo); *p = (unsigned long)(o - v); return o; }
unsigned long __tsan_atomic64_fetch_and(volatile void* p0, unsigned long v, int mo) { auto p=(volatile unsigned long*)p0; A a((void*)p, 8, 1, mo, __builtin_return_address(0)); a.acq(mo); unsigned long o = *p; a.rel(mo); *p = (unsigned long)(o & v); return o; }
unsigned long __tsan_atomic64_fetch_or(volatile void* p0, unsigned long v, int mo) { auto p=(volatile unsigned long*)p0; A a((void*)p, 8, 1, mo, __builtin_return_address(0)); a.acq(mo); unsigned long o = *p; a.rel(mo); *p = (unsigned long)(o | v); return o; }
unsigned long __tsan_atomic64_fetch_xor(volatile void* p0, unsigned long v, int mo) { auto p=(volatile unsigned long*)p0; A a((void*)p, 8, 1, mo, __builtin_return_address(0)); a.acq(mo); unsigned long o = *p; a.rel(mo); *p = (unsigned long)(o ^ v); return o; }
unsigned long __tsan_atomic64_fetch_nand(volatile void* p0, unsigned long v, int mo) { auto p=(volatile unsigned long*)p0; A a((void*)p, 8, 1, mo, __builtin_return_address(0)); a.acq(mo); unsigned long o = *p; a.rel(mo); *p = (unsigned long)(~(o & v)); return o; }
bool __tsan_atomic64_compare_exchange_strong(volatile void* p0, void* c0, unsigned long v, int mo, int fmo) { auto p=(volatile unsigned long*)p0; auto c=(unsigned long*)c0; A a((void*)p, 8, 1, mo, __builtin_return_address(0)); if (*p == *c) { a.acq(mo); a.rel(mo); *p = v; return true; } a.acq(fmo); *c = *p; return false; }
bool __tsan_atomic64_compare_exchange_weak(volatile void* p0, void* c0, unsigned long v, int mo, int fmo) { auto p=(volatile unsigned long*)p0; auto c=(unsigned long*)c0; A a((void*)p, 8, 1, mo, __builtin_return_address(0)); if (*p == *c) { a.acq(mo); a.rel(mo); *p = v; return true; } a.acq(fmo); *c = *p; return false; }
unsigned __int128 __tsan_atomic128_load(const volatile void* p0, int mo) { auto p=(volatile unsigned __int128*)p0; A a((void*)p, 16, 0, mo, __builtin_return_address(0)); unsigned __int128 v = *p; a.acq(mo); return v; }
void __tsan_atomic128_store(volatile void* p0, unsigned __int128 v, int mo) { auto p=(volatile unsigned __int128*)p0; A a((void*)p, 16, 1, mo, __builtin_return_address(0)); a.rel(mo); *p = v; }
unsigned __int128 __tsan_atomic128_exchange(volatile void* p0, unsigned __int128 v, int mo) { auto p=(volatile unsigned __int128*)p0; A a((void*)p, 16, 1, mo, __builtin_return_address(0)); a.acq(mo); unsigned __int128 o = *p; a.rel(mo); *p = (unsigned __int128)(v); return o; }
unsigned __int128 __tsan_atomic128_fetch_add(volatile void* p0, unsigned __int128 v, int mo) { auto p=(volatile unsigned __int128*)p0; A a((void*)p, 16, 1, mo, __builtin_return_address(0)); a.acq(mo); unsigned __int128 o = *p; a.rel(mo); *p = (unsigned __int128)(o + v); return o; }
unsigned __int128 __tsan_atomic128_fetch_sub(volatile void* p0, unsigned __int128 v, int mo) { auto p=(volatile unsigned __int128*)p0; A a((void*)p, 16, 1, mo, __builtin_return_address(0)); a.acq(mo); unsigned __int128 o = *p; a.rel(mo); *p = (unsigned __int128)(o - v); return o; }
unsigned __int128 __tsan_atomic128_fetch_and(volatile void* p0, unsigned __int128 v, int mo) { auto p=(volatile unsigned __int128*)p0; A a((void*)p, 16, 1, mo, __builtin_return_address(0)); a.acq(mo); unsigned __int128 o = *p; a.rel(mo); *p = (unsigned __int128)(o & v); return o; }
unsigned __int128 __tsan_atomic128_fetch_or(volatile void* p0, unsigned __int128 v, int mo) { auto p=(volatile unsigned __int128*)p0; A a((void*)p, 16, 1, mo, __builtin_return_address(0)); a.acq(mo); unsigned __int128 o = *p; a.rel(mo); *p = (unsigned __int128)(o | v); return o; }
unsigned __int128 __tsan_atomic128_fetch_xor(volatile void* p0, unsigned __int128 v, int mo) { auto p=(volatile unsigned __int128*)p0; A a((void*)p, 16, 1, mo, __builtin_return_address(0)); a.acq(mo); unsigned __int128 o = *p; a.rel(mo); *p = (unsigned __int128)(o ^ v); return o; }
unsigned __int128 __tsan_atomic128_fetch_nand(volatile void* p0, unsigned __int128 v, int mo) { auto p=(volatile unsigned __int128*)p0; A a((void*)p, 16, 1, mo, __builtin_return_address(0)); a.acq(mo); unsigned __int128 o = *p; a.rel(mo); *p = (unsigned __int128)(~(o & v)); return o; }
bool __tsan_atomic128_compare_exchange_strong(volatile void* p0, void* c0, unsigned __int128 v, int mo, int fmo) { auto p=(volatile unsigned __int128*)p0; auto c=(unsigned __int128*)c0; A a((void*)p, 16, 1, mo, __builtin_return_address(0)); if (*p == *c) { a.acq(mo); a.rel(mo); *p = v; return true; } a.acq(fmo); *c = *p; return false; }
bool __tsan_atomic128_compare_exchange_weak(volatile void* p0, void* c0, unsigned __int128 v, int mo, int fmo) { auto p=(volatile unsigned __int128*)p0; auto c=(unsigned __int128*)c0; A a((void*)p, 16, 1, mo, __builtin_return_address(0)); if (*p == *c) { a.acq(mo); a.rel(mo); *p = v; return true; } a.acq(fmo); *c = *p; return false; }
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}
