# Generates the __tsan_* entry points (gcc -fsanitize=thread ABI) for our runtime.
out = []
w = out.append
w('// generated by gen_tsan.py: entry points of the -fsanitize=thread instrumentation ABI')
w('extern "C" {')
for n in (1, 2, 4, 8, 16):
    for k, wr in (("read", 0), ("write", 1)):
        for pre in ("", "unaligned_", "volatile_", "unaligned_volatile_"):
            name = f"__tsan_{pre}{k}{n}" if not pre.startswith("unaligned_v") else f"__tsan_unaligned_volatile_{k}{n}"
            w(f'void {name}(void* p) {{ access(p, {n}, {wr}, __builtin_return_address(0)); }}')
        w(f'void __tsan_{k}{n}_pc(void* p, void* pc) {{ access(p, {n}, {wr}, pc); }}')
w('void __tsan_read_range(void* p, unsigned long n) { access_range(p, n, 0, __builtin_return_address(0)); }')
w('void __tsan_write_range(void* p, unsigned long n) { access_range(p, n, 1, __builtin_return_address(0)); }')
w('void __tsan_vptr_read(void** p) { access(p, 8, 0, __builtin_return_address(0)); }')
w('void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, 1, __builtin_return_address(0)); }')
w('void __tsan_func_entry(void*) {} void __tsan_func_exit() {} void __tsan_init() {}')
w('void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}')
types = {8: "unsigned char", 16: "unsigned short", 32: "unsigned int", 64: "unsigned long", 128: "unsigned __int128"}
for b, t in types.items():
    P = f'const volatile void* p0'
    w(f'{t} __tsan_atomic{b}_load({P}, int mo) {{ auto p=(volatile {t}*)p0; A a((void*)p, {b//8}, 0, mo, __builtin_return_address(0)); {t} v = *p; a.acq(mo); return v; }}')
    w(f'void __tsan_atomic{b}_store(volatile void* p0, {t} v, int mo) {{ auto p=(volatile {t}*)p0; A a((void*)p, {b//8}, 1, mo, __builtin_return_address(0)); a.rel(mo); *p = v; }}')
    ops = {"exchange": "v", "fetch_add": "o + v", "fetch_sub": "o - v", "fetch_and": "o & v", "fetch_or": "o | v", "fetch_xor": "o ^ v", "fetch_nand": "~(o & v)"}
    for o, e in ops.items():
        w(f'{t} __tsan_atomic{b}_{o}(volatile void* p0, {t} v, int mo) {{ auto p=(volatile {t}*)p0; A a((void*)p, {b//8}, 1, mo, __builtin_return_address(0)); a.acq(mo); {t} o = *p; a.rel(mo); *p = ({t})({e}); return o; }}')
    for s in ("strong", "weak"):
        w(f'bool __tsan_atomic{b}_compare_exchange_{s}(volatile void* p0, void* c0, {t} v, int mo, int fmo) {{ auto p=(volatile {t}*)p0; auto c=({t}*)c0; A a((void*)p, {b//8}, 1, mo, __builtin_return_address(0)); if (*p == *c) {{ a.acq(mo); a.rel(mo); *p = v; return true; }} a.acq(fmo); *c = *p; return false; }}')
w('void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}')
w('}')
print("\n".join(out))
