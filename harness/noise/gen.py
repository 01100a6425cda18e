out=[]
p=out.append
p('''#define _GNU_SOURCE
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <stdio.h>
static uint64_t g_seed=0; static uint32_t g_yield=0,g_sleep=0,g_us=0; static int g_on=0; static uint64_t g_tid=0; static uint64_t g_ops=0,g_noise=0;
static __thread uint64_t st=0, mine=0;
static void dump(void){const char*e=getenv("NOISE_LOG"); if(e){FILE*f=fopen(e,"w"); if(f){fprintf(f,"%llu %llu %llu\\n",(unsigned long long)g_ops,(unsigned long long)g_noise,(unsigned long long)g_tid);fclose(f);}}}
static void init(void){ const char*e=getenv("NOISE_SEED"); if(!e) return; g_seed=strtoull(e,0,10);
 e=getenv("NOISE_YIELD"); g_yield=e?atoi(e):50; e=getenv("NOISE_SLEEP"); g_sleep=e?atoi(e):5; e=getenv("NOISE_US"); g_us=e?atoi(e):200; g_on=1; atexit(dump);}
static inline uint64_t rnd(void){ uint64_t x=st; x^=x<<13;x^=x>>7;x^=x<<17; st=x; return x; }
static __thread int busy=0;
static __attribute__((noinline)) void noise(void){ if(!g_on||busy) return; busy=1;
 if(!st){ uint64_t t=__atomic_add_fetch(&g_tid,1,__ATOMIC_RELAXED); st=(g_seed+1)*0x9E3779B97F4A7C15ull ^ (t*0xD1B54A32D192ED03ull); if(!st)st=1; rnd();rnd();}
 __atomic_add_fetch(&g_ops,1,__ATOMIC_RELAXED);
 mine++; uint64_t sl=g_sleep*20000ull, den=20000ull+mine; uint64_t yl=g_yield*200000ull/(200000ull+mine);
 uint64_t r=rnd()%10000; if(r*den<sl){ struct timespec ts={0,(long)(rnd()%(g_us*1000+1))}; __atomic_add_fetch(&g_noise,1,__ATOMIC_RELAXED); nanosleep(&ts,0);} else if(r>=5000 && r<5000+yl){ __atomic_add_fetch(&g_noise,1,__ATOMIC_RELAXED); sched_yield(); }
 busy=0; }
void __tsan_init(void){ static int done; if(!done){done=1; init();} }
void __tsan_func_entry(void*p){} void __tsan_func_exit(void){}
void __tsan_ignore_thread_begin(void){} void __tsan_ignore_thread_end(void){}
''')
for n in (1,2,4,8,16):
    for k in ('read','write','read_write','unaligned_read','unaligned_write','unaligned_read_write','volatile_read','volatile_write','unaligned_volatile_read','unaligned_volatile_write'):
        p(f'void __tsan_{k}{n}(void*p){{}}')
p('void __tsan_vptr_update(void**p,void*v){} void __tsan_vptr_read(void**p){}')
p('void __tsan_read_range(void*p,unsigned long n){} void __tsan_write_range(void*p,unsigned long n){}')
p('void* __tsan_memcpy(void*d,const void*s,unsigned long n){return memcpy(d,s,n);} void* __tsan_memmove(void*d,const void*s,unsigned long n){return memmove(d,s,n);} void* __tsan_memset(void*d,int c,unsigned long n){return memset(d,c,n);}')
for b in (8,16,32,64):
    T=f'uint{b}_t'
    p(f'{T} __tsan_atomic{b}_load(const volatile {T}*a,int m){{noise(); {T} r=__atomic_load_n(a,__ATOMIC_SEQ_CST); noise(); return r;}}')
    p(f'void __tsan_atomic{b}_store(volatile {T}*a,{T} v,int m){{noise(); __atomic_store_n(a,v,__ATOMIC_SEQ_CST); noise();}}')
    p(f'{T} __tsan_atomic{b}_exchange(volatile {T}*a,{T} v,int m){{noise(); {T} r=__atomic_exchange_n(a,v,__ATOMIC_SEQ_CST); noise(); return r;}}')
    for op in ('add','sub','and','or','xor','nand'):
        p(f'{T} __tsan_atomic{b}_fetch_{op}(volatile {T}*a,{T} v,int m){{noise(); {T} r=__atomic_fetch_{op}(a,v,__ATOMIC_SEQ_CST); noise(); return r;}}')
    for w in ('strong','weak'):
        p(f'int __tsan_atomic{b}_compare_exchange_{w}(volatile {T}*a,{T}*c,{T} v,int m,int f){{noise(); int r=__atomic_compare_exchange_n(a,c,v,0,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); noise(); return r;}}')
    p(f'{T} __tsan_atomic{b}_compare_exchange_val(volatile {T}*a,{T} c,{T} v,int m,int f){{noise(); __atomic_compare_exchange_n(a,&c,v,0,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); noise(); return c;}}')
p('void __tsan_atomic_thread_fence(int m){noise();__atomic_thread_fence(__ATOMIC_SEQ_CST);} void __tsan_atomic_signal_fence(int m){}')
import sys; open(sys.argv[1],'w').write('\n'.join(out))
