/* Step counter and path hash; this file is built without instrumentation. */
#include <stdint.h>
#include <setjmp.h>
extern _Thread_local sigjmp_buf rt_env; extern _Thread_local int rt_in_call, rt_signal;
uint64_t cov_steps, cov_hash, cov_limit = ~0ull;
static uint8_t seen[1 << 16];
uint64_t cov_blocks;
void __sanitizer_cov_trace_pc(void) {
     uintptr_t pc = (uintptr_t) __builtin_return_address(0);
     uint32_t h = (uint32_t) ((pc * 0x9e3779b97f4a7c15ull) >> 48);
     if (!seen[h]) { seen[h] = 1; cov_blocks++; }
     cov_hash += (pc * 0x9e3779b97f4a7c15ull) >> 20;
     if (++cov_steps > cov_limit && rt_in_call) { rt_signal = 999; rt_in_call = 0; siglongjmp(rt_env, 2); }
}
