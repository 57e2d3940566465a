// Link-time stub: gives the instrumented targets the symbols that libsimos.so
// (LD_PRELOADed by the orchestrator) overrides at run time.
#include <stdint.h>
__attribute__((visibility("default"))) void __sanitizer_cov_trace_pc_guard(uint32_t *g) { (void)g; }
__attribute__((visibility("default"))) void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { (void)a; (void)b; }
__attribute__((visibility("default"))) long simos_ctl(int cmd, long arg) { (void)cmd; (void)arg; return -1; }
