// Included before every instrumented translation unit: spin hints become simulator yields, atomic instructions written in
// assembler become scheduling points.
#ifndef SIMPRE_H
#define SIMPRE_H
__asm__(".macro pause\n leaq -128(%rsp),%rsp\n call sim_pause_tramp\n leaq 128(%rsp),%rsp\n .endm\n");
#define SIMPRE_RMW " leaq -128(%rsp),%rsp\n call sim_rmw_tramp\n leaq 128(%rsp),%rsp\n"
__asm__(".macro lock args:vararg\n" SIMPRE_RMW " .byte 0xf0\n \\args\n .endm\n"
        ".macro xchgb args:vararg\n" SIMPRE_RMW " xchg \\args\n .endm\n"
        ".macro xchgw args:vararg\n" SIMPRE_RMW " xchg \\args\n .endm\n"
        ".macro xchgl args:vararg\n" SIMPRE_RMW " xchg \\args\n .endm\n"
        ".macro xchgq args:vararg\n" SIMPRE_RMW " xchg \\args\n .endm\n");
#define __builtin_ia32_pause() __asm__ volatile("pause" ::: "memory")
#endif
