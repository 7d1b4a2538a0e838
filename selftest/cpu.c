// executes one instruction on the host CPU: stdin records: len, code[15], ax,bx,cx,dx,si,di,flags ; output same after
#define _GNU_SOURCE
#include <stdio.h>
#include <stdint.h>
#include <string.h>
#include <sys/mman.h>
#include <signal.h>
#include <setjmp.h>
static sigjmp_buf jb; static void h(int s) { siglongjmp(jb, 1); }
struct R { uint64_t a, b, c, d, s, di, f; };
void go(void*, void*);
asm("go: push %rbp\n push %rbx\n mov %rdi,%rbp\n push %rbp\n push %rsi\n mov 0(%rbp),%rax\n mov 8(%rbp),%rbx\n mov 16(%rbp),%rcx\n mov 24(%rbp),%rdx\n mov 32(%rbp),%rsi\n mov 40(%rbp),%rdi\n push 48(%rbp)\n popfq\n pop %rbp\n call *%rbp\n pop %rbp\n mov %rax,0(%rbp)\n mov %rbx,8(%rbp)\n mov %rcx,16(%rbp)\n mov %rdx,24(%rbp)\n mov %rsi,32(%rbp)\n mov %rdi,40(%rbp)\n pushfq\n pop 48(%rbp)\n pop %rbx\n pop %rbp\n ret\n");
int main(void) {
    unsigned char* p = mmap(0, 4096, 7, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = h; sa.sa_flags = SA_NODEFER; sigaction(SIGFPE, &sa, 0); sigaction(SIGILL, &sa, 0);
    unsigned char rec[16]; uint16_t v[7];
    while (fread(rec, 1, 16, stdin) == 16 && fread(v, 2, 7, stdin) == 7) {
        memcpy(p, rec + 1, rec[0]); p[rec[0]] = 0xc3;
        static struct R r; r = (struct R){ v[0], v[1], v[2], v[3], v[4], v[5], (v[6] & 0x8d5) | 2 };
        uint16_t ok = 1;
        if (!sigsetjmp(jb, 1)) {
            go(&r, p);
        } else ok = 0;
        uint16_t o[8] = { ok, r.a, r.b, r.c, r.d, r.s, r.di, r.f & 0x8d5 }; fwrite(o, 2, 8, stdout);
    }
}
