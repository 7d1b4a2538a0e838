// C library model linked into every tool. Everything ends in the sx_* primitives of the engine.
#include <stdarg.h>
#include <stddef.h>
void sx_exit(int) __attribute__((noreturn));
int sx_open(const char*, int);
long sx_read(int, void*, size_t);
long sx_write(int, const void*, size_t);
int sx_close(int);
void sx_putc(int);
void* sx_malloc(size_t);
void sx_abort(const char*) __attribute__((noreturn));
void exit(int c) { sx_exit(c); }
void _exit(int c) { sx_exit(c); }
int open(const char* n, int f, ...) { return sx_open(n, f); }
int creat(const char* n, int m) { (void)m; return sx_open(n, 0100 | 01000 | 1); }
long read(int fd, void* b, size_t n) { return sx_read(fd, b, n); }
long write(int fd, const void* b, size_t n) { return sx_write(fd, b, n); }
int close(int fd) { return sx_close(fd); }
void* malloc(size_t n) { return sx_malloc(n); }
void* calloc(size_t a, size_t b) { char* p = sx_malloc(a * b); if (p) for (size_t i = 0; i < a * b; i++) p[i] = 0; return p; }
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return *(unsigned char*)a - *(unsigned char*)b; }
int strncmp(const char* a, const char* b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? *(unsigned char*)a - *(unsigned char*)b : 0; }
int memcmp(const void* x, const void* y, size_t n) { const unsigned char *a = x, *b = y; for (; n; n--, a++, b++) if (*a != *b) return *a - *b; return 0; }
int bcmp(const void* x, const void* y, size_t n) { return memcmp(x, y, n); }
void* memchr(const void* p, int c, size_t n) { const unsigned char* s = p; for (; n; n--, s++) if (*s == (unsigned char)c) return (void*)s; return 0; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) ; return r; }
char* stpcpy(char* d, const char* s) { while ((*d = *s)) { d++; s++; } return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* strstr(const char* h, const char* n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char*)h; if (!*h) return 0; } }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isprint(int c) { return c >= 32 && c < 127; }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int abs(int x) { return x < 0 ? -x : x; }
void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) { (void)f; (void)l; (void)fn; sx_abort(e); }
struct Sink { char* p; size_t n, cap; };
static void put(struct Sink* s, int c) { if (s->p) { if (s->n < s->cap) s->p[s->n] = c; } else sx_putc(c); s->n++; }
static int fmt(struct Sink* s, const char* f, va_list ap) {
    for (; *f; f++) {
        if (*f != '%') { put(s, *f); continue; }
        int left = 0, zero = 0, plus = 0, w = 0, prec = -1, lng = 0, alt = 0; f++;
        for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == '#') alt = 1; else if (*f == ' ') ; else break; }
        if (*f == '*') { w = va_arg(ap, int); f++; if (w < 0) { left = 1; w = -w; } } else while (*f >= '0' && *f <= '9') w = w * 10 + *f++ - '0';
        if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + *f++ - '0'; }
        while (*f == 'l' || *f == 'h' || *f == 'z' || *f == 'j' || *f == 't') { if (*f != 'h') lng++; f++; }
        char b[24]; int n = 0; const char* str = b; 
        if (*f == '%') { put(s, '%'); continue; }
        if (*f == 'c') { b[0] = va_arg(ap, int); n = 1; }
        else if (*f == 's') { str = va_arg(ap, const char*); if (!str) str = "(null)"; while ((prec < 0 || n < prec) && str[n]) n++; zero = 0; }
        else if (*f == 'd' || *f == 'i' || *f == 'u') {
            unsigned long v; int neg = 0;
            if (*f == 'u') v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
            else { long q = lng ? va_arg(ap, long) : va_arg(ap, int); neg = q < 0; v = neg ? -(unsigned long)q : (unsigned long)q; }
            char t[24]; int k = 0; do { t[k++] = '0' + v % 10; v /= 10; } while (v); while (k < prec && k < 22) t[k++] = '0';
            if (neg || plus) { int sg = neg ? '-' : '+'; if (zero && !left && prec < 0) { put(s, sg); w--; } else t[k++] = sg; }
            while (k) b[n++] = t[--k];
        } else if (*f == 'x' || *f == 'X' || *f == 'p' || *f == 'o') {
            unsigned long v = *f == 'p' || lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); int base = *f == 'o' ? 3 : 4;
            char t[24]; int k = 0; (void)alt; do { t[k++] = (*f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef")[v & ((1 << base) - 1)]; v >>= base; } while (v); while (k < prec && k < 22) t[k++] = '0'; while (k) b[n++] = t[--k];
        } else sx_abort("unsupported printf format");
        int pad = w - n; if (!left) for (; pad > 0; pad--) put(s, zero ? '0' : ' ');
        for (int i = 0; i < n; i++) put(s, str[i]);
        if (left) for (; pad > 0; pad--) put(s, ' ');
    }
    return s->n;
}
int vsnprintf(char* d, size_t n, const char* f, va_list ap) { struct Sink s = {d ? d : (char*)"", 0, d && n ? n - 1 : 0}; int r = fmt(&s, f, ap); if (d && n) d[s.n < n - 1 ? s.n : n - 1] = 0; return r; }
int vsprintf(char* d, const char* f, va_list ap) { struct Sink s = {d, 0, (size_t)-1}; int r = fmt(&s, f, ap); d[s.n] = 0; return r; }
int sprintf(char* d, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsprintf(d, f, ap); va_end(ap); return r; }
int snprintf(char* d, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(d, n, f, ap); va_end(ap); return r; }
int vprintf(const char* f, va_list ap) { struct Sink s = {0, 0, 0}; return fmt(&s, f, ap); }
int printf(const char* f, ...) { va_list ap; va_start(ap, f); int r = vprintf(f, ap); va_end(ap); return r; }
struct _F; struct _F* stderr; struct _F* stdout; struct _F* stdin;
int vfprintf(struct _F* fp, const char* f, va_list ap) { (void)fp; return vprintf(f, ap); }
int fprintf(struct _F* fp, const char* f, ...) { (void)fp; va_list ap; va_start(ap, f); int r = vprintf(f, ap); va_end(ap); return r; }
int dprintf(int fd, const char* f, ...) { (void)fd; va_list ap; va_start(ap, f); int r = vprintf(f, ap); va_end(ap); return r; }
int putchar(int c) { sx_putc(c); return (unsigned char)c; }
int fputc(int c, struct _F* f) { (void)f; sx_putc(c); return (unsigned char)c; }
int putc(int c, struct _F* f) { return fputc(c, f); }
int puts(const char* s) { while (*s) sx_putc(*s++); sx_putc('\n'); return 0; }
int fputs(const char* s, struct _F* f) { (void)f; while (*s) sx_putc(*s++); return 0; }
int fflush(struct _F* f) { (void)f; return 0; }
void perror(const char* s) { printf("%s: error\n", s); }
struct _F* fopen(const char* n, const char* m) { (void)n; (void)m; return 0; } // no map file for the simulated program
int fclose(struct _F* f) { (void)f; return 0; }
int fscanf(struct _F* f, const char* m, ...) { (void)f; (void)m; return -1; }
int __isoc99_fscanf(struct _F* f, const char* m, ...) { (void)f; (void)m; return -1; }
int __errno_storage; int* __errno_location(void) { return &__errno_storage; }
long clock(void) { return 0; }
long time(long* p) { if (p) *p = 0; return 0; }
