/* A program without any library: entry point, output, and the memory functions every compiler expects. */
typedef unsigned long u64;
typedef unsigned char u8;
extern void run(u64 space, u64 from, u64 to);
static u8 buf[1 << 16];
static u64 used;

static long call3(long n, long a, long b, long c) {
  long r;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory");
  return r;
}
static void flush(void) {
  u64 at = 0;
  while (at < used) {
    long r = call3(1, 1, (long)(buf + at), (long)(used - at));
    if (r <= 0) call3(60, 3, 0, 0);
    at += (u64)r;
  }
  used = 0;
}
void put(const u8 *p, u64 n) {
  for (u64 i = 0; i < n; i++) {
    if (used == sizeof buf) flush();
    buf[used++] = p[i];
  }
}
void quit(void) {
  flush();
  call3(60, 101, 0, 0);
  for (;;) { }
}
void *memcpy(void *d, const void *s, u64 n) { for (u64 i = 0; i < n; i++) ((u8 *)d)[i] = ((const u8 *)s)[i]; return d; }
void *memmove(void *d, const void *s, u64 n) {
  if ((u8 *)d <= (const u8 *)s) return memcpy(d, s, n);
  while (n--) ((u8 *)d)[n] = ((const u8 *)s)[n];
  return d;
}
void *memset(void *d, int c, u64 n) { for (u64 i = 0; i < n; i++) ((u8 *)d)[i] = (u8)c; return d; }
int memcmp(const void *a, const void *b, u64 n) {
  for (u64 i = 0; i < n; i++) { int x = ((const u8 *)a)[i] - ((const u8 *)b)[i]; if (x) return x; }
  return 0;
}
int bcmp(const void *a, const void *b, u64 n) { return memcmp(a, b, n); }
u64 strlen(const char *s) { u64 n = 0; while (s[n]) n++; return n; }
/* named by the precompiled core library; never reached with aborting panics */
void rust_eh_personality(void) { quit(); }
void _Unwind_Resume(void) { quit(); }

static u64 number(const char *s) { u64 n = 0; while (*s) n = n * 10 + (u64)(*s++ - '0'); return n; }
void begin(u64 *sp) {
  char **argv = (char **)(sp + 1);
  if (sp[0] < 5) call3(60, 2, 0, 0);
  run(number(argv[2]), number(argv[3]), number(argv[4]));
  flush();
  call3(60, 0, 0, 0);
}
__asm__(".globl _start\n_start: xor %ebp,%ebp\n mov %rsp,%rdi\n and $-16,%rsp\n call begin\n");
