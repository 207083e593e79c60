/* Sample: plain functions, statics, cold paths, nested scopes. */
typedef unsigned long size_t;
static int table[16] = {1, 2, 3};
const char *msgs[] = {"one", "two", "three"};
volatile int sink;
__attribute__((noinline)) static int helper(int x) { for (int i = 0; i < x; i++) sink += table[i & 15]; return sink; }
__attribute__((noinline, cold)) void fail_path(int x) { sink = x; for (;;) sink++; }
static inline __attribute__((always_inline)) int inl(int a) { return a * 3 + sink; }
int api(int n) { if (__builtin_expect(n > 1000, 0)) fail_path(n); return helper(n) + inl(n); }
void *memset(void *d, int c, size_t n) { char *p = d; while (n--) *p++ = c; return d; }
int (*fp[3])(int) = {api, helper, 0};
int dispatch(int k, int v) { return fp[k](v) + msgs[k][0]; }
extern int undefined_decl(int);
void _start(void) { sink = dispatch(0, 7); for (;;) ; }
