// Sample: namespaces, templates, methods, lambdas.
volatile int sink;
namespace outer { namespace inner {
template <typename T> struct Box { T v; __attribute__((noinline)) T get() const { sink++; return v; } template <typename U> __attribute__((noinline)) U conv() const { sink += 2; return U(v); } };
template <typename T, int N> __attribute__((noinline)) T sum(const T (&a)[N]) { T r{}; for (int i = 0; i < N; i++) r += a[i]; return r; }
} }
struct Base { virtual int f(int) = 0; virtual ~Base(); };
Base::~Base() { sink = 0; }
struct D1 : Base { int f(int x) override { return x + sink; } };
struct D2 : Base { int f(int x) override { return x * sink; } };
static D1 d1; static D2 d2;
extern "C" { void __cxa_pure_virtual() { for (;;) ; } int __cxa_atexit(void (*)(void *), void *, void *) { return 0; } void *__dso_handle; void __stack_chk_fail() {} }
void operator delete(void *) noexcept {}
void operator delete(void *, unsigned long) noexcept {}
void operator delete(void *, unsigned int) noexcept {}
__attribute__((noinline)) static int pick(Base *b, int v) { auto l = [&](int z) __attribute__((noinline)) { sink += z; return z + v; }; return b->f(v) + l(v); }
extern "C" int entry(int k) {
  outer::inner::Box<int> a{k}; outer::inner::Box<double> b{1.5 * k}; outer::inner::Box<char> c{(char)k};
  int xs[4] = {1, 2, 3, k}; double ys[3] = {1, 2, 3};
  return a.get() + (int)b.get() + c.conv<int>() + a.conv<long>() + outer::inner::sum(xs) + (int)outer::inner::sum(ys) + pick(&d1, k) + pick(&d2, k);
}
extern "C" void _start() { sink = entry(3); for (;;) ; }
