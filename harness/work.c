// Counts the control-flow edges that instrumented code passes, and ends the
// process when there are far more than any bounded work could need.
#include <unistd.h>
unsigned long vh_work;
unsigned long vh_limit = ~0ul;
void __sanitizer_cov_trace_pc(void) {
  if (__builtin_expect(++vh_work > vh_limit, 0)) {
    static const char m[] = "work limit exceeded\n";
    if (write(2, m, sizeof m - 1) < 0) _exit(78);
    _exit(77);
  }
}
