/* Linked into every copy of the library under test: textual output of the
 * library (info/info0/warning) is redirected to a capture hook of the driver,
 * which is how the state of the shared memories is observed through the
 * library's own print functions. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdarg.h>
#include <stdlib.h>
void hw_capture(int kind, const char *msg);   /* defined by the driver */
#define W(name, kind) \
  void __wrap_##name(const char *fmt, ...) { va_list l; va_start(l, fmt); char *m=NULL; \
    if (vasprintf(&m, fmt, l) >= 0) { hw_capture(kind, m); free(m);} va_end(l); }
W(info,0) W(info0,0) W(info0_force_print,0) W(warning,1) W(warning0,1)
