// Interposed on the ball arithmetic calls of the library (ld --wrap): reports a precision below 2 bits.
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <flint/arb.h>
static void bad(const char *f, slong p) { fprintf(stderr, "PRECISION ERROR: %s called with precision %ld\n", f, (long)p); _exit(99); }
#define P(f, prec) if ((prec) < 2) bad(#f, prec)
#define W1(f, r, a) r __real_##f(a, slong); r __wrap_##f(a x, slong prec); 
#define D2(f, A) void __real_##f(arb_t, A, slong); void __wrap_##f(arb_t r, A a, slong prec) { P(f, prec); __real_##f(r, a, prec); }
#define D3(f, A, B) void __real_##f(arb_t, A, B, slong); void __wrap_##f(arb_t r, A a, B b, slong prec) { P(f, prec); __real_##f(r, a, b, prec); }
D2(arb_set_fmpq, const fmpq_t)
D2(arb_set_round, const arb_t)
D2(arb_sqrt_ui, ulong)
D3(arb_add, const arb_t, const arb_t)
D3(arb_sub, const arb_t, const arb_t)
D3(arb_mul, const arb_t, const arb_t)
D3(arb_div, const arb_t, const arb_t)
D3(arb_add_fmpz, const arb_t, const fmpz_t)
D3(arb_sub_fmpz, const arb_t, const fmpz_t)
D3(arb_mul_fmpz, const arb_t, const fmpz_t)
D3(arb_div_fmpz, const arb_t, const fmpz_t)
D3(arb_fmpz_div_fmpz, const fmpz_t, const fmpz_t)
D3(arb_add_si, const arb_t, slong)
D3(arb_sub_si, const arb_t, slong)
D3(arb_mul_si, const arb_t, slong)
D3(arb_pow_ui, const arb_t, ulong)
D3(arb_root_ui, const arb_t, ulong)
