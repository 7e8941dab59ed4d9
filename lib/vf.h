/* Verification harness support.
 * The same harness is compiled twice:
 *   goto-cc (VF_CBMC defined)  : inputs are solver variables, assertions are proof goals;
 *   gcc + ASan/UBSan (VF_REPLAY) : inputs are read back from a counterexample file. */
#ifndef VF_H
#define VF_H
#include <stddef.h>
#include <stdint.h>
#ifdef VF_CBMC
unsigned char nondet_vf_u8(void);
int nondet_vf_i32(void);
long nondet_vf_i64(void);
#define VF_U8(tag)  ({ unsigned char v_ = nondet_vf_u8(); __CPROVER_input(tag, v_); v_; })
#define VF_I32(tag) ({ int v_ = nondet_vf_i32(); __CPROVER_input(tag, v_); v_; })
#define VF_I64(tag) ({ long v_ = nondet_vf_i64(); __CPROVER_input(tag, v_); v_; })
#define VF_BOOL(tag) ({ unsigned char v_ = nondet_vf_u8(); __CPROVER_assume(v_ <= 1); __CPROVER_input(tag, v_); (int)v_; })
#define VF_ASSUME(c) __CPROVER_assume(c)
#define VF_ASSERT(c, msg) __CPROVER_assert((c), "VF: " msg)
/* limit of the harness itself: if reached, the obligation is undecided, and nothing is reported */
#define VF_MODEL(c, msg) do { __CPROVER_assert((c), "MODEL: " msg); __CPROVER_assume(c); } while (0)
/* reachability twin: this "assertion" has to fail, otherwise the harness is vacuous */
#define VF_COVER(msg) __CPROVER_assert(0, "TWIN: " msg)
#define VF_STOP() __CPROVER_assume(0)
#else
long vf_in(const char *tag);
void vf_fail(const char *msg) __attribute__((noreturn));
void vf_infeasible(void) __attribute__((noreturn));
void vf_stop(void) __attribute__((noreturn));
#define VF_U8(tag)  ((unsigned char)vf_in(tag))
#define VF_I32(tag) ((int)vf_in(tag))
#define VF_I64(tag) (vf_in(tag))
#define VF_BOOL(tag) ((int)vf_in(tag))
#define VF_ASSUME(c) do { if (!(c)) vf_infeasible(); } while (0)
#define VF_ASSERT(c, msg) do { if (!(c)) vf_fail(msg); } while (0)
#define VF_COVER(msg) do { } while (0)
#define VF_MODEL(c, msg) do { if (!(c)) vf_infeasible(); } while (0)
#define VF_STOP() vf_stop()
#endif
#define VF_RANGE(tag, lo, hi) ({ int r_ = VF_I32(tag); VF_ASSUME(r_ >= (lo) && r_ <= (hi)); r_; })
#define VF_RANGE64(tag, lo, hi) ({ long r_ = VF_I64(tag); VF_ASSUME(r_ >= (lo) && r_ <= (hi)); r_; })
/* a failed call reports any reason */
#define VF_ERRNO() (errno = VF_RANGE("errno", 1, 133))
#define VF_ERRNO_NOINTR() do { VF_ERRNO(); VF_ASSUME(errno != 4); } while (0)
void vf_main(void);
#endif
