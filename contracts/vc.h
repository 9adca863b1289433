/* Builtins of the verifier (see vc/exec.h); they have no C body. */
#ifndef VC_H
#define VC_H
#include <stdint.h>
#include <stddef.h>
extern int64_t vc_param(const char *name);
extern int64_t vc_param0(const char *name);   /* 0 where it is not given */
extern void vc_sym(void *p, int64_t n, const char *name);
extern uint64_t vc_dom(const char *name, const uint64_t *vals, int64_t count);
/* any 32 bit value */
extern uint64_t vc_len(const char *name);
extern void *vc_object(const char *name, uint64_t cap, uint64_t symsize, int64_t align);
/* from now on the object has n bytes (at most its capacity) */
extern void vc_size(void *p, uint64_t n);
extern void vc_limit(void *p, uint64_t limit);
extern void vc_zero(void *p, int64_t n);
extern void vc_copy(void *d, const void *s, int64_t n);
extern void vc_havoc(void *p, int64_t n);
extern void vc_tag(const char *);
extern void vc_tagn(const char *, int64_t);
extern void vc_eq(const void *a, const void *b, int64_t n, const char *name);
extern void vc_true(int c, const char *name);
extern void vc_reach(void);
extern void vc_restrict(const char *dom, const uint64_t *vals, int64_t count);
extern void vc_restrict_range(const char *dom, uint64_t lo, uint64_t hi);
extern void vc_restrict_clear(void);
extern void vc_opaque(const char *);
extern void vc_reveal(const char *);
extern int vc_contract(const char *);
extern void vc_contract_off(const char *);
extern void vc_inverse(const char *f, const char *g, int64_t prefix);
extern void vc_frame(int);
extern void vc_protect(void *, int);
extern void vc_alloc_fail(int);
extern int vc_is_null(const void *);
extern uint64_t vc_heap_size(const void *);
extern uint64_t vc_heap_align(const void *);
extern int vc_live(const void *);
extern int vc_same_object(const void *, const void *);
extern void vc_rename(const char *from, const char *to);
extern void vc_rename_clear(void);
extern void vc_note(const char *);
extern void vc_iso(const void *out_p, const void *out_0, int64_t n, const char *dom, uint64_t vp, uint64_t v0, const char *name);
extern void vc_support(const void *p, int64_t n, const char *allowed, const char *title);
extern void vc_lanes(const char *fn, int lanebits, int lanes, int nin, void **in, int nout, void **out);
extern void vc_lanes_check(const char *fn, int lanebits, int lanes, int nin, void **in, int nout, void **out, const char *name);
/* payloads of any length and loops without a bound (vc/loops.cpp) */
extern void *vc_array(const char *name, uint64_t len);
extern uint64_t vc_word(const char *name, int bits);
extern uint8_t vc_at(const void *p, uint64_t x);
extern uint8_t vc_base(const void *p, uint64_t x);
extern uint8_t vc_ks(const void *cw, const void *iv, uint64_t i);
extern void vc_ghost(const char *name, uint64_t i, void *out, int64_t n);
extern int vc_is_array(const void *p);
extern void vc_arr_stream(const void *cw, const void *iv, void *data, unsigned len);
extern void vc_loops(const char *candidate);
extern void vc_subst(void *p, int64_t n, const void *from, const void *to, int64_t m);
#endif
