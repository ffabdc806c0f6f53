/* Shared between the simulator core and the glue that is generated for every mocked module. */
#ifndef SIMABI_H
#define SIMABI_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif

enum { LK_UINT = 0, LK_INT, LK_BOOL, LK_FLOAT, LK_DOUBLE, LK_LDOUBLE, LK_PTR, LK_ENUM, LK_BITS, LK_UBITS };

typedef struct {
  const char* name;   /* innermost named field */
  uint32_t off;
  uint32_t size;      /* bytes (bits for LK_BITS/LK_UBITS) */
  uint32_t kind;
  int64_t (*get)(const void*);
  void (*set)(void*, int64_t);
} sim_leaf;

typedef struct {
  const char* name;
  uint32_t size;
  uint32_t nleaves;
  const sim_leaf* leaves;
} sim_type;

enum { PC_VALUE = 0, PC_PTR, PC_VOIDPTR, PC_REF };
/* what a matcher decides on; the deciding function itself is hidden behind the index given to expect */
enum { MK_NONE = 0, MK_EQ, MK_PTR, MK_DEREF, MK_STR, MK_CUSTOM };

typedef struct {
  const char* name;        /* NULL when the declaration leaves the parameter unnamed */
  uint32_t pclass;
  uint32_t is_const;       /* PC_PTR/PC_REF: pointee is const */
  uint32_t out;            /* 0: no output argument, 1: typed output, 2: output with an explicit size */
  uint32_t text;           /* PC_PTR to char: slots hold terminated strings */
  const sim_type* type;    /* the value (PC_VALUE) or the pointee (PC_PTR, PC_REF); NULL for PC_VOIDPTR */
  uint32_t nmatchers;      /* always >= 1: matcher 0 is "no matcher" */
  const uint32_t* mkinds;
  const char* const* mnames;
} sim_param;

typedef struct {
  const char* name;
  uint32_t is_method;
  uint32_t nparams;
  const sim_param* params;
  const sim_type* ret;     /* NULL: void */
  void (*call)(void* inst, void* const* a, void* r);
} sim_fn;

typedef struct {
  void (*expect)(void* inst, void* const* a, const void* r, const int* m);
  void (*expect_out)(void* inst, void* const* a, const void* r, const int* m, void* const* o, const size_t* osz);
  const uint32_t* psizes;  /* sizeof every parameter's value/pointee as the mock's own header sees it, then the return */
} sim_xfn;

typedef struct {
  const char* name;
  uint32_t cpp;
  uint32_t nfns;
  const sim_fn* fns;
  void* (*instance)(int k);
} sim_module;

/* Called by the custom matchers of the glue. Returns non-zero when the matcher has to report an error. */
int sim_on_match(int mod, int fn, int param, const void* cur, const void* exp, const char* pname, char* msg, size_t msgsz);

#ifdef __cplusplus
}
#endif
#endif
