/* Pre-included (clang -include) when the graph-level view is extracted.
 * It makes the graph accessor/constructor macros of graph.h opaque, typed
 * calls, so that the analysis sees the operation and its operands resolved
 * instead of the bit manipulation they expand to.  Nothing here is executed
 * or linked. */
#define PARANOIA 1
#include "graph.h"
#ifndef VX_SHIM
#define VX_SHIM
int  VX_IS(const char *k, g_ptr np);
unsigned long VX_GETF(const char *k, g_ptr np);
void *VX_GETP(const char *k, g_ptr np);
g_ptr VX_GETG(const char *k, g_ptr np);
void VX_SETF(const char *k, g_ptr np, unsigned long v);
void VX_SETP(const char *k, g_ptr np, const void *v);
void VX_SETG(const char *k, g_ptr np, g_ptr v);
void VX_INC_REFCNT(g_ptr np);
void VX_OVERWRITE(g_ptr redex, g_ptr np);
void VX_MK_APPL(g_ptr g, g_ptr l, g_ptr r);
void VX_MK_CONS(g_ptr g, g_ptr l, g_ptr r);
void VX_MK_NIL(g_ptr g);
void VX_MK_VOID(g_ptr g);
void VX_MK_BOOL(g_ptr g, formula f);
void VX_MK_BEXPR(g_ptr g, bexpr f);
void VX_MK_AINT(g_ptr g, arbi_T f);
void VX_MK_INT(g_ptr g, int f);
void VX_MK_STRING(g_ptr g, string f);
void VX_MK_VAR(g_ptr g, string f);
void VX_MK_LAMBDA(g_ptr g, string v, g_ptr b);
void VX_MK_USERDEF(g_ptr g, void *f);
void VX_MK_PRIM_FN(g_ptr g, int f);
void VX_MK_EXTAPI(g_ptr g, unsigned long f);
void VX_MK_EXT_OBJ(g_ptr g, int cl, void *p);
void VX_MK_IO_PTR(g_ptr g, void *p);
void VX_MK_FAILURE(g_ptr g, string msg);
void VX_MK_REF_VAR(g_ptr g, unsigned long msg);
#undef MAKE_REDEX_APPL_ND
#define MAKE_REDEX_APPL_ND(g,l,r) { VX_MK_APPL((g),(l),(r)); }
#undef MAKE_REDEX_CONS_ND
#define MAKE_REDEX_CONS_ND(g,l,r) { VX_MK_CONS((g),(l),(r)); }
#undef MAKE_REDEX_PAIR
#define MAKE_REDEX_PAIR(g,l,r) { VX_MK_CONS((g),(l),(r)); }
#undef MAKE_REDEX_LAMBDA
#define MAKE_REDEX_LAMBDA(g,v,b) { VX_MK_LAMBDA((g),(v),(b)); }
#undef MAKE_REDEX_NIL
#define MAKE_REDEX_NIL(g) { VX_MK_NIL((g)); }
#undef MAKE_REDEX_VOID
#define MAKE_REDEX_VOID(g) { VX_MK_VOID((g)); }
#undef MAKE_REDEX_BOOL
#define MAKE_REDEX_BOOL(g,b) { VX_MK_BOOL((g),(b)); }
#undef MAKE_REDEX_BEXPR
#define MAKE_REDEX_BEXPR(g,b) { VX_MK_BEXPR((g),(b)); }
#undef MAKE_REDEX_AINT
#define MAKE_REDEX_AINT(g,b) { VX_MK_AINT((g),(b)); }
#undef MAKE_REDEX_INT
#define MAKE_REDEX_INT(g,b) { VX_MK_INT((g),(b)); }
#undef MAKE_REDEX_STRING
#define MAKE_REDEX_STRING(g,b) { VX_MK_STRING((g),(b)); }
#undef MAKE_REDEX_VAR
#define MAKE_REDEX_VAR(g,b) { VX_MK_VAR((g),(b)); }
#undef MAKE_REDEX_USERDEF
#define MAKE_REDEX_USERDEF(g,b) { VX_MK_USERDEF((g),(void *)(b)); }
#undef MAKE_REDEX_PRIM_FN
#define MAKE_REDEX_PRIM_FN(g,b) { VX_MK_PRIM_FN((g),(b)); }
#undef MAKE_REDEX_EXTAPI
#define MAKE_REDEX_EXTAPI(g,b) { VX_MK_EXTAPI((g),(b)); }
#undef MAKE_REDEX_EXT_OBJ
#define MAKE_REDEX_EXT_OBJ(g,c,p) { VX_MK_EXT_OBJ((g),(c),(void *)(p)); }
#undef MAKE_REDEX_IO_PTR
#define MAKE_REDEX_IO_PTR(g,p) { VX_MK_IO_PTR((g),(void *)(p)); }
#undef MAKE_REDEX_FAILURE
#define MAKE_REDEX_FAILURE(g,m) { VX_MK_FAILURE((g),(m)); }
#undef MAKE_REDEX_REF_VAR
#define MAKE_REDEX_REF_VAR(g,m) { VX_MK_REF_VAR((g),(m)); }
#undef INC_REFCNT
#define INC_REFCNT(np) VX_INC_REFCNT(np)
#undef OVERWRITE
#define OVERWRITE(red,np) { VX_OVERWRITE((red),(np)); }
#define VX_DEFIS(k) 
#undef IS_NIL
#define IS_NIL(p) VX_IS("NIL",(p))
#undef IS_CONS
#define IS_CONS(p) VX_IS("CONS",(p))
#undef IS_LEAF
#define IS_LEAF(p) VX_IS("LEAF",(p))
#undef IS_APPLY
#define IS_APPLY(p) VX_IS("APPLY",(p))
#undef IS_LAMBDA
#define IS_LAMBDA(p) VX_IS("LAMBDA",(p))
#undef IS_INT
#define IS_INT(p) VX_IS("INT",(p))
#undef IS_STRING
#define IS_STRING(p) VX_IS("STRING",(p))
#undef IS_BOOL
#define IS_BOOL(p) VX_IS("BOOL",(p))
#undef IS_BEXPR
#define IS_BEXPR(p) VX_IS("BEXPR",(p))
#undef IS_EXT_OBJ
#define IS_EXT_OBJ(p) VX_IS("EXT_OBJ",(p))
#undef IS_PRIM_FN
#define IS_PRIM_FN(p) VX_IS("PRIM_FN",(p))
#undef IS_USERDEF
#define IS_USERDEF(p) VX_IS("USERDEF",(p))
#undef IS_VAR
#define IS_VAR(p) VX_IS("VAR",(p))
#undef IS_FAILURE
#define IS_FAILURE(p) VX_IS("FAILURE",(p))
#undef IS_VOID
#define IS_VOID(p) VX_IS("VOID",(p))
#undef GET_TYPE
#define GET_TYPE(p) VX_GETF("TYPE",(p))
#undef GET_LEAF_TYPE
#define GET_LEAF_TYPE(p) VX_GETF("LEAF_TYPE",(p))
#undef GET_PRIM_FN
#define GET_PRIM_FN(p) VX_GETF("PRIM_FN",(p))
#undef GET_REFCNT
#define GET_REFCNT(p) VX_GETF("REFCNT",(p))
#undef GET_EXTAPI_FN
#define GET_EXTAPI_FN(p) VX_GETF("EXTAPI_FN",(p))
#undef GET_EXT_OBJ_CLASS
#define GET_EXT_OBJ_CLASS(p) VX_GETF("EXT_OBJ_CLASS",(p))
#undef GET_REF_VAR
#define GET_REF_VAR(p) VX_GETF("REF_VAR",(p))
#undef GET_EXT_OBJ
#define GET_EXT_OBJ(p) ((pointer) VX_GETP("EXT_OBJ",(p)))
#undef GET_USERDEF
#define GET_USERDEF(p) ((pointer) VX_GETP("USERDEF",(p)))
#undef GET_FILE_IO_PTR
#define GET_FILE_IO_PTR(p) ((io_ptr) VX_GETP("FILE_IO_PTR",(p)))
#undef GET_LAMBDA_VAR_LEAF
#define GET_LAMBDA_VAR_LEAF(p) VX_GETG("LAMBDA_VAR_LEAF",(p))
#undef SET_TYPE
#define SET_TYPE(p,v) VX_SETF("TYPE",(p),(v))
#undef SET_LEAF_TYPE
#define SET_LEAF_TYPE(p,v) VX_SETF("LEAF_TYPE",(p),(v))
#undef SET_PRIM_FN
#define SET_PRIM_FN(p,v) VX_SETF("PRIM_FN",(p),(v))
#undef SET_REFCNT
#define SET_REFCNT(p,v) VX_SETF("REFCNT",(p),(v))
#undef SET_BOOL
#define SET_BOOL(p,v) VX_SETF("BOOL",(p),(v))
#undef SET_BEXPR
#define SET_BEXPR(p,v) VX_SETP("BEXPR",(p),(const void *)(v))
#undef SET_AINT
#define SET_AINT(p,v) VX_SETP("AINT",(p),(const void *)(v))
#undef SET_STRING
#define SET_STRING(p,v) VX_SETP("STRING",(p),(v))
#undef SET_FAIL_STRING
#define SET_FAIL_STRING(p,v) VX_SETP("FAIL_STRING",(p),(v))
#undef SET_EXT_OBJ
#define SET_EXT_OBJ(p,v) VX_SETP("EXT_OBJ",(p),(const void *)(v))
#undef SET_CONS_HD
#define SET_CONS_HD(p,v) VX_SETG("CONS_HD",(p),(v))
#undef SET_CONS_TL
#define SET_CONS_TL(p,v) VX_SETG("CONS_TL",(p),(v))
#undef SET_APPLY_LEFT
#define SET_APPLY_LEFT(p,v) VX_SETG("APPLY_LEFT",(p),(v))
#undef SET_APPLY_RIGHT
#define SET_APPLY_RIGHT(p,v) VX_SETG("APPLY_RIGHT",(p),(v))
#undef M_GET_CONS_HD
#define M_GET_CONS_HD(np) f_GET_CONS_HD(np)
#undef M_GET_CONS_TL
#define M_GET_CONS_TL(np) f_GET_CONS_TL(np)
#undef M_GET_APPLY_LEFT
#define M_GET_APPLY_LEFT(np) f_GET_APPLY_LEFT(np)
#undef M_GET_APPLY_RIGHT
#define M_GET_APPLY_RIGHT(np) f_GET_APPLY_RIGHT(np)
#undef MAKE_FORCED
#define MAKE_FORCED(np) VX_SETF("FORCED",(np),4)
#undef MAKE_UNFORCED
#define MAKE_UNFORCED(np) VX_SETF("FORCED",(np),0)
#endif
