/* One library build: the wrappers of one API, compiled in one configuration.
 * -DAPI_i / -DAPI_c / -DAPI_s selects the API, -DW_C01 .. or -DW_ALL the operations. */
#include <string.h>
#include <stdint.h>
#include <stddef.h>
#include "call.h"
#ifdef __cplusplus
#define TABLE extern "C" const WEntry *
#else
#define TABLE const WEntry *
#endif
#ifndef PLAIN                /* PLAIN: only what a default inclusion brings */
#define CGLM_CLIPSPACE_INCLUDE_ALL
#endif
#include <cglm/cglm.h>
#include <cglm/color.h>
#if defined(API_i)
#include <cglm/types-struct.h>
#ifdef CGLM_ALL_UNALIGNED
#define VUNAL 1
#else
#define VUNAL 0
#endif
#ifdef __AVX__
#define VAVX 1
#else
#define VAVX 0
#endif
#ifndef PLAIN
#include <cglm/handed/euler_to_quat_rh.h>
#include <cglm/handed/euler_to_quat_lh.h>
#include <cglm/clipspace/project_no.h>
#include <cglm/clipspace/project_zo.h>
#endif
#include "gen/w_i.inc"
TABLE verif_table_i(void) { return table_i; }
#elif defined(API_c)
#include <cglm/call.h>
#include <cglm/call/clipspace/ortho_lh_no.h>
#include <cglm/call/clipspace/ortho_lh_zo.h>
#include <cglm/call/clipspace/ortho_rh_no.h>
#include <cglm/call/clipspace/ortho_rh_zo.h>
#include <cglm/call/clipspace/persp_lh_no.h>
#include <cglm/call/clipspace/persp_lh_zo.h>
#include <cglm/call/clipspace/persp_rh_no.h>
#include <cglm/call/clipspace/persp_rh_zo.h>
#include <cglm/call/clipspace/project_no.h>
#include <cglm/call/clipspace/project_zo.h>
#include <cglm/call/clipspace/view_lh_no.h>
#include <cglm/call/clipspace/view_lh_zo.h>
#include <cglm/call/clipspace/view_rh_no.h>
#include <cglm/call/clipspace/view_rh_zo.h>
#include "gen/w_c.inc"
TABLE verif_table_c(void) { return table_c; }
#else
#include <cglm/struct.h>
#include <cglm/struct/aabb2d.h>
#include <cglm/struct/color.h>
#ifndef PLAIN
#include <cglm/struct/handed/euler_to_quat_rh.h>
#include <cglm/struct/handed/euler_to_quat_lh.h>
#endif
#ifdef VN
#include "gen/nsmap.inc"
#endif
#include "gen/w_s.inc"
TABLE verif_table_s(void) { return table_s; }
#endif
