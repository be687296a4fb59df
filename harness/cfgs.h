/* The configurations shared by the checks. */
#ifndef CFGS_H
#define CFGS_H
#include "xh.h"
#define O(x) XRTM_OPTION_ ## x
#define S(x) XRTM_SOLVER_ ## x
#define KD (O(CALC_DERIVS))
#define LV (O(OUTPUT_AT_LEVELS))
#define SO (O(SOURCE_SOLAR))
#define TH (O(SOURCE_THERMAL))
#define SAVES (O(SAVE_LEG_POLYS) | O(SAVE_PHASE_MATS) | O(SAVE_LOCAL_R_T) | O(SAVE_LAYER_R_T_S) | O(SAVE_TOTAL_R_T_S))
#define K_LAMB XRTM_KERNEL_LAMBERTIAN
#define K_RPV  XRTM_KERNEL_RAHMAN
static const xh_cfg all_cfgs[] = {
/*   name           options                                              solvers                    coef quad stk der lay nk kq  kernels        lev th ph */
{ "da-save",       KD|LV|SO|SAVES,                                       S(DOUB_ADD),                 5, 2, 1, 1, 2, 1, 4, {K_LAMB},         2, 1, 1 },
{ "ea-save",       KD|LV|SO|SAVES,                                       S(EIG_ADD),                  5, 2, 1, 1, 2, 0, 0, {0},              2, 1, 1 },
{ "pa-save",       KD|LV|SO|SAVES,                                       S(PADE_ADD),                 5, 2, 1, 1, 2, 0, 0, {0},              2, 1, 1 },
{ "eb-save",       KD|LV|SO|SAVES,                                       S(EIG_BVP),                  5, 2, 1, 1, 2, 1, 4, {K_RPV},          3, 1, 1 },
{ "mb-save",       KD|LV|SO|SAVES,                                       S(MEM_BVP),                  5, 2, 1, 1, 2, 0, 0, {0},              3, 1, 1 },
{ "ea-th-save",    KD|LV|SO|TH|SAVES,                                    S(EIG_ADD),                  5, 2, 1, 1, 2, 1, 4, {K_LAMB},         2, 1, 1 },
{ "da-th-save",    KD|LV|TH|SAVES,                                       S(DOUB_ADD),                 5, 2, 1, 1, 2, 0, 0, {0},              2, 0, 1 },
{ "pa-th",         KD|LV|SO|TH,                                          S(PADE_ADD),                 5, 2, 1, 1, 2, 1, 4, {K_LAMB},         2, 0, 1 },
{ "eb-th-taus",    KD|O(OUTPUT_AT_TAUS)|SO|TH|O(SFI)|SAVES,              S(EIG_BVP),                  5, 2, 1, 1, 2, 1, 4, {K_LAMB},         2, 1, 1 },
{ "eb-sfi-dm",     KD|LV|SO|O(SFI)|O(DELTA_M)|O(N_T_TMS)|SAVES,          S(EIG_BVP),                  7, 2, 1, 1, 2, 0, 0, {0},              2, 2, 1 },
{ "ea-psa-dm",     KD|LV|SO|O(PSA)|O(DELTA_M)|O(N_T_TMS)|SAVES,          S(EIG_ADD),                  7, 2, 1, 1, 2, 0, 0, {0},              2, 1, 1 },
{ "multi-save",    KD|LV|SO|SAVES,                                       S(DOUB_ADD)|S(EIG_ADD)|S(EIG_BVP), 5, 2, 1, 1, 2, 0, 0, {0},        2, 1, 1 },
{ "stack",         KD|LV|SO|O(SAVE_LOCAL_R_T)|O(STACK_REUSE_ADDING),     S(EIG_ADD),                  5, 2, 1, 3, 3, 0, 0, {0},              2, 1, 1 },
{ "stack-da-th",   KD|LV|SO|TH|O(STACK_REUSE_ADDING),                    S(DOUB_ADD),                 5, 2, 1, 2, 3, 1, 4, {K_LAMB},         2, 0, 1 },
{ "topdown",       KD|LV|SO|O(TOP_DOWN_ADDING)|O(SAVE_LAYER_R_T_S)|O(SAVE_TOTAL_R_T_S), S(EIG_ADD),   5, 2, 1, 2, 3, 1, 4, {K_LAMB},         1, 1, 1 },
{ "bottomup",      KD|LV|SO|O(BOTTOM_UP_ADDING)|O(SAVE_LAYER_R_T_S)|O(SAVE_TOTAL_R_T_S), S(PADE_ADD), 5, 2, 1, 2, 3, 1, 4, {K_LAMB},         1, 1, 1 },
{ "vec-gc",        KD|LV|SO|O(VECTOR)|O(PHASE_MATRIX_GC)|SAVES,          S(EIG_ADD),                  5, 2, 3, 1, 2, 0, 0, {0},              2, 1, 1 },
{ "vec-eb",        KD|LV|SO|O(VECTOR)|O(PHASE_MATRIX_GC)|SAVES,          S(EIG_BVP),                  5, 2, 3, 1, 2, 0, 0, {0},              2, 1, 1 },
{ "vec4",          KD|LV|SO|O(VECTOR)|SAVES,                             S(DOUB_ADD),                 5, 2, 4, 1, 2, 1, 4, {K_LAMB},         2, 0, 1 },
{ "single",        KD|LV|SO|O(SAVE_LEG_POLYS)|O(SAVE_PHASE_MATS),        S(SINGLE),                   5, 2, 1, 1, 2, 1, 4, {K_RPV},          2, 1, 1 },
{ "two-os",        KD|LV|SO|O(SAVE_LEG_POLYS)|O(SAVE_PHASE_MATS),        S(TWO_OS),                   5, 3, 1, 1, 2, 0, 0, {0},              2, 1, 1 },
{ "sos",           LV|SO|O(SAVE_LEG_POLYS)|O(SAVE_PHASE_MATS),           S(SOS),                      5, 2, 1, 0, 2, 1, 4, {K_LAMB},         2, 0, 1 },
{ "two-str",       LV|SO|O(SAVE_PHASE_MATS),                             S(TWO_STREAM),               3, 1, 1, 0, 2, 0, 0, {0},              2, 0, 1 },
{ "four-str",      LV|SO|TH|O(SAVE_PHASE_MATS)*0,                        S(EIG_BVP),                  5, 2, 1, 0, 2, 0, 0, {0},              2, 0, 1 },
{ "noaz",          KD|LV|SO|O(NO_AZIMUTHAL)|SAVES,                       S(EIG_ADD)|S(EIG_BVP),       5, 2, 1, 1, 2, 0, 0, {0},              2, 1, 1 },
{ "greens-old",    KD|LV|SO|O(FOUR_CONV_OLD)|O(PART_SOL_GREENS)|O(QUAD_DOUB_GAUS_LEG)|SAVES, S(EIG_BVP), 5, 2, 1, 1, 2, 0, 0, {0},           2, 0, 1 },
{ "multi-kern",    KD|LV|SO|SAVES,                                       S(EIG_ADD),                  5, 2, 1, 1, 1, 3, 4, {K_LAMB, K_RPV, XRTM_KERNEL_USER_DEFINED}, 2, 1, 1 },
};
#define N_CFGS ((int) (sizeof(all_cfgs) / sizeof(all_cfgs[0])))
#endif
