// Force-included into the code under test: what the hooks in it refer to.
#ifndef VERIF_SIM_HOOKS_H_
#define VERIF_SIM_HOOKS_H_
#ifdef __cplusplus
extern "C"
#endif
int sim_cache_budget();
#endif
