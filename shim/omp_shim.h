// Deterministic OpenMP runtime owned by the harness: team members are coroutines run on
// one OS thread, in an order the harness chooses, switching only at synchronisation.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
// order: 0 ascending, 1 descending, 2 permuted by seed, 3 permuted and re-permuted at every barrier
void shim_configure(int order, uint64_t seed, int team_limit);
void shim_reset(void);
uint64_t shim_regions(void);       // parallel regions executed with more than one member
int shim_max_team(void);           // largest team formed since reset
int shim_requested(void);          // last omp_set_num_threads value
int shim_cur_tid(void);
// hooks for the race detector / simulated clock (weak in the shim, may be overridden)
void shim_hook_region(int begin);                 // enters/leaves a parallel region
void shim_hook_phase(void);                       // a barrier completed
void shim_hook_thread(int tid);                   // now running tid (-1: serial)
void shim_hook_lock(int delta);                   // critical / atomic / lock enter(+1) leave(-1)
void shim_hook_stack(void* lo, size_t n);         // a coroutine stack was (re)used
}
