#pragma once
#include <stdint.h>
#include <stddef.h>
struct RaceInfo { bool found = false, overflow = false; uintptr_t addr = 0; int t1 = 0, t2 = 0; bool w1 = false, w2 = false; const void *pc1 = nullptr, *pc2 = nullptr; uint64_t accesses = 0; uint64_t regions = 0; };
void race_begin();
RaceInfo race_end();
