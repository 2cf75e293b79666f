// Blocks placed flush against inaccessible pages, so that a single element read or written
// outside them traps; the slack on the other side holds a pattern that is checked afterwards.
#pragma once
#include "pbt.h"

struct Arena {
  char* base = nullptr; size_t pages = 0, n = 0; char* at = nullptr; uint32_t pat = 0xFFC0DEADu;
  static const size_t PG = 4096;
  void make(size_t bytes) {
    pages = (bytes + PG - 1) / PG;
    base = (char*)mmap(0, (pages + 2) * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (base == MAP_FAILED) { perror("mmap"); _exit(3); }
    mprotect(base, PG, PROT_NONE); mprotect(base + (pages + 1) * PG, PG, PROT_NONE);
  }
  void drop() { if (base) munmap(base, (pages + 2) * PG); base = nullptr; }
  // bytes at the end (or the start) of the arena; align applies to the start address
  char* place(size_t bytes, bool end, size_t align = 4) {
    if (!base || bytes > pages * PG) { fprintf(stderr, "arena too small\n"); _exit(3); }
    char* lo = base + PG; char* hi = lo + pages * PG;
    at = end ? (char*)((uintptr_t)(hi - bytes) / align * align) : lo; n = bytes;
    size_t slack = std::min<size_t>(512, pages * PG - n);
    uint32_t* u;
    if (end) { size_t s = std::min<size_t>(512, at - lo); for (char* p = at - s / 4 * 4; p < at; p += 4) memcpy(p, &pat, 4); for (char* p = at + n; p + 4 <= hi; p += 4) memcpy(p, &pat, 4); }
    else for (size_t i = 0; i + 4 <= slack; i += 4) memcpy(at + n + i, &pat, 4);
    (void)u;
    return at;
  }
  bool intact() const {
    char* lo = base + PG; char* hi = lo + pages * PG; uint32_t v;
    size_t s = std::min<size_t>(512, at - lo) / 4 * 4;
    for (char* p = at - s; p < at; p += 4) { memcpy(&v, p, 4); if (v != pat && at != lo) return false; }
    size_t e = std::min<size_t>(512, hi - (at + n));
    for (size_t i = 0; i + 4 <= e; i += 4) { memcpy(&v, at + n + i, 4); if (v != pat) return false; }
    return true;
  }
  float* f() const { return (float*)at; }
};
