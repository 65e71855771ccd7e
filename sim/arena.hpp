// The simulated heap. Everything the code under test allocates through operator new or the C allocator while
// a Scope is open comes from here, at addresses that only the configuration and the history decide.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>

struct ArenaConfig
{
    int reuse = 0;    // 0 LIFO, 1 FIFO, 2 random, 3 never
    int dir = 0;      // 0 ascending, 1 descending, 2 scattered
    int stride = 0;   // 1: blocks of the size of an atom sit at addresses equal modulo 2^32
    int junk = 0;     // contents of a fresh block: 0 leave, 1 zero, 2 0xff, 3 0xaa, 4 random
    int low = 0;      // 1: the heap sits below 2 GiB
    uint64_t seed = 1;
};

struct ArenaStats
{
    uint64_t allocs = 0, frees = 0, live_blocks = 0, live_bytes = 0, reused = 0, strided = 0, forced = 0, failed_new = 0, failed_malloc = 0;
};

namespace arena
{
    void init(const ArenaConfig &cfg, size_t atom_size);
    bool active();
    const ArenaStats &stats();
    void force_next(size_t size, uintptr_t addr);      // the next block of that size class goes to addr, if free
    bool forced_ok(uintptr_t addr);                    // may addr be used with force_next?
    uintptr_t forced_base();
    void fail_new(long after, bool sticky);            // the (after+1)-th operator new from now throws; -1 = off
    void fail_malloc(long after);
    bool fail_fired();
    std::string corruption();                          // non-empty: what the heap found broken
    uint64_t new_count();                              // operator new calls in scope since init
    extern int scope;                                  // > 0: inside the code under test
    struct Scope
    {
        int old;
        Scope() : old(scope) { scope = 1; }
        ~Scope() { scope = old; }
    };
    struct Out
    {
        int old;
        Out() : old(scope) { scope = 0; }
        ~Out() { scope = old; }
    };
}
