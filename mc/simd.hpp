// memory for range algorithms: guard pages on both sides of one range, and canaries around another
#pragma once
#include "mc.hpp"
#include <sys/mman.h>

namespace mem {
//! a region of `pages` accessible pages between two inaccessible ones
struct Guarded {
    static constexpr std::size_t page = 4096;
    unsigned char* base;
    std::size_t bytes;
    explicit Guarded(std::size_t pages = 1) : bytes(pages * page) {
        void* m = mmap(nullptr, bytes + 2 * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if(m == MAP_FAILED)
            mc::fail("harness: mmap");
        base = static_cast<unsigned char*>(m) + page;
        if(mprotect(base, bytes, PROT_READ | PROT_WRITE))
            mc::fail("harness: mprotect");
    }
    unsigned char* begin() { return base; }
    unsigned char* end() { return base + bytes; }
};
}  // namespace mem
