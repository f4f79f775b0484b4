// Shared between the parts of the simulator runtime.
#pragma once
#include <cstdint>
#include <cstddef>
#include <sys/types.h>

namespace sim::rt
{
    extern bool in_sim, in_rt, verbose;
    void point(const char* what);
    void accessRange(const void* p, size_t n, bool write, const void* pc);
    void logEvent(const char* s);
    uint64_t readClock(bool real);
    ssize_t real_write(int fd, const void* p, size_t n);
    struct RtScope { bool saved; bool active; RtScope() : saved(in_rt), active(!in_rt && in_sim) { in_rt = true; } ~RtScope() { in_rt = saved; } };
}
