// Helpers shared by the scenarios.
#pragma once
#include "sim.h"
#include <string>
#include <vector>
#include <map>
#include <exception>
#include <new>

namespace scn
{
    // Deterministic data derived from an integer.
    inline uint64_t mixup(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }

    template <class... T> void use(T&&...) {}

    // Counts the objects of a kind that are alive; throws on request.
    struct Injected { int n; };
}
