// one object derived from the constructed one; the original is destroyed before the derived one is used
#pragma once
#include "vf.hpp"
#include <memory>
#include <sstream>
template <class T> static std::unique_ptr<T> derive(vf::Case& c, std::unique_ptr<T> a, const char** how)
{
    switch (c.rng.below(8)) {
        case 0: { *how = "copy"; std::unique_ptr<T> b(new T(*a)); a.reset(); return b; }
        case 1: { *how = "copy="; std::unique_ptr<T> b(new T()); *b = *a; a.reset(); return b; }
        case 2: { *how = "move"; std::unique_ptr<T> b(new T(std::move(*a))); a.reset(); return b; }
        case 3: { *how = "move="; std::unique_ptr<T> b(new T()); *b = std::move(*a); a.reset(); return b; }
        case 4: { *how = "swap"; std::unique_ptr<T> b(new T()); b->swap(*a); a.reset(); return b; }
        case 5: { *how = "load"; std::stringstream ss; a->serialize(ss); std::unique_ptr<T> b(new T()); a.reset(); b->load(ss); return b; }
        default: *how = "built"; return a;
    }
}
