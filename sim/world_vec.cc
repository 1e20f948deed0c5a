#include "world_vec.h"
#ifndef VEC_KIND
#define VEC_KIND 0
#endif
using namespace sim;
#define STR2(x) #x
#define STR(x) STR2(x)
#if VEC_KIND == 0
using W = VecWorld<int, best::vec_inline_default<int>(), SimAlloc>;
#elif VEC_KIND == 1
using W = VecWorld<Tracked, 3, SimAlloc>;
#elif VEC_KIND == 2
using W = VecWorld<Tracked, 0, SimAlloc>;
#elif VEC_KIND == 3
using W = VecWorld<MoveOnly, 2, SimAlloc>;
#elif VEC_KIND == 4
using W = VecWorld<Handle, 2, SimAlloc>;
#elif VEC_KIND == 5
using W = VecWorld<best::strbuf, best::vec_inline_default<best::strbuf>(), best::malloc>;
#elif VEC_KIND == 6
using W = VecWorld<Wide, 1, SimAlloc>;
#elif VEC_KIND == 7
using W = VecWorld<u8, 40, SimAlloc>;
#elif VEC_KIND == 8
using W = VecWorld<best::vec<int>, 0, SimAlloc>;
#elif VEC_KIND == 9
using W = VecWorld<Large, 1, SimAlloc>;
#elif VEC_KIND == 10
using W = VecWorld<u8, 200, SimAlloc>;
#endif
static RegisterWorld r({"vec" STR(VEC_KIND), [](Rng& r, Plan& p) { gen_vec(r, p, VEC_KIND); }, [](const Plan& p) { W::go(p); }, 0});
