#define VP_NO_MAIN
#include "blocks.hpp"
using namespace bl;
using string = std::string;
#if CFG == 0
VP_CFG(Tracked, 0, TrackAlloc<Tracked>);
#elif CFG == 1
VP_CFG(Tracked, 1, TrackAlloc<Tracked>);
#elif CFG == 2
VP_CFG(Tracked, 2, TrackAlloc<Tracked>);
#elif CFG == 3
VP_CFG(Tracked, 3, std::allocator<Tracked>);
#elif CFG == 4
VP_CFG(Tracked, 5, TrackAlloc<Tracked>);
#elif CFG == 5
VP_CFG(int, 2, std::allocator<int>);
#elif CFG == 6
VP_CFG(string, 1, TrackAlloc<string>);
#elif CFG == 7
VP_CFG(MoveOnly, 2, TrackAlloc<MoveOnly>);
#elif CFG == 8
VP_CFG(MoveOnly, 0, std::allocator<MoveOnly>);
#elif CFG == 9
VP_CFG(Big, 1, TrackAlloc<Big>);
#elif CFG == 10
VP_CFG(string, 4, std::allocator<string>);
#elif CFG == 11
VP_CFG(int, 0, TrackAlloc<int>);
#elif CFG == 12
VP_CFG(Json, 2, std::allocator<Json>);
#elif CFG == 13
VP_CFG(int, 3, TrackAlloc<int>);
#endif
