// A clock the driver controls: replaces the clocks of the C++ library in this program.
#pragma once
#include <chrono>
#include <cstdint>
static int64_t g_now=1000000000LL*1700000000LL;     // nanoseconds
static void (*g_onclock)()=nullptr;
namespace std{namespace chrono{inline namespace _V2{
system_clock::time_point system_clock::now()noexcept{if(g_onclock)g_onclock();return system_clock::time_point(std::chrono::nanoseconds(g_now));}
steady_clock::time_point steady_clock::now()noexcept{if(g_onclock)g_onclock();return steady_clock::time_point(std::chrono::nanoseconds(g_now));}
}}}
