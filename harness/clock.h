// A clock under the control of the driver: every clock of the C++ library reads clock_gettime().
#pragma once
#include <time.h>
namespace vf { inline long long& clock_ns() { static long long n = 1700000000000000000LL; return n; } }
extern "C" int clock_gettime( clockid_t, struct timespec* t ) noexcept {
	t->tv_sec = vf::clock_ns() / 1000000000LL; t->tv_nsec = vf::clock_ns() % 1000000000LL; return 0;
}
