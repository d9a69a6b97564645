#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <string>
#include <vector>
static int bad = 0;
#define NEAR(a, b, tol) do { double x_ = (a), y_ = (b); if (!(std::fabs(x_ - y_) <= (tol))) { if (!bad++) std::cerr << __LINE__ << ": " #a " = " << x_ << ", expected " << y_ << std::endl; } } while (0)
#define TRUE(a) do { if (!(a)) { if (!bad++) std::cerr << __LINE__ << ": not true: " #a << std::endl; } } while (0)
#define END return bad ? (std::cerr << bad << " failures" << std::endl, 1) : 0
static double rnd() { static unsigned long s = 88172645463325252ul; s ^= s << 13; s ^= s >> 7; s ^= s << 17; return double(s % 20001) / 10000.0 - 1.0; }
