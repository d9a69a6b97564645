#include "vp_streams.hpp"
namespace std {
struct vp_init_o : ostream { vp_init_o(int h) { _h=h; } };
ostream cout, cerr, clog; istream cin;
struct vp_init { vp_init() { cout._h=1; cerr._h=2; clog._h=2; cin._h=3; } };
}
static std::vp_init vp_init_ __attribute__((init_priority(101)));
template class std::basic_string<char>;
