// C23, bounded: histories against reference flights, attenuation along a line, and balances in an endless medium
// trials attenuation: 40 800
// trials endless: 25 500
// trials *: 120 3000
#include "histories.hpp"
#ifndef VF_SYM
VF_HARNESS(flights) { vfh::flights(); }
VF_HARNESS(attenuation) { vfh::attenuation(); }
VF_HARNESS(banks) { vfh::banks(); }
VF_HARNESS(endless) { vfh::endless(); }
#endif
