#include "grad.h"
extern "C" void vpC05_1d() { scalar_gradient<1, 2, SecondOrderCentral>(); }
extern "C" void vpC05_2d() { scalar_gradient<2, 2, SecondOrderCentral>(); }
extern "C" void vpC05_3d() { scalar_gradient<3, 2, SecondOrderCentral>(); }
extern "C" void vpC05_again_1d() { scalar_gradient<1, 2, SecondOrderCentral, true>(); }
extern "C" void vpC05_again_2d() { scalar_gradient<2, 2, SecondOrderCentral, true>(); }
extern "C" void vpC05_again_3d() { scalar_gradient<3, 2, SecondOrderCentral, true>(); }
