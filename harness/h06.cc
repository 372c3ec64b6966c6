#include "grad.h"
extern "C" void vpC06_1d() { scalar_gradient<1, 3, ThirdOrder>(); }
extern "C" void vpC06_2d() { scalar_gradient<2, 3, ThirdOrder>(); }
extern "C" void vpC06_3d() { scalar_gradient<3, 3, ThirdOrder>(); }
extern "C" void vpC06_again_1d() { scalar_gradient<1, 3, ThirdOrder, true>(); }
extern "C" void vpC06_again_2d() { scalar_gradient<2, 3, ThirdOrder, true>(); }
extern "C" void vpC06_again_3d() { scalar_gradient<3, 3, ThirdOrder, true>(); }
