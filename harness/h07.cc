#include "grad.h"
extern "C" void vpC07_central_1d() { vector_gradient<1, 2, SecondOrderCentral>(); }
extern "C" void vpC07_central_2d() { vector_gradient<2, 2, SecondOrderCentral>(); }
extern "C" void vpC07_central_3d() { vector_gradient<3, 2, SecondOrderCentral>(); }
extern "C" void vpC07_third_1d() { vector_gradient<1, 3, ThirdOrder>(); }
extern "C" void vpC07_third_2d() { vector_gradient<2, 3, ThirdOrder>(); }
extern "C" void vpC07_third_3d() { vector_gradient<3, 3, ThirdOrder>(); }
extern "C" void vpC07_central_again_1d() { vector_gradient<1, 2, SecondOrderCentral, true>(); }
extern "C" void vpC07_third_again_1d() { vector_gradient<1, 3, ThirdOrder, true>(); }
extern "C" void vpC07_central_again_2d() { vector_gradient<2, 2, SecondOrderCentral, true>(); }
extern "C" void vpC07_third_again_2d() { vector_gradient<2, 3, ThirdOrder, true>(); }
extern "C" void vpC07_central_again_3d() { vector_gradient<3, 2, SecondOrderCentral, true>(); }
extern "C" void vpC07_third_again_3d() { vector_gradient<3, 3, ThirdOrder, true>(); }
