#include "drv_plan.cpp"
