#define ASPECT GUARANTEE
#define ID "C14"
#include "c13_adapt.cpp"
