#define ASPECT FIELDS
#define ID "C15"
#include "c13_adapt.cpp"
