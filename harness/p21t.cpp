#define THREADS
#include "p21.cpp"
