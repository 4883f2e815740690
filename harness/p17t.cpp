#define THREADS
#include "p17.cpp"
