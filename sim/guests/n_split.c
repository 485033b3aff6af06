#define SPLIT
#include "n_lib.c"
