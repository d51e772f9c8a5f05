#include "c27.c"
