// the server, with its main() renamed
#include <pthread.h>
#define main mtd_main
#include "mtd.cc"
#undef main
