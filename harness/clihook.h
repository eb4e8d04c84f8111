/* Force-included into the program under test, with vfhook.h */
#ifndef CLIHOOK_H
#define CLIHOOK_H
#include "vfhook.h"
#include <time.h>
time_t vf_time(time_t *);
#define time vf_time
#endif
