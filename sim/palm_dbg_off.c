#define DBG_OFF
#include "palm_dbg.c"
