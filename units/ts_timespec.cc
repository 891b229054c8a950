#define HOGL_TIMESTAMP_USE_TIMESPEC_FORMAT 1
#include "ts.cc"
