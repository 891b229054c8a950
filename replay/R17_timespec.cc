#define HOGL_TIMESTAMP_USE_TIMESPEC_FORMAT 1
#define HV_NO_MAIN 1
#define HV_SECOND 1
#define hogl hogl_timespec_format
#include "R17.cc"
