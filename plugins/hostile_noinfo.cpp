// Has no CreateInfo.
#include "probe.h"

extern "C" { GENERATE_INSTANCE_CREATOR(Probe); }
