// Has no CreateInstance.
#include "probe.h"

extern "C" { GENERATE_INFO_CREATOR(info, info->mIdentifier = "NoInstance";) }
