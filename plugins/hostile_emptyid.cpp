// Has an empty identifier.
#include "probe.h"

VF_PROBE("")
