#include "probe.h"

VF_PROBE("Probe")
