#include "probe.h"

VF_PROBE("X")
