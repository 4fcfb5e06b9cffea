#include "probe.h"

VF_PROBE("a/b")
