// Refuses to make an instance.
#include "probe.h"

extern "C"
{
  LIBEXPORT lp::PluginInstance* CreateInstance(lp::PluginConfiguration) { throw lp::exceptions::OperationFailedException("no"); }
  GENERATE_INFO_CREATOR(info, info->mIdentifier = "Refusing";)
}
