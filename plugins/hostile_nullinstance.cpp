// Makes no instance.
#include "probe.h"

extern "C"
{
  LIBEXPORT lp::PluginInstance* CreateInstance(lp::PluginConfiguration) { return nullptr; }
  GENERATE_INFO_CREATOR(info, info->mIdentifier = "NullInstance";)
}
