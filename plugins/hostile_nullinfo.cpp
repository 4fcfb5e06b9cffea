// Makes no info.
#include "probe.h"

extern "C"
{
  GENERATE_INSTANCE_CREATOR(Probe);
  LIBEXPORT lp::PluginTemplateInfo* CreateInfo() { return nullptr; }
}
