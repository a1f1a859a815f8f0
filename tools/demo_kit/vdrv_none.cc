#include "vdrv.h"
namespace vdrv { bool runExtra(const std::string&, const eckit::Value&, std::string&) { return false; } }
