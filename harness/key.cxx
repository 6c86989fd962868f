// entry points the analysis starts from; never executed
#include "common/logging/log_key.h"
#include "common/logging/log_reader.h"
#include "common/logging/log_writer.h"
std::string vh_name(int k) { return mc::logging::logKeyName(k); }
void vh_keys(mc::logging::LogKey* k) { *k = mc::logging::IMU_SAMPLE; }
