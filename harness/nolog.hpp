// Replaces the repository's logger for symbolic runs: log output is outside every property.
#define LOGGER_HPP
#include <cstdint>
#include <string>
#include <sstream>
struct sx_nolog { template<typename T> sx_nolog const & operator<<(T const &) const { return *this; } };
#define LOG(level) if (true) {} else sx_nolog{}
#define LOG_(level) if (true) {} else sx_nolog{}
#define DEVLOG(level) if (true) {} else sx_nolog{}
