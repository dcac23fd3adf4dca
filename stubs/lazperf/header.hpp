#include <lazperf/lazperf.hpp>
