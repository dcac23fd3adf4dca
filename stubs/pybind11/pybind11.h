#include "pybind_stub.hpp"
