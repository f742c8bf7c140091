#include "omega_shim.hpp"
