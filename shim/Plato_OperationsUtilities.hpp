#pragma once
#include "Plato_Interface.hpp"
