#pragma once
#include <sdbusplus/sim_core.hpp>
