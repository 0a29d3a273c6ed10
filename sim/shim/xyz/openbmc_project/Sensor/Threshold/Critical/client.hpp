#pragma once
#include <xyz/openbmc_project/Sensor/Threshold/Critical/common.hpp>
