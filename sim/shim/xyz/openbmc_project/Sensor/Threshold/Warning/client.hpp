#pragma once
#include <xyz/openbmc_project/Sensor/Threshold/Warning/common.hpp>
