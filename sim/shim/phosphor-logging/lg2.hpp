#pragma once
#include <phosphor-logging/log.hpp>
