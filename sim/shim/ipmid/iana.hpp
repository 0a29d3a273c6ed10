#pragma once
#include <cstdint>
namespace oem { using Number = std::uint32_t; constexpr Number obmcOemNumber = 49871; constexpr Number googOemNumber = 11129; }
