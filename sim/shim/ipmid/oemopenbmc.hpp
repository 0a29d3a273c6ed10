#pragma once
#include <cstdint>
namespace oem
{
enum Cmd : std::uint8_t { gpioCmd = 0, i2cCmd = 2, flashCmd = 3, fanManualCmd = 4, ethStatsCmd = 48, blobTransferCmd = 128 };
}
