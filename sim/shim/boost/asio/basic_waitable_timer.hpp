#pragma once
#include <boost/asio/steady_timer.hpp>
