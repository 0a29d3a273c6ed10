#pragma once
#include "simapi.hpp"
#include <cstdarg>
#include <cstdio>
#include <string>
namespace phosphor::logging
{
enum class level { EMERG = 0, ALERT = 1, CRIT = 2, ERR = 3, WARNING = 4, NOTICE = 5, INFO = 6, DEBUG = 7 };
namespace sim_details
{
template <class... A> std::string fmt(const char* f, A... a)
{
    char buf[512];
    if constexpr (sizeof...(A) == 0) std::snprintf(buf, sizeof buf, "%s", f);
    else std::snprintf(buf, sizeof buf, f, a...);
    return buf;
}
} // namespace sim_details
template <class... A> std::string entry(const char* f, A... a) { return sim_details::fmt(f, a...); }
template <level L, class M, class... E> void log(M&& m, E&&... e)
{
    std::string s;
    ((s += " " + std::string(e)), ...);
    sim::phosphor_log((int)L, std::string(m), s);
}
} // namespace phosphor::logging
