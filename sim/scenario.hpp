// Seeded scenario generation, one focus per property.
#pragma once
#include "world.hpp"

namespace sim
{
struct Focus
{
    std::string id, code;
    std::vector<std::string> tags; // prefixes of the oracle tags that decide the property
    std::vector<int> variants{0, 0, 0, 1, 2, 12, 15};
    double dbusCfg = 0.3;
    int evMin = 3, evMax = 12;
    int durMin = 40, durMax = 75;  // seconds of activity
    int quietMin = 12;             // fault-free tail
    double log = 0.1, core = 0.08, tune = 0.0;
    double sysfsFan = 0.4, sysfsTach = 0.2, sysfsTemp = 0.1, ext = 0.12;
    double crit = 0.4, availIf = 0.25, funcIf = 0.2, timeoutSet = 0.3;
    double hyst = 0.3, step = 0.5, ceil = 0.15, acc = 0.12, power = 0.2, margin = 0.3, conv = 0.3, slew = 0.2, deriv = 0.15, integ = 0.6;
    double missOk = 0.15, unavailNF = 0.2, hostOffOk = 0.15, host = 0.35, redun = 0.12, fsp0 = 0.25, share = 0.3, multiPid = 0.3, scaled = 0.15;
    double slow = 0.2;   // probability of a slow/stalling schedule
    double initFail = 0.15; // a sensor starts in a failed state
    int zonesMax = 3;
    std::map<std::string, double> w; // event weights (default table when absent)
};
extern const std::vector<Focus>& focuses();
const Focus* focusById(const std::string& id);
json genScenario(uint64_t seed, const Focus& f);
} // namespace sim
