#include "simapi.hpp"
extern "C"
{
[[noreturn]] void __wrap_exit(int c) { sim::sim_exit(c); }
[[noreturn]] void __wrap__exit(int c) { sim::sim_exit(c); }
[[noreturn]] void __wrap_quick_exit(int c) { sim::sim_exit(c); }
}
