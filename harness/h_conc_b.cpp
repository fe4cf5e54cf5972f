// A second translation unit of the same program.
#include "vp_std.hpp"
#include <parmcb/parmcb.hpp>
#include <parmcb/util.hpp>
void vp_set_from_other_unit(std::size_t n) { parmcb::set_global_tbb_concurrency(n); }
