// model of the back-off strategy: waiting means letting the other threads run
#include "symx.h"
#include "iox/detail/adaptive_wait.hpp"
namespace iox { namespace detail {
void adaptive_wait::wait() noexcept { symx_yield(); }
void adaptive_wait::wait_loop(const function_ref<bool()> f) noexcept { while (f()) symx_yield(); }
} }
