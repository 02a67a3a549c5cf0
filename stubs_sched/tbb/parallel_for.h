// Stand-in for the parallel loop of TBB: the iterations are given to the controlled scheduler
#ifndef VERIF_TBB_PARALLEL_FOR
#define VERIF_TBB_PARALLEL_FOR
#include "sched.hpp"
#include "blocked_range.h"

namespace tbb {
template<class I, class F> void parallel_for(const I begin, const I end, const F& f)
{
    if (begin < end)
        sched::parallel(size_t(end - begin), [&](const size_t i) { f(I(begin + I(i))); });
}
template<class I, class F> void parallel_for(const I begin, const I end, const I step, const F& f)
{
    if (begin < end)
        sched::parallel(size_t((end - begin + step - 1) / step), [&](const size_t i) { f(I(begin + I(i) * step)); });
}
template<class I, class F> void parallel_for(const blocked_range<I>& r, const F& f)
{
    const size_t n = size_t(r.end() - r.begin()), g = std::max<size_t>(1, r.grainsize());
    if (n)
        sched::parallel((n + g - 1) / g, [&](const size_t i) { f(blocked_range<I>(I(r.begin() + I(i * g)), I(r.begin() + I(std::min(n, (i + 1) * g))), g)); });
}
} // namespace tbb
namespace oneapi {
namespace tbb = ::tbb;
}
#endif
