#ifndef VERIF_TBB_BLOCKED_RANGE
#define VERIF_TBB_BLOCKED_RANGE
#include <algorithm>
#include <cstddef>
namespace tbb {
template<class I> class blocked_range
{
    I _b, _e;
    size_t _g;

  public:
    using const_iterator = I;
    blocked_range(I b, I e, size_t g = 1) : _b(b), _e(e), _g(g) {}
    I begin() const { return _b; }
    I end() const { return _e; }
    size_t size() const { return size_t(_e - _b); }
    size_t grainsize() const { return _g; }
    bool empty() const { return not(_b < _e); }
};
} // namespace tbb
#endif
