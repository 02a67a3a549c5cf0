#include "tbb/parallel_for.h"
#include "tbb/blocked_range.h"
