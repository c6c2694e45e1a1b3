// Work in dependence on the size of the input: CPU time of the smallest of
// several runs, so that a busy machine does not count.
#pragma once
#include <time.h>
#include "common.hpp"

namespace vf {

template<typename F> double cpu_seconds(F&& f) {
    timespec a, b;
    clock_gettime(CLOCK_THREAD_CPUTIME_ID, &a);
    f();
    clock_gettime(CLOCK_THREAD_CPUTIME_ID, &b);
    return (double)(b.tv_sec - a.tv_sec) + 1e-9 * (double)(b.tv_nsec - a.tv_nsec);
}

// make(n): input of size n; run(input). Linear work grows by `factor` from n to
// factor * n, quadratic work by factor squared: refused above 4 * factor, and only
// if three attempts agree. Returns a complaint or "".
template<typename M, typename R> std::string grows_linearly(size_t n, size_t factor, M&& make, R&& run) {
    std::string why;
    for (int attempt = 0; attempt < 3; ++attempt) {
        auto small = make(n);
        auto large = make(n * factor);
        double ts = 1e9, tl = 1e9;
        for (int k = 0; k < 5; ++k) { ts = std::min(ts, cpu_seconds([&] { run(small); })); }
        for (int k = 0; k < 3; ++k) {
            tl = std::min(tl, cpu_seconds([&] { run(large); }));
            if (tl > 2) { break; }
        }
        if (tl < 0.02 || tl < 4.0 * (double)factor * std::max(ts, 1e-5)) { return ""; }
        std::ostringstream o;
        o << "size " << n << " takes " << ts * 1000 << " ms, size " << n * factor << " takes " << tl * 1000 << " ms";
        why = o.str();
    }
    return why;
}

}
