// C01: exactly-once, in-order, uncorrupted delivery of blocking log calls.
#include "scn_delivery.h"
using namespace delivery;

int main(int argc, char** argv)
{
    mc::warmup(warm);
    return mc::main_(argc, argv, "C01",
        "every schedule of the harness threads and the logger thread with at most the stated number of preemptions; "
        "an execution is non-trivial if it ends in a distinct observed output order",
        {
            {"basic", basic, 3, 5, 12, 300},
            {"full_wrap", full_wrap, 3, 5, 12, 300},
            {"string_wait", string_wait, 3, 5, 12, 300},
            {"exact_fill", exact_fill, 3, 5, 12, 300},
            {"two_producers", two_producers, 2, 3, 15, 400},
            {"two_full", two_full, 2, 3, 15, 400},
            {"any3", any<3>, 1, 2, 30, 600},
            {"any2", any<2>, 2, 4, 30, 600},
            {"any4", any<4>, 1, 1, 30, 900, false, 1},
            {"mixed_try", mixed_try, 3, 5, 10, 300},
        },
        {});
}
