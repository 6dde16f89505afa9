// C03: non-blocking log calls.
#include "scn_try.h"
using namespace trylog;
int main(int argc, char** argv)
{
    mc::warmup(warm);
    return mc::main_(argc, argv, "C03",
        "every schedule with at most the stated number of preemptions; non-trivial executions differ in which messages were discarded and in how many warnings reported them",
        {
            {"drop_close", drop_close, 3, 6, 20, 300},
            {"drop_mixed", drop_mixed, 3, 5, 20, 300},
            {"kinds", kinds, 3, 5, 20, 300},
            {"two_sinks", two_sinks, 2, 3, 25, 400},
            {"idle_accepts", idle_accepts, 3, 5, 10, 120},
            {"drop_reregister", drop_reregister, 3, 5, 20, 300},
        }, {});
}
