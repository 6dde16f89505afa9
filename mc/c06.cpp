// C06: one logger used by several threads.
#include "scn_logger.h"
using namespace loggerops;
int main(int argc, char** argv)
{
    mc::warmup(warm);
    return mc::main_(argc, argv, "C06",
        "every schedule with at most the stated number of preemptions; non-trivial executions differ in the order in which the sinks' lines arrive and the level inherited",
        {
            {"get_get", get_get, 3, 4, 30, 400},
            {"register_get", register_get, 2, 4, 20, 400},
            {"style_get", style_get, 2, 4, 30, 400},
            {"style_style", style_style, 2, 3, 30, 400},
            {"path_get", path_get, 3, 4, 30, 300},
            {"path_style", path_style, 3, 4, 30, 300},
            {"default_level", default_level, 2, 3, 30, 300},
            {"handover", handover, 2, 4, 30, 300},
            {"control_full", control_full, 2, 3, 30, 300},
            {"three", three, 2, 3, 30, 300, false, 1},
        }, {});
}
