// C07: an idle logger has flushed everything.
#include "scn_idle.h"
using namespace idle;
int main(int argc, char** argv)
{
    mc::warmup(warm);
    return mc::main_(argc, argv, "C07",
        "every number of sinks and operation combination of the scenario under every schedule with at most the stated number of preemptions; at every quiescent point (no thread can make progress other than polling) the flushed prefix must be everything",
        {
            {"sinks_ops", sinks_ops, 1, 3, 60, 600},
            {"rounds", rounds, 2, 4, 60, 600},
            {"two_threads", two_threads, 2, 4, 30, 400},
        }, {"quiescence: the background thread is considered idle after three identical polling rounds plus 60 further rounds"});
}
