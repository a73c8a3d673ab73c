/* Random valid histories over the whole interface against the shadow heap. */
#include "heap.h"
using namespace vh;
int main(int argc, char **argv) {
    init(argc, argv);
    long ops = argi(argc, argv, "--ops", 400000);
    Heap h(g_seed);
    h.strong = VH_CFG_STRONG_SIZE_ISOLATION;
    h.max_size = argi(argc, argv, "--max", 1 << 20);
    h.max_live = (size_t) argi(argc, argv, "--live", 48) << 20;
    if(argi(argc, argv, "--small", 0)) { /* few big blocks, much reuse */
        h.w[O_BIG] = 1;
        h.w[O_FREE] = 420;
        h.w[O_CHURN] = 4;
        h.w[O_DRAIN] = 4;
    }
    h.run(ops);
    sample("%llu operations, %zu blocks live at the end, %zu private zones", (unsigned long long) h.ops, h.sh.live.size(), h.zones.size());
    tally_max("max_live_blocks", h.sh.live.size());
    h.end();
    finish();
}
