// X01 no kernel races, no access outside live memory or to the wrong side: every workload of the
// field and finite-volume checks again, with race detection, judged only by the memory checks
#include "fv.hpp"

SIM_PROPERTY(X01, "a run counts as non-trivial when the workload it drives does")
{
    static const char* fields[] = {"F01", "F02", "F03", "F04", "F05"};
    sim::onlyKinds(",race,wrong-placement,out-of-bounds,use-after-free,memory-space,null-dereference,bad-free,double-free,wild-realloc,storage-leak,leak,crash,nested-kernel,pending-buffer,bad-range,");
    auto& fv = fv::WorkList::all();
    uint32_t nf = 5, n = (uint32_t)fv.size();
    auto m0 = sim::memStat();
    for (int i = 0; i < 3; i++)
    {
        uint32_t k = sim::choose(sim::W, nf + n + n);
        sim::probe(k < nf ? "field workload" : "finite-volume workload");
        {
            hk::KernelMode km(true);
            if (k < nf) sim::propFn(fields[k])();
            else
                fv[(k - nf) % n]();
        }
        // sometimes other workloads follow, on other executors: what the first left behind must not be used
        if (sim::exits() || !sim::chooseAs(sim::W, 2, sim::rnd(sim::W, 6) == 0)) break;
        sim::probe("another-history");
    }
    auto m1 = sim::memStat();
    if (!sim::exits() && (m1.kkBlocks != m0.kkBlocks || m1.devBlocks != m0.devBlocks))
        sim::fail("leak", "%lld host and %lld device storage blocks were never released", (long long)(m1.kkBlocks - m0.kkBlocks), (long long)(m1.devBlocks - m0.devBlocks));
}
