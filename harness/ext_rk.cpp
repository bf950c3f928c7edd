// N01 steps through the external integrator, against a stand-in for its library: the workload of V10
// with integrators that are kept, copied and reused, and with failing library calls
#define FV_EXT 1
#include "fv_time.cpp"

SIM_PROPERTY(N01, "a run counts as non-trivial when cells received concurrent contributions on a parallel executor, or an allocation or a library call failed")
{
    fv::growing = true;
    hk::KernelMode km(true);
    simext::reset();
    sim::allowFaults(sim::flip(sim::F, 1, 2));
    auto m0 = sim::memStat();
    do
    {
        simext::st().faults = sim::flip(sim::F, 1, 3);
        Stepping<scalar> s;
        s.run();
        if (sim::exits()) return;
        s.vectors();
        simext::st().faults = false;
    }
    while (sim::chooseAs(sim::W, 2, sim::rnd(sim::W, 6) == 0));
    if (simext::st().live) sim::fail("leak", "%ld library objects were never released", simext::st().live);
    auto m1 = sim::memStat();
    if (m1.kkBlocks != m0.kkBlocks || m1.devBlocks != m0.devBlocks) sim::fail("leak", "%lld host and %lld device storage blocks were never released", (long long)(m1.kkBlocks - m0.kkBlocks), (long long)(m1.devBlocks - m0.devBlocks));
}
