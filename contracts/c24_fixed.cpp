// C24: one step of the fixed-source solver
// sources: solvers/fixed_source_solver.cpp
// trials *: 15 1500
#include "core/transport_sweeper.hpp"
#include "core/source.hpp"
#include "solvers/fixed_source_solver.hpp"
#include "solvers.hpp"
#include "vf.hpp"
using namespace mocc;
#ifdef VF_SYM
// the sweeper and the source, reduced to a record of what they have been asked to do
static long ng_, swept_, stored_, started_, fissions_, scatters_;
static bool with_fission_;
static const ArrayB1 *fission_;
static void store(TransportSweeper *)
{
    vf::check(swept_ == 0, "the old flux is the flux before the first sweep");
    stored_ = 1;
}
static void start(Source *, int g)
{
    vf::check((long)g == swept_, "groups in order");
    started_ = 1, fissions_ = 0, scatters_ = 0;
}
static void fission(Source *, const ArrayB1 &f, int g)
{
    vf::check(vf::all((long)g == swept_, started_ == 1, fissions_ == 0), "fission source once per group");
    vf::check(with_fission_ && &f == fission_, "the fission source that was set");
    fissions_ = 1;
}
static void scatter(Source *, size_t g)
{
    vf::check(vf::all((long)g == swept_, started_ == 1, scatters_ == 0), "in-scatter once per group");
    scatters_ = 1;
}
static void sweep(TransportSweeper *, int g)
{
    vf::check((long)g == swept_ && swept_ < ng_, "each group is swept once, in order");
    vf::check(stored_ == 1, "the old flux is kept before the first sweep");
    vf::check(vf::all(started_ == 1, scatters_ == 1, fissions_ == (with_fission_ ? 1 : 0)), "the source of the group is complete");
    started_ = 0, fissions_ = 0, scatters_ = 0;
    swept_ = swept_ + 1;
}
template <class M> static int slot(M m)
{
    union {
        M m;
        long v[2];
    } u;
    u.m = m;
    return (int)((u.v[0] - 1) / 8);
}
static void step(bool with_fission)
{
    FixedSourceSolver &f = vf::object<FixedSourceSolver>("solver");
    TransportSweeper &sw = vf::object<TransportSweeper>("sweeper");
    Source &so           = vf::object<Source>("source");
    ArrayB1 &fs          = vf::object<ArrayB1>("fission_source");
    void *st[64], *ot[16];
    st[slot(&TransportSweeper::store_old_flux)] = (void *)&store;
    st[slot(&TransportSweeper::sweep)]          = (void *)&sweep;
    ot[slot(&Source::initialize_group)]         = (void *)&start;
    ot[slot(&Source::fission)]                  = (void *)&fission;
    ot[slot(&Source::in_scatter)]               = (void *)&scatter;
    *(void ***)&sw = st;
    *(void ***)&so = ot;
    *(TransportSweeper **)&f.sweeper_ = &sw;
    *(Source **)&f.source_            = &so;
    with_fission_ = with_fission;
    fission_      = &fs;
    f.fs_         = with_fission ? &fs : nullptr;
    ng_           = vf::nat("groups", 1, 5);
    vf::assume(ng_ <= 100000);
    f.ng_  = ng_;
    swept_ = stored_ = started_ = fissions_ = scatters_ = 0;
    vf::hint1("step", [&](long a) { return swept_ == a; });
    vf::hint1("step", [&](long a) { return vf::all(stored_ == 1, started_ == 0); });
    f.FixedSourceSolver::step();
    vf::check(swept_ == ng_, "every group is swept");
}
VF_HARNESS(step_with_fission) { vf::loose(); step(true); }
VF_HARNESS(step_without_fission) { vf::loose(); step(false); }
#else
VF_HARNESS(step_with_fission) { vfv::eigenvalue(); }
VF_HARNESS(step_without_fission) { vfv::fixed(); }
#endif
