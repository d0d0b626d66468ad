// C24: one step of the eigenvalue solver, and the fixed-source iteration
// sources: solvers/fixed_source_solver.cpp solvers/eigen_solver.cpp
// trials normalize: 3000 60000
// trials *: 15 1500
#include "core/transport_sweeper.hpp"
#include "core/source.hpp"
#include "solvers/eigen_solver.hpp"
#include "util/utils.hpp"
#include "solvers.hpp"
#include "vf.hpp"
using namespace mocc;
#ifdef VF_SYM
template <class M> static int slot(M m)
{
    union {
        M m;
        long v[2];
    } u;
    u.m = m;
    return (int)((u.v[0] - 1) / 8);
}
static EigenSolver *e_;
// fission source before and after the step for an eigenvalue of one, at any two regions; total fission before and after
static double shape_[2][2], total_[2], k_;
static long n_, r_, s_, done_, coarse_;
static void source(const TransportSweeper *, double k, ArrayB1 &f)
{
    vf::check(k > 0, "eigenvalue is positive");
    vf::check((long)f.size() == n_, "one value per region");
    f.data_[r_] = shape_[done_][0] / k;
    f.data_[s_] = shape_[done_][1] / k;
}
static double total(const TransportSweeper *, bool old)
{
    if (done_ == 0) return old ? vf::real("stale") : total_[0];
    return old ? total_[0] : total_[1];
}
extern "C" void vfc_step(FixedSourceSolver *f)
{
    vf::check(done_ == 0, "one step of the fixed-source solver");
    vf::check(f->fs_ == &e_->fission_source_ && e_->fission_source_.data_[r_] == shape_[0][0] / k_,
              "the step is driven by the present fission source over the present eigenvalue");
    done_ = 1;
}
VF_CONTRACT(step, "mocc::FixedSourceSolver::step()")
extern "C" void vfc_coarse(EigenSolver *e)
{
    vf::check(done_ == 0 && coarse_ == 1, "acceleration once, before the step, when enabled");
    coarse_ = 2;
    k_      = vf::positive("k_coarse");
    e->keff_ = k_;
    shape_[0][0] = vf::real("shape_coarse0"), shape_[0][1] = vf::real("shape_coarse1");
    total_[0] = vf::positive("total_coarse");
}
VF_CONTRACT(coarse, "mocc::EigenSolver::do_cmfd()")
static void eigen_step(bool coarse)
{
    EigenSolver &e       = vf::object<EigenSolver>("solver");
    TransportSweeper &sw = vf::object<TransportSweeper>("sweeper");
    e_ = &e;
    void *st[64];
    st[slot(&TransportSweeper::calc_fission_source)] = (void *)&source;
    st[slot(&TransportSweeper::total_fission)]       = (void *)&total;
    *(void ***)&sw = st;
    *(TransportSweeper **)&e.fss_.sweeper_ = &sw;
    n_ = vf::nat("regions", 1, 10), r_ = vf::nat("region", 0, 9), s_ = vf::nat("other", 0, 9);
    vf::assume(r_ < n_ && s_ < n_ && r_ != s_ && n_ <= 1000000);
    vf::arr1(e.fission_source_, "fs", n_);
    vf::arr1(e.fission_source_prev_, "fs_prev", n_);
    e.fss_.fs_ = &e.fission_source_;
    bool on    = false;
    if (coarse) {
        CMFD &c = vf::object<CMFD>("cmfd");
        *(CMFD **)&e.cmfd_ = &c;
        on      = vf::boolean("enabled");
        c.is_enabled_ = on;
    } else {
        *(CMFD **)&e.cmfd_ = nullptr;
    }
    done_ = 0, coarse_ = on ? 1 : 0;
    k_ = vf::positive("k");
    e.keff_ = k_;
    shape_[0][0] = vf::real("shape00"), shape_[0][1] = vf::real("shape01"), shape_[1][0] = vf::real("shape10"), shape_[1][1] = vf::real("shape11");
    total_[0] = vf::positive("total0"), total_[1] = vf::positive("total1");
    e.EigenSolver::step();
    vf::check(done_ == 1, "one step of the fixed-source solver");
    vf::check(coarse_ == (on ? 2 : 0), "acceleration exactly when enabled");
    vf::check(e.keff_prev_ == k_, "eigenvalue before the step is kept");
    vf::check(vf::eq(e.keff_ * total_[0], k_ * total_[1]), "eigenvalue changes as total fission does");
    // both are normalized before they are compared, so a common factor does not matter
    const double *f = e.fission_source_.data_, *g = e.fission_source_prev_.data_;
    vf::check(vf::eq(f[r_] * shape_[1][1], f[s_] * shape_[1][0]), "fission source is the one of the new flux");
    vf::check(vf::implies(shape_[1][0] != 0.0, f[r_] != 0.0), "fission source is not lost");
    vf::check(vf::eq(g[r_] * shape_[0][1], g[s_] * shape_[0][0]), "fission source before the step is kept");
    vf::check(vf::implies(shape_[0][0] != 0.0, g[r_] != 0.0), "fission source before the step is not lost");
}
VF_HARNESS(eigen_step) { vf::loose(); eigen_step(false); }
VF_HARNESS(eigen_step_accelerated) { vf::loose(); eigen_step(true); }
#else
VF_HARNESS(eigen_step) { vfv::eigenvalue(); }
VF_HARNESS(eigen_step_accelerated) { vfv::eigenvalue(true); }
#endif
VF_HARNESS(normalize)
{
    long n = vf::nat("n", 1, 12), r = vf::nat("r", 0, n - 1);
    vf::assume(r < n && n <= 1000000);
    double *p = vf::buffer<double>("p", n, 0.0, 3.0);
#ifdef VF_SYM
    vf::assume(vf::forall(0, n, [&](long i) { return p[i] >= 0; }));
    const double *q = vf::snapshot(p, n);
#else
    std::vector<double> q(p, p + n);
#endif
    auto total = [&](long k) { return vf::sum(0, k, [&](long i) { return q[i]; }); };
    auto count = [&](long k) { return vf::sum(0, k, [&](long i) { return (long)(q[i] > 0.0); }); };
    vf::assume(total(n) > 0.0);
    vf::hacc1("Normalize", [&](long a, double v) { return v == total(a); });
    vf::hint_int1("Normalize", [&](long a, long v) { return v == count(a); });
    double old = q[r], all = total(n);
    vf::hint1("Normalize", [&](long a) { return vf::implies(r >= a, p[r] == old); });
    vf::hint1("Normalize", [&](long a) { return vf::implies(r < a, p[r] == old * ((double)count(n) / all)); });
    double f = Normalize(p, p + n);
    vf::check(vf::eq(f * all, (double)count(n)), "factor brings the sum to the number of entries above zero");
    vf::check(vf::eq(p[r], f * old), "every entry is multiplied by it");
}
