// C24: when the iterations of the two solvers stop
// sources: solvers/fixed_source_solver.cpp solvers/eigen_solver.cpp
// trials *: 15 1500
#include "core/transport_sweeper.hpp"
#include "core/source.hpp"
#include "solvers/eigen_solver.hpp"
#include "util/utils.hpp"
#include "solvers.hpp"
#include "vf.hpp"
using namespace mocc;
#ifdef VF_SYM
template <class M> static int slot(M m)
{
    union {
        M m;
        long v[2];
    } u;
    u.m = m;
    return (int)((u.v[0] - 1) / 8);
}
static long steps_, started_;
static const double *res_;
static void begin(TransportSweeper *)
{
    vf::check(started_ == 0 && steps_ == 0, "started once, before the first step");
    started_ = 1;
}
static void step(FixedSourceSolver *)
{
    vf::check(started_ == 1, "started before the first step");
    steps_ = steps_ + 1;
}
static double residual(const TransportSweeper *)
{
    vf::check(steps_ > 0, "a residual needs a step");
    return res_[steps_ - 1];
}
VF_HARNESS(fixed_solve)
{
    vf::loose();
    FixedSourceSolver &f = vf::object<FixedSourceSolver>("solver");
    TransportSweeper &sw = vf::object<TransportSweeper>("sweeper");
    void *st[64], *ft[16];
    st[slot(&TransportSweeper::initialize)]    = (void *)&begin;
    st[slot(&TransportSweeper::flux_residual)] = (void *)&residual;
    ft[slot(&FixedSourceSolver::step)]         = (void *)&step;
    *(void ***)&sw = st;
    *(void ***)&f  = ft;
    *(TransportSweeper **)&f.sweeper_ = &sw;
    long most = vf::nat("max", 1, 20);
    vf::assume(most <= 1000000);
    double tol = vf::positive("tol");
    f.max_iter_ = most;
    f.flux_tol_ = tol;
    res_   = vf::buffer<double>("residuals", most);
    steps_ = started_ = 0;
    vf::hint1("solve", [&](long a) { return steps_ == a; });
    vf::hint1("solve", [&](long a) { return vf::forall(0, a, [&](long k) { return res_[k] >= tol; }); });
    f.FixedSourceSolver::solve();
    vf::check(steps_ >= 1 && steps_ <= most, "number of steps");
    vf::check(vf::forall(0, steps_ - 1, [&](long k) { return res_[k] >= tol; }), "goes on while the residual is not below the tolerance");
    vf::check(steps_ == most || res_[steps_ - 1] < tol, "stops early only when the residual is below the tolerance");
}
static EigenSolver *e_;
static const double *k_;
static double **new_, **old_, **raw_new_, **raw_old_;
static long regions_, sourced_;
static void step_eigen(EigenSolver *e)
{
    vf::check(vf::all(started_ == 1, sourced_ == 1, e->fss_.fs_ == &e->fission_source_), "set up before the first step");
    vf::check(e->keff_ == k_[steps_], "the eigenvalue is the one of the last step");
    e->keff_prev_ = k_[steps_];
    steps_ = steps_ + 1;
    e->keff_ = k_[steps_];
    e->fission_source_.data_      = raw_new_[steps_];
    e->fission_source_prev_.data_ = raw_old_[steps_];
}
static void source(const TransportSweeper *, double k, ArrayB1 &f)
{
    vf::check(started_ == 1 && k == 1.0 && steps_ == 0 && &f == &e_->fission_source_, "the first fission source");
    sourced_ = 1;
}
static int regions(const TransportSweeper *) { return regions_; }
// (see normalize in c24_eigen.cpp for the contract of Normalize) the arrays as they are left by a step, and normalized
extern "C" double vfc_normalize(blitz::ArrayIterator<double, 1> b, blitz::ArrayIterator<double, 1>)
{
    if (b.data_ == raw_new_[steps_]) e_->fission_source_.data_ = new_[steps_];
    if (b.data_ == raw_old_[steps_]) e_->fission_source_prev_.data_ = old_[steps_];
    return vf::positive("factor");
}
VF_CONTRACT(normalize, "auto mocc::Normalize<blitz::ArrayIterator<double, 1> >(blitz::ArrayIterator<double, 1>, blitz::ArrayIterator<double, 1>)")
extern "C" void vfc_print(EigenSolver *, int, ConvergenceCriteria) {}
VF_CONTRACT(print, "mocc::EigenSolver::print(int, mocc::ConvergenceCriteria)")
static void output(const EigenSolver *, H5Node &) {}
VF_HARNESS(eigen_solve)
{
    vf::loose();
    EigenSolver &e       = vf::object<EigenSolver>("solver");
    TransportSweeper &sw = vf::object<TransportSweeper>("sweeper");
    e_ = &e;
    void *st[64], *et[16];
    st[slot(&TransportSweeper::initialize)]          = (void *)&begin;
    st[slot(&TransportSweeper::calc_fission_source)] = (void *)&source;
    st[slot(&TransportSweeper::n_reg)]               = (void *)&regions;
    st[slot(&TransportSweeper::n_reg_fission)]       = (void *)&regions;
    et[slot(&EigenSolver::step)]                     = (void *)&step_eigen;
    *(void ***)&sw = st;
    et[slot(&EigenSolver::output)]                   = (void *)&output;
    *(void ***)&e  = et;
    *(TransportSweeper **)&e.fss_.sweeper_ = &sw;
    regions_ = vf::nat("regions", 1, 10);
    long fissile = vf::nat("fissile", 1, 10), most = vf::nat("max", 1, 20), least = vf::nat("min", 0, 20);
    vf::assume(vf::all(fissile <= regions_, regions_ <= 1000000, most <= 1000000, least <= most));
    e.n_fissile_regions_ = fissile;
    e.max_iterations_ = most, e.min_iterations_ = least;
    double tk = vf::positive("k_tol"), tp = vf::positive("psi_tol");
    e.tolerance_k_ = tk, e.tolerance_psi_ = tp;
    k_   = vf::buffer<double>("k", most + 1);
    vf::assume(k_[0] == 1.0);
    new_ = vf::buffer<double *>("new", most + 1), old_ = vf::buffer<double *>("old", most + 1);
    raw_new_ = vf::buffer<double *>("raw_new", most + 1), raw_old_ = vf::buffer<double *>("raw_old", most + 1);
    vf_family_(raw_new_, 0, "raw_new_row", 8, [](const void *, long) { return regions_; }, raw_new_);
    vf_family_(raw_old_, 0, "raw_old_row", 8, [](const void *, long) { return regions_; }, raw_old_);
    vf_family_(new_, 0, "new_row", 8, [](const void *, long) { return regions_; }, new_);
    vf_family_(old_, 0, "old_row", 8, [](const void *, long) { return regions_; }, old_);
    vf::arr1(e.fission_source_, "fs", regions_);
    vf::arr1(e.fission_source_prev_, "fs_prev", regions_);
    vf::vec(e.dump_iterations_, "dump", 0);
    vf::vec(e.convergence_, "record", 0);
    vf::vec(e.iteration_times_, "times", 0);
    steps_ = started_ = sourced_ = 0;
    auto upto = [&](long s, long n) { return vf::sum(0, n, [&](long i) { return (new_[s][i] - old_[s][i]) * (new_[s][i] - old_[s][i]); }); };
    auto psi  = [&](long s) { return std::sqrt(upto(s, regions_) / fissile); };
    auto close = [&](long s) { return vf::all(std::fabs(k_[s] - k_[s - 1]) < tk, psi(s) < tp); };
    vf::hint1("solve", [&](long a) { return steps_ == a; });
    vf::hint1("solve", [&](long a) { return e.keff_ == k_[a]; });
    vf::hint_int1("solve", [&](long a, long v) { return v == 4294967295L; });
    // any step but the last
    long j = vf::nat("j", 1, 20);
    vf::assume(j <= most);
    auto kept = [&]() { return vf::all(e.convergence_[j - 1].k == k_[j], e.convergence_[j - 1].error_k == std::fabs(k_[j] - k_[j - 1]), e.convergence_[j - 1].error_psi == psi(j)); };
    vf::hint1("solve", [&](long a) { return vf::implies(j <= a, vf::implies(close(j), j <= least)); });
    vf::hint1("solve", [&](long a) { return vf::implies(j <= a, kept()); });
    vf::hint1("solve", [&](long a) { return (long)e.convergence_.size() == a; });
    vf::hacc2("solve", [&](long a, long b, double v) { return v == upto(steps_, b); });
    e.EigenSolver::solve();
    vf::check(steps_ >= 1 && steps_ <= most, "number of steps");
    vf::check(vf::implies(j < steps_ && close(j), j <= least), "goes on while a change is not below its tolerance");
    vf::check((long)e.convergence_.size() == steps_, "one record per step");
    vf::check(vf::implies(j <= steps_, kept()), "the eigenvalue and both changes of every step are recorded");
    vf::check(steps_ == most || vf::all(close(steps_), steps_ >= least), "stops early only after the least number of steps with both changes below their tolerances");
}
#else
VF_HARNESS(fixed_solve) { vfv::fixed(); }
VF_HARNESS(eigen_solve) { vfv::eigenvalue(); }
#endif
