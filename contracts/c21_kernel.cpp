// C21: the characteristics kernel, one ray of any number of segments
// trials *: 200 4000
#include "util/blitz_typedefs.hpp"
#include "core/constants.hpp"
#include "mocref.hpp"
#include "vf.hpp"
#include "moc/moc_sweeper.hpp"
#include "core/source_isotropic.hpp"
using namespace mocc;
#ifdef VF_SYM
static long group_, back_, nseg_, nreg_, first_, n_arrays, n_stores, n_updates, n_rays;
static long next_[2];
static double *in1_, *in2_, *out1_, *out2_, *store_[2], *array_[2];
static const double *xs_, *len_, *q_, *vol_;
static const int *index_;
static const BoundaryCondition *bin_, *bout_;
static double rs_, w_;
static int bc1_, bc2_;
static long k_, r_;
static const moc::MoCSweeper *s_;
// the storage of boundary values is C04's: here, where the values of an angle are
extern "C" BVal_t vfc_get_boundary(const BoundaryCondition *b, int g, int a)
{
    vf::check(vf::any(vf::both(b == bin_, g == group_), vf::both(b == bout_, g == 0)), "values of this group");
    vf::check(a == 0 || a == back_, "values of this angle or its reverse");
    if (b == bin_) return BVal_t(1000000, a == 0 ? in1_ : in2_);
    return BVal_t(1000000, a == 0 ? out1_ : out2_);
}
VF_CONTRACT(get_boundary, "re:mocc::BoundaryCondition::get_boundary[(]int, int[)]( const)?$")
extern "C" void vfc_update(BoundaryCondition *b, int g, int a, const BoundaryCondition &out)
{
    vf::check(b == bin_ && &out == bout_ && g == group_, "update: the boundary of this plane and group");
    vf::check(a == (n_updates == 0 ? 0 : back_), "update: the angle just swept, then its reverse");
    vf::check(n_rays == 1, "update: once the rays are done");
    vf::check(vf::eq(out1_[bc2_], store_[0][nseg_]), "flux leaving the far end of the ray");
    vf::check(vf::eq(out2_[bc1_], store_[1][0]), "flux leaving the near end of the ray");
    n_updates++;
}
VF_CONTRACT(update, "mocc::BoundaryCondition::update(int, int, mocc::BoundaryCondition const&)")
extern "C" void vfc_update_all(BoundaryCondition *b, int g, const BoundaryCondition &out)
{
    vf::check(b == bin_ && &out == bout_ && g == group_, "update: the boundary of this plane and group");
    vf::check(n_rays == 1, "update: once the angles are done");
    vf::check(vf::eq(out1_[bc2_], store_[0][nseg_]), "flux leaving the far end of the ray");
    vf::check(vf::eq(out2_[bc1_], store_[1][0]), "flux leaving the near end of the ray");
    n_updates++;
}
VF_CONTRACT(update_all, "mocc::BoundaryCondition::update(int, mocc::BoundaryCondition const&)")
// scratch arrays of the kernel
extern "C" void vfc_array(ArrayB1 *a, int n)
{
    vf::arr1(*a, n_arrays ? "t_flux" : "e_tau", n);
    array_[n_arrays ? 1 : 0] = a->data_;
    n_arrays++;
}
VF_CONTRACT(array, "re:blitz::Array<double, 1>::Array[(]int, blitz::GeneralArrayStorage<1>")
extern "C" void vfc_free(ArrayB1 *) {}
VF_CONTRACT(free, "blitz::Array<double, 1>::~Array()")
extern "C" double vfc_exp(const void *, double v) { return std::exp(v); }
VF_CONTRACT(exp, "re:mocc::Exponential_Linear<.*>::exp[(]double[)] const")
// the flux along the ray, named ahead of the sweep: every entry is written once, in order, and is then what was written
struct Store {
    int which;
    struct Value {
        int which;
        long i;
        operator double() const { return store_[which][i]; }
        void operator=(double v)
        {
            vf::check(i == next_[which], "values along a ray are written in order");
            next_[which] = which ? i - 1 : i + 1;
            vf::assume(store_[which][i] == v);
        }
    };
    Store(int n) : which((int)n_stores)
    {
        vf::check(n > nseg_, "room for all segments");
        n_stores++;
    }
    Value operator[](long i) { return Value{which, i}; }
};
static double fade(long k) { return 1.0 - std::exp(-xs_[index_[k] + first_] * len_[k] * rs_); }
// what the first n segments add to region r
static double forward(long n)
{
    return vf::sum(0, n, [&](long k) { return vf::ite(index_[k] + first_ == r_, (store_[0][k] - q_[index_[k] + first_]) * array_[0][k] * w_, 0.0); });
}
static double backward(long n)
{
    return vf::sum(0, n, [&](long j) { long k = nseg_ - 1 - j; return vf::ite(index_[k] + first_ == r_, (store_[1][k + 1] - q_[index_[k] + first_]) * array_[0][k] * w_, 0.0); });
}
struct Witness {
    typedef Store FluxStore;
    void set_group(int g) { vf::check(g == group_, "group"); }
    void set_plane(int) {}
    void set_angle(const Angle &, double) {}
    void post_angle(int) {}
    void post_ray(Store &psi1, Store &psi2, const ArrayB1 &e, const moc::Ray &, int first)
    {
        n_rays++;
        vf::check(psi1.which == 0 && psi2.which == 1 && first == first_, "what is handed on");
        double *e_ = e.data_;
        vf::check(vf::eq(e_[k_], 1.0 - std::exp(-xs_[index_[k_] + first_] * len_[k_] * rs_)), "attenuation of a segment");
        vf::check(psi1[0] == in1_[bc1_], "starts from the incoming value");
        vf::check(psi2[nseg_] == in2_[bc2_], "backward: starts from the incoming value");
        double q = q_[index_[k_] + first_];
        vf::check(vf::eq(psi1[k_ + 1], psi1[k_] - (psi1[k_] - q) * e_[k_]), "along a segment");
        vf::check(vf::eq(psi2[k_], psi2[k_ + 1] - (psi2[k_ + 1] - q) * e_[k_]), "backward along a segment");
    }
    void post_sweep()
    {
        vf::check(n_rays == 1, "every ray");
        vf::check(vf::eq(s_->flux_1g_((int)r_), (forward(nseg_) + backward(nseg_)) / (xs_[r_] * vol_[r_]) + q_[r_] * FPI), "scalar flux");
    }
};
static VectorX *source_;
static const VectorX &transport(const Source *, int a)
{
    vf::check(a == 0, "source of this angle");
    return *source_;
}
static void one_ray(bool jacobi)
{
    moc::MoCSweeper &s = vf::object<moc::MoCSweeper>("sweeper");
    s_ = &s;
    CoreMesh &m = vf::object<CoreMesh>("mesh");
    nreg_ = vf::nat("nreg", 1, 10), nseg_ = vf::nat("nseg", 1, 10);
    vf::assume(nreg_ <= 1000000 && nseg_ <= 1000000);
    s.n_reg_ = nreg_;
    group_ = vf::nat("group", 0, 5);
    *(CoreMesh **)((char *)&s.rays_ - 8) = &m;
    vf::vec(s.macroplane_unique_ids_, "uid", 1);
    vf::assume(s.macroplane_unique_ids_[0] == 0);
    vf::vec(s.first_reg_macroplane_, "first", 1);
    first_ = s.first_reg_macroplane_[0];
    vf::assume(first_ >= 0 && first_ < nreg_);
    vf::vec(m.macroplanes_, "macroplanes", 1);
    vf::vec(s.boundary_, "boundary", 1);
    vf::vec(s.boundary_out_, "boundary_out", 1);
    bin_ = &s.boundary_[0], bout_ = &s.boundary_out_[0];
    vf::vec(s.rays_.rays_, "planes", 1);
    vf::vec(s.rays_.rays_[0], "angles", 1);
    vf::vec(s.rays_.rays_[0][0], "rays", 1);
    moc::Ray &ray = s.rays_.rays_[0][0][0];
    ray.nseg_ = nseg_;
    vf::vec(ray.seg_len_, "len", nseg_);
    vf::vec(ray.seg_index_, "index", nseg_);
    len_ = ray.seg_len_.data(), index_ = ray.seg_index_.data();
    vf::assume(vf::forall(0, nseg_, [&](long k) { return index_[k] >= 0 && index_[k] + first_ < nreg_; }));
    bc1_ = ray.bc_[0], bc2_ = ray.bc_[1];
    vf::assume(vf::all(bc1_ >= 0, bc1_ < 1000000, bc2_ >= 0, bc2_ < 1000000));
    in1_ = vf::buffer<double>("in1", 1000000), in2_ = vf::buffer<double>("in2", 1000000);
    out1_ = vf::buffer<double>("out1", 1000000), out2_ = vf::buffer<double>("out2", 1000000);
    s.rays_.max_seg_ = vf::nat("max_seg", 1, 10);
    vf::assume(s.rays_.max_seg_ >= nseg_ && s.rays_.max_seg_ <= 1000000);
    vf::vec(s.rays_.spacing_, "spacing", 1);
    long n = vf::nat("ndir_oct", 1, 6);
    vf::assume(n <= 100000);
    s.ang_quad_.ndir_oct_ = n;
    back_ = 2 * n;
    vf::vec(s.ang_quad_.angles_, "quad", 8 * n);
    const Angle &a = s.ang_quad_.angles_[0];
    rs_ = a.rsintheta;
    w_ = a.weight * s.rays_.spacing_[0] * m.macroplanes_[0].height * std::sin(a.theta) * PI;
    vf::arr1(s.flux_1g_, "flux", nreg_);
    vf::arr1(s.xstr_.xstr_, "xs", nreg_);
    xs_ = s.xstr_.xstr_.data_;
    vf::vec(s.vol_, "vol", nreg_);
    vol_ = s.vol_.data();
    VectorX &v = vf::object<VectorX>("q_vector");
    v.m_storage.m_data = vf::buffer<double>("q", nreg_);
    v.m_storage.m_rows = nreg_;
    q_ = v.m_storage.m_data;
    source_ = &v;
    SourceIsotropic &src = vf::object<SourceIsotropic>("source");
    // get_transport is the only virtual function called
    void *table[12];
    for (int i = 0; i < 12; i++) table[i] = (void *)&transport;
    *(void ***)&src = table;
    s.source_ = &src;
    s.gauss_seidel_boundary_ = !jacobi;
    k_ = vf::nat("k", 0, 9), r_ = vf::nat("r", 0, 9);
    vf::assume(k_ < nseg_ && r_ < nreg_);
    n_arrays = n_stores = n_updates = n_rays = 0;
    store_[0] = vf::buffer<double>("psi1", nseg_ + 1), store_[1] = vf::buffer<double>("psi2", nseg_ + 1);
    next_[0] = 0, next_[1] = nseg_;
    double *p1 = store_[0], *p2 = store_[1], q = q_[index_[k_] + first_];
    vf::hint1("sweep1g", [&](long a) { return vf::implies(r_ < a, s.flux_1g_.data_[r_] == 0.0); });
    vf::hint1("sweep1g", [&](long a) { return vf::implies(r_ < a, array_[1][r_] == 0.0); });
    vf::hint1("sweep1g", [&](long a) { return vf::forall(0, a, [&](long k) { return array_[0][k] == fade(k); }); });
    vf::hint1("sweep1g", [&](long a) { return next_[0] == a + 1; });
    vf::hint1("sweep1g", [&](long a) { return next_[1] == nseg_ - 1 - a; });
    vf::hint1("sweep1g", [&](long a) { return vf::implies(k_ < a, p1[k_ + 1] == p1[k_] - (p1[k_] - q) * array_[0][k_]); });
    vf::hint1("sweep1g", [&](long a) { return vf::implies(k_ >= nseg_ - a, p2[k_] == p2[k_ + 1] - (p2[k_ + 1] - q) * array_[0][k_]); });
    vf::hint1("sweep1g", [&](long a) { return array_[1][r_] == forward(a); });
    vf::hint1("sweep1g", [&](long a) { return array_[1][r_] == forward(nseg_) + backward(a); });
    vf::hint1("sweep1g", [&](long a) { return s.flux_1g_.data_[r_] == vf::ite(r_ < a, forward(nseg_) + backward(nseg_), 0.0); });
    vf::hint1("sweep1g", [&](long a) { return s.flux_1g_.data_[r_] == vf::ite(r_ < a, (forward(nseg_) + backward(nseg_)) / (xs_[r_] * vol_[r_]) + q_[r_] * FPI, forward(nseg_) + backward(nseg_)); });
    Witness cw;
    s.sweep1g((int)group_, cw);
    vf::check(n_updates == (jacobi ? 1 : 2), "both directions are passed on");
}
VF_HARNESS(one_ray) { vf::loose(); one_ray(false); }
VF_HARNESS(one_ray_jacobi) { vf::loose(); one_ray(true); }
#else
VF_HARNESS(one_ray) { vfm::compare(false); }
VF_HARNESS(one_ray_jacobi) { vfm::compare(true); }
#endif
