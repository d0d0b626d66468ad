// C23: what a collision does to a particle, the tallies and the fission bank
// trials *: 40 1000
#include "histories.hpp"
#ifdef VF_SYM
#include "util/force_inline.hpp"
// keep sample_cdf a function of its own, so that its contract (C01) can be used
#undef MOCC_FORCE_INLINE
#define MOCC_FORCE_INLINE __attribute__((noinline)) inline
#include "sweepers/mc/particle_pusher.cpp"
#include "xsmesh.hpp"
using namespace mocc;
using namespace mocc::mc;
static ParticlePusher *s_;
static const XSMeshRegion *reg_;
static long ng_, group_, region_, to_, sites_, n_k_, n_flux_, n_draws_;
static int reaction_;
static double weight_, tr_, nf_, fis_, draw_, mark_[3][2];
static long *site_group_;
static Direction fresh_;
static Point3 at_;
static unsigned id_;
static VecF marked(int k)
{
    VecF v;
    v._M_impl._M_start = mark_[k], v._M_impl._M_finish = v._M_impl._M_end_of_storage = mark_[k] + 1;
    return v;
}
extern "C" VecF vfc_reaction(const XSMeshRegion *r, int g)
{
    vf::check(r == reg_ && (long)g == group_, "reactions of the region and group of the particle");
    return marked(0);
}
VF_CONTRACT(reaction, "mocc::XSMeshRegion::reaction_cdf(int) const")
extern "C" VecF vfc_out(const ScatteringMatrix *m, int g)
{
    vf::check(m == &reg_->xsmacsc_ && (long)g == group_, "scattering out of the group of the particle");
    return marked(1);
}
VF_CONTRACT(out, "mocc::ScatteringMatrix::out_cdf(int) const")
extern "C" VecF vfc_chi(const XSMeshRegion *r)
{
    vf::check(r == reg_, "fission spectrum of the region of the particle");
    return marked(2);
}
VF_CONTRACT(chi, "mocc::XSMeshRegion::chi_cdf() const")
extern "C" int vfc_sample(RNG_LCG *, const VecF &cdf)
{
    const double *m = cdf._M_impl._M_start;
    if (m == mark_[0]) {
        vf::check(reaction_ < 0, "one reaction per collision");
        reaction_ = vf::range("reaction", 0, 2);
        // (C09) no reaction without a cross section
        vf::assume(reaction_ != (int)Reaction::FISSION || fis_ > 0);
        return reaction_;
    }
    vf::check(reaction_ >= 0, "the reaction is drawn first");
    long g = vf::range("new_group", 0, 999999);
    vf::assume(g < ng_);
    if (m == mark_[1]) {
        vf::check(reaction_ == (int)Reaction::SCATTER && to_ < 0, "one new group per scattering");
        to_ = g;
    } else {
        vf::check(m == mark_[2] && reaction_ == (int)Reaction::FISSION, "fission spectrum only for fission");
        site_group_[sites_] = g;
    }
    return g;
}
VF_CONTRACT(sample, "mocc::RNG_LCG::sample_cdf(std::vector<double, std::allocator<double> > const&)")
extern "C" double vfc_random(RNG_LCG *)
{
    double u = vf::real("u");
    vf::assume(u >= 0 && u < 1);
    if (n_draws_ == 0) draw_ = u;
    n_draws_ = n_draws_ + 1;
    return u;
}
VF_CONTRACT(random, "mocc::RNG_LCG::random()")
extern "C" Direction vfc_isotropic(double a, double b)
{
    vf::check(vf::all(a >= 0, a < 1, b >= 0, b < 1), "drawn numbers");
    return fresh_;
}
VF_CONTRACT(isotropic, "mocc::Direction::Isotropic(double, double)")
extern "C" void vfc_score(TallyScalar *t, double v)
{
    vf::check(t == &s_->k_tally_col_, "collision eigenvalue");
    vf::check(vf::eq(v * tr_, weight_ * nf_), "weight times fission production per collision");
    n_k_ = n_k_ + 1;
}
VF_CONTRACT(score, "mocc::mc::TallyScalar::score(double)")
extern "C" void vfc_spatial(TallySpatial *t, int i, double v)
{
    vf::check(t == &s_->fine_flux_col_tally_[group_] && (long)i == region_, "flux of the region and group");
    vf::check(vf::eq(v * tr_, weight_), "weight over total cross section");
    n_flux_ = n_flux_ + 1;
}
VF_CONTRACT(spatial, "mocc::mc::TallySpatial::score(int, double)")
extern "C" void vfc_push(FissionBank *b, Particle &p)
{
    vf::check(b == &s_->fission_bank_ && reaction_ == (int)Reaction::FISSION, "sites only from fission");
    vf::check(vf::all(p.location_global.x == at_.x, p.location_global.y == at_.y, p.location_global.z == at_.z), "sites lie where the collision is");
    vf::check(vf::all(p.id == id_, p.alive, p.weight == 1.0), "sites carry the number of the history and unit weight");
    vf::check((long)p.group == site_group_[sites_], "groups from the fission spectrum");
    vf::check(vf::all(p.direction.ox == fresh_.ox, p.direction.oy == fresh_.oy, p.direction.oz == fresh_.oz), "isotropic directions");
    sites_ = sites_ + 1;
}
VF_CONTRACT(push, "mocc::mc::FissionBank::push_back(mocc::mc::Particle&)")
VF_HARNESS(collide)
{
    vf::loose();
    ParticlePusher &s = vf::object<ParticlePusher>("pusher");
    s_ = &s;
    vfx::XS x(const_cast<XSMesh &>(s.xs_mesh_));
    ng_ = x.ng;
    group_ = vf::nat("group", 0, 3), region_ = vf::nat("region", 0, 10);
    long k = vf::nat("material", 0, 3);
    vf::assume(group_ < ng_ && k < x.nxs && region_ < x.nreg);
    reg_ = &x.reg[k];
    tr_ = reg_->xsmactr_[group_], nf_ = reg_->xsmacnf_[group_], fis_ = reg_->xsmacf_[group_];
    vf::assume(vf::all(tr_ > 0, nf_ >= 0, fis_ >= 0));
    vf::vec(s.fine_flux_col_tally_, "tallies", ng_);
    s.print_particles_ = false;
    Particle &p = vf::object<Particle>("particle");
    weight_ = vf::positive("weight");
    p.weight = weight_, p.group = group_, p.ireg = region_, p.ixsreg = k, p.alive = true;
    id_ = p.id, at_ = p.location_global;
    double ox = p.direction.ox, lx = p.location.x, ly = p.location.y;
    fresh_.ox = vf::real("ox"), fresh_.oy = vf::real("oy"), fresh_.oz = vf::real("oz");
    site_group_ = vf::buffer<long>("site_group", 1000000000);
    reaction_ = -1, to_ = -1;
    sites_ = n_k_ = n_flux_ = n_draws_ = 0;
    // number of sites below the range of int
    vf::assume(weight_ * nf_ <= 1000000 * fis_);
    vf::hint1("collide", [&](long a) { return sites_ == a; });
    vf::hint1("collide", [&](long a) { return n_draws_ == 1 + 2 * a; });
    s.collide(p);
    vf::check(n_k_ == 1 && n_flux_ == 1, "a collision scores once");
    vf::check(reaction_ >= 0, "a reaction is drawn");
    vf::check(p.alive == (reaction_ == (int)Reaction::SCATTER), "only scattering leaves the particle alive");
    vf::check(vf::all(p.weight == weight_, p.location_global.x == at_.x, p.location_global.y == at_.y, p.location_global.z == at_.z, p.location.x == lx, p.location.y == ly),
              "weight and place do not change");
    if (reaction_ == (int)Reaction::SCATTER) {
        vf::check((long)p.group == to_ && p.direction.ox == fresh_.ox, "new group and direction");
        vf::check(sites_ == 0, "no sites from scattering");
    } else {
        vf::check((long)p.group == group_ && p.direction.ox == ox, "group and direction of an absorbed particle do not matter, but do not change");
        if (reaction_ == (int)Reaction::FISSION) {
            double n = weight_ * nf_ / fis_ + draw_;
            vf::check(sites_ <= n && n < sites_ + 1, "number of sites averages to weight times neutrons per fission");
        } else
            vf::check(sites_ == 0, "no sites from capture");
    }
}
#else
VF_HARNESS(collide) { vfh::collisions(); }
#endif
