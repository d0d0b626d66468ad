// C23: one history from start to end, over the contracts of its steps (collide, lookups, distances, moves, tallies)
// trials *: 30 600
#include "histories.hpp"
#ifdef VF_SYM
#include "sweepers/mc/particle_pusher.cpp"
#include "xsmesh.hpp"
using namespace mocc;
using namespace mocc::mc;
// what the history is known to be doing, kept by the contracts below
static ParticlePusher *s_;
static XSMeshRegion *regs_;
static long ng_, nreg_, nxs_, npin_;
static PinMesh *pin_mesh_;
static double w_;                     // weight
static long group_, region_, xs_, pin_, offset_, alive_;
static Point3 at_;
static Point2 in_;
static Direction dir_;
static Position pos_;
static std::array<Point3, 2> box_;
static long placed_, lost_pin_;       // region known; pin no longer known
static long drawn_, near_, boxed_, scored_, moved_;      // stages of a step
static double u_, to_surface_, to_pin_, length_;
static bool inner_;
static long mirrored_, seeded_, commits_, steps_, faced_, was_alive_;
static long n_k_, n_p_, n_c_, n_f_;
static long weighed_[6], one_;        // weights added: eigenvalue tallies, ghost group of the flux tallies, power
static int *reflects_;                // by face
static bool same(const Point3 &a, const Point3 &b) { return vf::all(a.x == b.x, a.y == b.y, a.z == b.z); }
static bool same(const Point2 &a, const Point2 &b) { return vf::both(a.x == b.x, a.y == b.y); }
static bool same(const Direction &a, const Direction &b) { return vf::all(a.ox == b.ox, a.oy == b.oy, a.oz == b.oz); }
static Point3 any3()
{
    Point3 p;
    p.x = vf::real("x"), p.y = vf::real("y"), p.z = vf::real("z");
    return p;
}
static Point2 any2()
{
    Point2 p;
    p.x = vf::real("lx"), p.y = vf::real("ly");
    return p;
}
static void turn(double x, double y, double z)
{
    dir_.ox = x, dir_.oy = y, dir_.oz = z, dir_.alpha = vf::real("alpha"), dir_.theta = vf::real("theta");
}
static double collision() { return -std::log(u_) / regs_[xs_].xsmactr_[group_]; }
static double step() { return vf::ite(to_pin_ < to_surface_, to_pin_, to_surface_); }
static double length() { return vf::ite(collision() < step(), collision(), step()); }
extern "C" void vfc_seed(RNG_LCG *, unsigned long v)
{
    vf::check(vf::both(v == s_->seed_, drawn_ == 0), "the seed of the pusher starts the stream");
    seeded_ = 1;
}
VF_CONTRACT(seed, "mocc::RNG_LCG::set_seed(unsigned long)")
extern "C" void vfc_jump(RNG_LCG *, unsigned long)
{
    vf::check(seeded_ == 1, "the stream is set before it is used");
    seeded_ = 2;
}
VF_CONTRACT(jump, "mocc::RNG_LCG::jump_ahead(unsigned long)")
extern "C" void vfc_add1(TallyScalar *t, double w)
{
    vf::check(vf::both(w == w_, vf::any(t == &s_->k_tally_tl_, t == &s_->k_tally_col_)), "the weight of the particle for the eigenvalue tallies");
    if (t == &s_->k_tally_tl_) weighed_[0] = weighed_[0] + 1;
    else weighed_[1] = weighed_[1] + 1;
}
VF_CONTRACT(add1, "mocc::mc::TallyScalar::add_weight(double)")
extern "C" void vfc_add(TallySpatial *t, double w)
{
    vf::check(w == w_, "the weight of the particle for the spatial tallies");
    if (t == &s_->scalar_flux_tally_[one_]) weighed_[2] = weighed_[2] + 1;
    if (t == &s_->fine_flux_tally_[one_]) weighed_[3] = weighed_[3] + 1;
    if (t == &s_->fine_flux_col_tally_[one_]) weighed_[4] = weighed_[4] + 1;
    if (t == &s_->pin_power_tally_) weighed_[5] = weighed_[5] + 1;
}
VF_CONTRACT(add, "mocc::mc::TallySpatial::add_weight(double)")
extern "C" CoreMesh::LocationInfo vfc_locate(const CoreMesh *, Point3 p, Direction d)
{
    vf::check(vf::both(same(p, at_), same(d, dir_)), "the pin at the place of the particle is looked up");
    vf::check(alive_ == 1, "only for particles in the core");
    CoreMesh::LocationInfo l;
    offset_ = vf::range("offset", 0, 1000);
    in_ = any2();
    pos_.x = vf::range("px", 0, 100), pos_.y = vf::range("py", 0, 100), pos_.z = vf::range("pz", 0, 100);
    box_[0] = any3(), box_[1] = any3();
    l.pm = pin_mesh_, l.local_point = in_, l.reg_offset = offset_, l.pos = pos_, l.pin_boundary = box_;
    lost_pin_ = 0;
    placed_ = 0;
    pin_ = -1;
    return l;
}
VF_CONTRACT(locate, "mocc::CoreMesh::get_location_info(mocc::Point3, mocc::Direction) const")
extern "C" int vfc_cell(const Mesh *, Position p)
{
    vf::check(vf::all(p.x == pos_.x, p.y == pos_.y, p.z == pos_.z), "coarse cell of the pin");
    pin_ = vf::range("cell", 0, 100);
    vf::assume(pin_ < npin_);
    return pin_;
}
VF_CONTRACT(cell, "mocc::Mesh::coarse_cell(mocc::Position) const")
static int find(const PinMesh *m, Point2 p, Direction d)
{
    vf::check(vf::all(m == pin_mesh_, lost_pin_ == 0, same(p, in_), same(d, dir_)), "the region is looked up in the pin, where the particle is and goes");
    long r = vf::range("region", 0, 100);
    // (C06, C07) a region of the pin, that is a region of the core, that is a region with cross sections (C09)
    vf::assume(offset_ + r < nreg_);
    region_ = offset_ + r;
    xs_ = s_->xsmesh_regions_[region_];
    vf::assume(vf::both(0 <= xs_, xs_ < nxs_));
    vf::assume(regs_[xs_].xsmactr_[group_] > 0);
    placed_ = 1;
    drawn_ = 0;
    return r;
}
static std::pair<real_t, bool> nearest(const PinMesh *m, Point2 p, Direction d, int &c)
{
    vf::check(vf::all(m == pin_mesh_, lost_pin_ == 0, placed_ == 1, same(p, in_), same(d, dir_)), "the next surface ahead of the particle");
    c = vf::range("surface", 0, 1000);
    to_surface_ = vf::nonneg("to_surface"), inner_ = !vf::boolean("outer");
    near_ = 1;
    return std::pair<real_t, bool>(to_surface_, !inner_);
}
extern "C" double vfc_box(std::array<Point3, 2> b, const Particle &p)
{
    vf::check(vf::all(same(b[0], box_[0]), same(b[1], box_[1]), same(p.location_global, at_), same(p.direction, dir_)), "distance to the boundary of the pin that the particle is in");
    to_pin_ = vf::nonneg("to_pin");
    boxed_ = 1;
    return to_pin_;
}
VF_CONTRACT(box, "(anonymous namespace)::distance_to_pin(std::array<mocc::Point3, 2ul>, mocc::mc::Particle const&)")
extern "C" double vfc_random(RNG_LCG *)
{
    vf::check(vf::all(alive_ == 1, placed_ == 1, lost_pin_ == 0, pin_ >= 0, seeded_ == 2), "a step starts in a known pin and region");
    vf::check(drawn_ == 0, "one draw for the distance");
    u_ = vf::real("u");
    vf::assume(vf::all(u_ > 0, u_ < 1, std::log(u_) < 0));
    drawn_ = 1;
    near_ = boxed_ = scored_ = moved_ = mirrored_ = faced_ = 0;
    return u_;
}
VF_CONTRACT(random, "mocc::RNG_LCG::random()")
static void track(double v, double xs)
{
    vf::check(vf::all(drawn_ == 1, near_ == 1, boxed_ == 1, moved_ == 0), "scores of the step before it is made");
    vf::check(vf::eq(v, length() * w_ * xs), "length to the surface or the collision, whichever comes first, times weight and cross section");
    scored_ = scored_ + 1;
}
extern "C" void vfc_score(TallyScalar *t, double v)
{
    vf::check(t == &s_->k_tally_tl_, "track-length eigenvalue");
    track(v, regs_[xs_].xsmacnf_[group_]);
    n_k_ = n_k_ + 1;
}
VF_CONTRACT(score, "mocc::mc::TallyScalar::score(double)")
extern "C" void vfc_spatial(TallySpatial *t, int i, double v)
{
    if (t == &s_->pin_power_tally_) {
        vf::check((long)i == pin_, "power of the pin");
        track(v, regs_[xs_].xsmacf_[group_]);
        n_p_ = n_p_ + 1;
    } else if (t == &s_->scalar_flux_tally_[group_]) {
        vf::check((long)i == pin_, "flux of the pin");
        track(v, 1);
        n_c_ = n_c_ + 1;
    } else {
        vf::check(t == &s_->fine_flux_tally_[group_] && (long)i == region_, "flux of the region and group");
        track(v, 1);
        n_f_ = n_f_ + 1;
    }
}
VF_CONTRACT(spatial, "mocc::mc::TallySpatial::score(int, double)")
extern "C" void vfc_move(Particle *p, double d, bool nudge)
{
    vf::check(vf::all(same(p->location_global, at_), same(p->direction, dir_)), "moved from where it was");
    if (moved_ == 0) {
        vf::check(scored_ == 4, "every tally got the track");
        vf::check(vf::eq(d, length()), "moved by the length of the track");
        bool surface = !(collision() < step()), pin = vf::any(to_pin_ < to_surface_, !inner_);
        placed_ = vf::itei(surface, 0, placed_);
        lost_pin_ = vf::itei(vf::both(surface, pin), 1, lost_pin_);
        vf::check(vf::implies(vf::both(surface, !pin), !nudge), "no sidestep across surfaces inside of a pin");
        moved_ = 1;
        steps_ = steps_ + 1;
    } else
        vf::check(vf::all(mirrored_ == 1, d >= 0, d < 1e-9), "moved again only to get back into the core");
    at_ = any3(), in_ = any2();
    p->location_global = at_, p->location = in_;
}
VF_CONTRACT(move, "mocc::mc::Particle::move(double, bool)")
extern "C" void vfc_collide(ParticlePusher *s, Particle &p)
{
    vf::check(vf::all(s == s_, moved_ == 1, drawn_ == 1, placed_ == 1), "at the end of the track");
    vf::check(collision() < step(), "collisions only ahead of the next surface");
    vf::check(vf::all((long)p.group == group_, (long)p.ireg == region_, (long)p.ixsreg == xs_, p.weight == w_, p.alive), "the particle as it is");
    if (vf::boolean("survives")) {
        group_ = vf::range("group", 0, 100);
        vf::assume(group_ < ng_);
        vf::assume(regs_[xs_].xsmactr_[group_] > 0);
        turn(vf::real("ox"), vf::real("oy"), vf::real("oz"));
        p.direction = dir_, p.group = group_;
    } else {
        alive_ = 0;
        p.alive = false;
    }
    drawn_ = 0;
}
VF_CONTRACT(collide, "mocc::mc::ParticlePusher::collide(mocc::mc::Particle&)")
extern "C" std::array<Surface, 3> vfc_faces(const Mesh *, Point3 p, Direction d)
{
    vf::check(vf::all(lost_pin_ == 1, moved_ == 1, same(p, at_), same(d, dir_)), "faces of the core met at the boundary of a pin");
    std::array<Surface, 3> f;
    f[0] = (Surface)(int)vf::range("face", 0, 6), f[1] = (Surface)(int)vf::range("face", 0, 6), f[2] = (Surface)(int)vf::range("face", 0, 6);
    faced_ = 1;
    drawn_ = 0;
    return f;
}
VF_CONTRACT(faces, "mocc::Mesh::boundary_surface(mocc::Point3, mocc::Direction) const")
extern "C" Boundary vfc_condition(const Mesh *, Surface f)
{
    vf::check(vf::all(faced_ == 1, f != Surface::INTERNAL), "condition of a face that was met");
    bool r = reflects_[(int)f] != 0;
    alive_ = vf::itei(r, alive_, 0);
    return (Boundary)(int)vf::itei(r, (long)Boundary::REFLECT, (long)Boundary::VACUUM);
}
VF_CONTRACT(condition, "mocc::Mesh::boundary_condition(mocc::Surface) const")
extern "C" void vfc_mirror(Direction *d, Surface f)
{
    vf::check(vf::all(alive_ == 1, f != Surface::INTERNAL, same(*d, dir_)), "mirrored at faces of the core");
    vf::check(reflects_[(int)f] != 0, "that reflect");
    double x = dir_.ox, y = dir_.oy, z = dir_.oz;
    turn(vf::ite(vf::any(f == Surface::EAST, f == Surface::WEST), -x, x), vf::ite(vf::any(f == Surface::NORTH, f == Surface::SOUTH), -y, y),
         vf::ite(vf::any(f == Surface::TOP, f == Surface::BOTTOM), -z, z));
    *d = dir_;
    mirrored_ = 1;
}
VF_CONTRACT(mirror, "mocc::Direction::reflect(mocc::Surface)")
extern "C" void vfc_commit(ParticlePusher *s)
{
    vf::check(vf::both(s == s_, alive_ == 0), "tallies are committed at the end");
    commits_ = commits_ + 1;
}
VF_CONTRACT(commit, "mocc::mc::ParticlePusher::commit_tallies()")
template <class M> static int slot(M m)
{
    union {
        M m;
        long v[2];
    } u;
    u.m = m;
    return (u.v[0] - 1) / 8;
}
VF_HARNESS(simulate)
{
    vf::loose();
    ParticlePusher &s = vf::object<ParticlePusher>("pusher");
    s_ = &s;
    vfx::XS x(const_cast<XSMesh &>(s.xs_mesh_));
    ng_ = x.ng, nreg_ = x.nreg, nxs_ = x.nxs, regs_ = x.reg;
    npin_ = s.mesh_.n_pin();
    vf::assume(vf::all((long)s.mesh_.n_reg(MeshTreatment::TRUE) == nreg_, npin_ > 0, npin_ < 1000000000));
    vf::vec(s.scalar_flux_tally_, "flux", ng_);
    vf::vec(s.fine_flux_tally_, "fine", ng_);
    vf::vec(s.fine_flux_col_tally_, "col", ng_);
    vf::vec(s.xsmesh_regions_, "map", nreg_);
    s.print_particles_ = false;
    PinMesh &pm = vf::object<PinMesh>("pin_mesh");
    void *t[64];
    t[slot((int (PinMesh::*)(Point2, Direction) const) & PinMesh::find_reg)] = (void *)&find;
    t[slot((std::pair<real_t, bool> (PinMesh::*)(Point2, Direction, int &) const) & PinMesh::distance_to_surface)] = (void *)&nearest;
    *(void ***)&pm = t;
    pin_mesh_ = &pm;
    reflects_ = vf::buffer<int>("reflects", 6);
    for (int i = 0; i < 6; i++) weighed_[i] = 0;
    Particle &p = vf::object<Particle>("particle");
    group_ = vf::range("start_group", 0, 10), w_ = vf::positive("weight"), at_ = any3();
    turn(vf::real("ox"), vf::real("oy"), vf::real("oz"));
    one_ = vf::range("one", 0, 10);
    vf::assume(group_ < ng_ && one_ < ng_);
    p.group = group_, p.weight = w_, p.location_global = at_, p.direction = dir_, p.coincident = -1;
    alive_ = 1;
    placed_ = lost_pin_ = drawn_ = near_ = boxed_ = scored_ = moved_ = mirrored_ = seeded_ = commits_ = steps_ = faced_ = 0;
    n_k_ = n_p_ = n_c_ = n_f_ = 0;
    region_ = xs_ = pin_ = offset_ = -1;
    bool tally = vf::boolean("tally");
    auto part = []() -> Particle & { return *(Particle *)vf_frame_(sizeof(Particle), 1); };
    auto info = []() -> CoreMesh::LocationInfo & { return *(CoreMesh::LocationInfo *)vf_frame_(sizeof(CoreMesh::LocationInfo), 0); };
    vf::plain("simulate");
#define H(e) vf::hint1("simulate", [&](long) { return e; })
    H(vf::all(same(part().location_global, at_), same(part().location, in_), same(part().direction, dir_), part().weight == w_));
    H(vf::all((long)part().group == group_, (long)part().ireg == region_, (long)part().ixsreg == xs_, (long)part().alive == alive_));
    H(vf::all((long)info().reg_offset == offset_, offset_ >= 0, same(info().pin_boundary[0], box_[0]), same(info().pin_boundary[1], box_[1])));
    H(vf::all(vf::implies(alive_ == 1, vf::all(placed_ == 1, lost_pin_ == 0, drawn_ == 0)), vf::any(alive_ == 0, alive_ == 1)));
    H(vf::all(0 <= group_, group_ < ng_, 0 <= region_, region_ < nreg_, 0 <= xs_, xs_ < nxs_, 0 <= pin_, pin_ < npin_));
    H(regs_[xs_].xsmactr_[group_] > 0);
    H(vf::all(n_k_ == steps_, n_p_ == steps_, n_c_ == steps_, n_f_ == steps_, seeded_ == 2));
    vf::hint_int1("simulate", [&](long, long v) { return v == pin_; });
    vf::hint1("simulate", [&](long a) { return weighed_[2] == (one_ < a ? 1 : 0); });
    vf::hint1("simulate", [&](long a) { return weighed_[3] == (one_ < a ? 1 : 0); });
    vf::hint1("simulate", [&](long a) { return weighed_[4] == (one_ < a ? 1 : 0); });
    H(weighed_[2] == 1);
    H(weighed_[3] == 1);
    H(weighed_[4] == 1);
    s.simulate(p, tally);
    vf::check(alive_ == 0, "a history ends by absorption or at a vacuum face");
    vf::check(vf::all(weighed_[0] == 1, weighed_[1] == 1, weighed_[2] == 1, weighed_[3] == 1, weighed_[4] == 1, weighed_[5] == 1), "every tally gets the weight of the particle once");
    vf::check(vf::all(n_k_ == steps_, n_p_ == steps_, n_c_ == steps_, n_f_ == steps_), "every track is scored once");
    vf::check(commits_ == (tally ? 1 : 0), "committed if asked for");
}
#else
VF_HARNESS(simulate) { vfh::flights(); }
#endif
