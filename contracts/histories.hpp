// Particle histories on generated cores (native runs of C23): reference flights by unfolding reflections, and tests of the
// frequencies of what is drawn. The frequencies are compared at six standard deviations or more.
#pragma once
#include "vf.hpp"
#ifndef VF_SYM
#include <cmath>
#include <map>
#include <memory>
#include "core/core_mesh.hpp"
#include "core/xs_mesh.hpp"
#include "sweepers/mc/particle.hpp"
#include "sweepers/mc/particle_pusher.hpp"
#include "cores.hpp"
namespace vfh {
using namespace mocc;
using namespace mocc::mc;
inline bool near(double a, double b, double tol) { return std::fabs(a - b) <= tol; }
// the six-sigma comparison of a count of n draws with probability p (a few counts of slack where the normal law does not hold)
inline bool frequent(double count, double n, double p) { return std::fabs(count - n * p) <= 7 * std::sqrt(n * p * (1 - p)) + (p > 0 && p < 1 ? 12 : 0); }
struct World {
    std::unique_ptr<vfc::Core> core;
    std::unique_ptr<XSMesh> xs;
    std::unique_ptr<ParticlePusher> push;
    std::vector<long> xs_of;         // cross section region of each region
    std::vector<double> xe, ye, ze;  // pin boundaries
    long ng;
    explicit World(const vfc::Spec &s) : core(new vfc::Core(s))
    {
        xs.reset(new XSMesh(*core->mesh, MeshTreatment::TRUE));
        push.reset(new ParticlePusher(*core->mesh, *xs));
        push->set_seed(2 * vf::range("seed", 0, 1000000) + 1);
        ng = s.ng;
        xs_of.assign(core->mesh->n_reg(MeshTreatment::TRUE), -1);
        long k = 0;
        for (const auto &r : *xs) {
            for (int i : r.reg()) xs_of[i] = k;
            k++;
        }
        xe = s.xs();
        ye = s.ys();
        ze.push_back(0.0);
        for (double d : s.dz) ze.push_back(ze.back() + d);
    }
    const CoreMesh &mesh() const { return *core->mesh; }
    const XSMeshRegion &data(long reg) const { return (*xs)[xs_of[reg]]; }
    long region(Point3 p, Direction d, Position *pos = nullptr) const
    {
        auto l = mesh().get_location_info(p, d);
        if (pos) *pos = l.pos;
        return l.reg_offset + l.pm->find_reg(l.local_point, d);
    }
    // start the random stream of the pusher at a place that the seed determines, and forget the history that it took
    void start_stream()
    {
        Particle p(Point3(0.37 * xe.back(), 0.41 * ye.back(), 0.43 * ze.back()), Direction(0.7, 1.1), 0, 3);
        push->simulate(p, true);
        push->reset_tallies(true);
        push->fission_bank().clear();
    }
};
// every material has the cross sections of a scaled or changed copy
inline void scale(vfc::Spec &s, double f)
{
    for (auto &m : s.mats)
        for (long g = 0; g < s.ng; g++) {
            m.abs[g] *= f, m.nuf[g] *= f, m.fis[g] *= f;
            for (auto &v : m.scat[g]) v *= f;
        }
}
// fission is part of the absorption
inline vfc::Spec physical(const vfc::Options &op)
{
    vfc::Spec s = vfc::spec(op);
    for (auto &m : s.mats)
        for (long g = 0; g < s.ng; g++) m.abs[g] += m.fis[g];
    return s;
}
inline Point3 somewhere(const World &w)
{
    double a = 0.011 + 0.977 * vf::range("x", 0, 100000) / 100000.0, b = 0.013 + 0.973 * vf::range("y", 0, 100000) / 100000.0,
           c = 0.017 + 0.967 * vf::range("z", 0, 100000) / 100000.0;
    return Point3(a * w.xe.back(), b * w.ye.back(), c * w.ze.back());
}
inline Direction some_direction()
{
    double az = 0.0137 + 2 * 3.14159265358979 * vf::range("azimuth", 0, 100000) / 100003.0;
    double mu = -0.9513 + 1.9 * vf::range("mu", 0, 100000) / 100000.0;
    if (std::fabs(mu) < 0.01) mu = 0.0123;
    double si = std::sqrt(1 - mu * mu);
    return Direction(si * std::cos(az), si * std::sin(az), mu);
}
// one coordinate of a flight with reflections: distance to the face where it ends, or infinite
inline double axis_end(double x, double u, double len, bool lo_reflects, bool hi_reflects)
{
    double inf = 1e30;
    double d   = u > 0 ? (len - x) / u : -x / u;
    if (u > 0 ? !hi_reflects : !lo_reflects) return d;
    if (u > 0 ? !lo_reflects : !hi_reflects) return d + len / std::fabs(u);
    return inf;
}
inline double fold(double x, double len)
{
    double t = std::fmod(x, 2 * len);
    if (t < 0) t += 2 * len;
    return t > len ? 2 * len - t : t;
}
struct Piece {
    double from, to;
    long pin, region;      // coarse cell, region
};
struct Flight {
    double length;
    std::vector<Piece> pieces;
};
// distances at which the unfolded coordinate crosses a pin boundary
inline void crossings(std::vector<double> &at, double x, double u, const std::vector<double> &e, double end)
{
    double len = e.back(), stop = x + u * end;
    double lo = std::min(x, stop), hi = std::max(x, stop);
    for (long k = (long)std::floor(lo / (2 * len)) - 1; k <= (long)std::ceil(hi / (2 * len)) + 1; k++)
        for (double b : e)
            for (int sg = -1; sg <= 1; sg += 2) {
                double y = 2 * len * k + sg * b;
                if (y > lo && y < hi) at.push_back((y - x) / u);
            }
}
inline Flight flight(const World &w, Point3 p, Direction d, double most = 1e30)
{
    Flight f;
    const auto &bc = w.core->s.bc;      // east north west south top bottom
    auto ref = [&](int i) { return bc[i] == "reflect"; };
    double lx = w.xe.back(), ly = w.ye.back(), lz = w.ze.back();
    f.length = std::min(std::min(axis_end(p.x, d.ox, lx, ref(2), ref(0)), axis_end(p.y, d.oy, ly, ref(3), ref(1))), axis_end(p.z, d.oz, lz, ref(5), ref(4)));
    f.length = std::min(f.length, most);
    if (f.length > 300) return f;
    std::vector<double> at{0.0, f.length};
    crossings(at, p.x, d.ox, w.xe, f.length);
    crossings(at, p.y, d.oy, w.ye, f.length);
    crossings(at, p.z, d.oz, w.ze, f.length);
    std::sort(at.begin(), at.end());
    // direction at distance s follows from the parity of the reflections
    auto sign = [](double x, double len) { return ((long)std::floor(x / len)) & 1 ? -1.0 : 1.0; };
    auto where = [&](double s, Position &pos) {
        Point3 q(fold(p.x + d.ox * s, lx), fold(p.y + d.oy * s, ly), fold(p.z + d.oz * s, lz));
        Direction e(d.ox * sign(p.x + d.ox * s, lx), d.oy * sign(p.y + d.oy * s, ly), d.oz * sign(p.z + d.oz * s, lz));
        return w.region(q, e, &pos);
    };
    for (size_t i = 0; i + 1 < at.size(); i++) {
        double a = at[i], b = at[i + 1];
        if (b - a < 1e-9) continue;
        double m = 0.5 * (a + b);
        // the pin follows from the coordinates alone
        auto cell = [](const std::vector<double> &e, double v) {
            long k = 0;
            while (k + 2 < (long)e.size() && v > e[k + 1]) k++;
            return k;
        };
        Position want(cell(w.xe, fold(p.x + d.ox * m, lx)), cell(w.ye, fold(p.y + d.oy * m, ly)), cell(w.ze, fold(p.z + d.oz * m, lz)));
        long pin = w.mesh().coarse_cell(want);
        const int n = 1024;
        Position pos;
        double s0 = a + (b - a) * 1e-6;
        long r0 = where(s0, pos);
        double begin = a;
        for (int k = 1; k <= n; k++) {
            double s1 = k == n ? b - (b - a) * 1e-6 : a + (b - a) * k / n;
            long r1 = where(s1, pos);
            if (r1 != r0) {
                double lo = s0, hi = s1;
                for (int it = 0; it < 40; it++) {
                    double mm = 0.5 * (lo + hi);
                    if (where(mm, pos) == r0) lo = mm;
                    else hi = mm;
                }
                f.pieces.push_back({begin, lo, pin, r0});
                begin = lo;
                r0 = r1;
            }
            s0 = s1;
        }
        f.pieces.push_back({begin, b, pin, r0});
    }
    return f;
}
// histories without collisions: every track length is known
inline void flights()
{
    vfc::Options op;
    vfc::Spec s = physical(op);
    scale(s, 1e-9);
    World w(s);
    double expect_k = 0;
    std::map<std::pair<long, long>, double> pin, reg, power;
    double weights = 0, slack = 0;
    long n = vf::range("particles", 1, 4), flown = 0;
    for (long i = 0; i < n; i++) {
        Point3 p = somewhere(w);
        Direction d = some_direction();
        Flight f = flight(w, p, d);
        if (f.length > 200) continue;
        long g = vf::range("group", 0, w.ng - 1);
        Particle q(p, d, g, vf::range("id", 0, 50));
        q.weight = vfc::val("weight", 0.2, 3.0);
        for (auto &c : f.pieces) {
            double t = (c.to - c.from) * q.weight;
            pin[{g, c.pin}] += t;
            reg[{g, c.region}] += t;
            expect_k += t * w.data(c.region).xsmacnf(g);
            slack += 3 * q.weight * (c.to - c.from) / 1024;
        }
        weights += q.weight;
        w.push->simulate(q);
        flown++;
    }
    if (flown == 0) return;
    w.push->commit_tallies();
    double nf = 0;
    for (const auto &r : *w.xs)
        for (long g = 0; g < w.ng; g++) nf = std::max(nf, (double)r.xsmacnf(g));
    const auto &vol = w.mesh().coarse_volume();
    VecF fine = w.mesh().volumes(MeshTreatment::TRUE);
    for (long g = 0; g < w.ng; g++) {
        auto c = w.push->flux_tallies()[g].get();
        for (long i = 0; i < (long)c.size(); i++) {
            double have = c[i].first * vol[i] * weights, want = pin[{g, i}];
            vf::check(near(have, want, 1e-6 * (1 + want)), "track length in every pin");
        }
        auto f = w.push->fine_flux_tallies()[g].get();
        for (long i = 0; i < (long)f.size(); i++) {
            double have = f[i].first * fine[i] * weights, want = reg[{g, i}];
            vf::check(near(have, want, 1e-6 * (1 + want) + slack), "track length in every region");
        }
    }
    vf::check(near(w.push->k_tally_tl().get().first * weights, expect_k, 1e-6 * expect_k + slack * nf * 0.5), "fission production along the tracks");
    vf::check(w.push->fission_bank().size() == 0, "no sites without collisions");
}
// particles that fly from one place in one direction until they are absorbed or leave
inline void attenuation()
{
    vfc::Options op;
    op.max_lat = 1;
    vfc::Spec s = physical(op);
    for (auto &m : s.mats)
        for (auto &r : m.scat)
            for (auto &v : r) v = 0;
    for (auto &m : s.mats)
        for (long g = 0; g < s.ng; g++) m.abs[g] += m.fis[g] + 0.1;
    World w(s);
    Point3 p = somewhere(w);
    Direction d = some_direction();
    Flight f = flight(w, p, d, 120.0);
    long g = vf::range("group", 0, w.ng - 1);
    std::map<long, double> pin, reg;
    double tau = 0, k = 0, slack = 0;
    for (auto &c : f.pieces) {
        const XSMeshRegion &r = w.data(c.region);
        double t = r.xsmactr(g), next = tau + t * (c.to - c.from);
        double in = std::exp(-tau) - std::exp(-next);
        pin[c.pin] += in / t;
        reg[c.region] += in / t;
        k += in * r.xsmacnf(g) / t;
        slack += std::exp(-tau) * (c.to - c.from) / 1024;
        tau = next;
    }
    long n = 1500;
    for (long i = 0; i < n; i++) {
        Particle q(p, d, g, i);
        w.push->simulate(q, true);
    }
    double root = std::sqrt((double)n);
    // each of these is at most 3 neutrons for a history
    vf::check(near(w.push->k_tally_col().get().first, k, 7 * 3.0 * std::sqrt(0.35) / root + slack), "expected production at collisions");
    vf::check(near(w.push->fission_bank().size() / (double)n, k, 7 * 3.0 / root + slack), "expected number of sites");
    const auto &vol = w.mesh().coarse_volume();
    auto c = w.push->flux_tallies()[g].get();
    for (long i = 0; i < (long)c.size(); i++) {
        double have = c[i].first * vol[i], want = pin[i];
        double dev = want == 0 ? 0 : 7 * std::max(have * c[i].second / root, 0.02 * want / root);
        // rarely reached pins: at most the diagonal at a time
        if (want > 0.02) vf::check(near(have, want, dev + 3 * slack + 1e-6), "expected track length in every pin");
        if (want == 0) vf::check(have == 0 || tau > 20, "no tracks away from the flight");
    }
    VecF fine = w.mesh().volumes(MeshTreatment::TRUE);
    auto ft = w.push->fine_flux_tallies()[g].get();
    for (long i = 0; i < (long)ft.size(); i++) {
        double have = ft[i].first * fine[i], want = reg[i];
        if (want > 0.02) vf::check(near(have, want, 7 * have * ft[i].second / root + 0.02 * want + slack), "expected track length in every region");
    }
}
// an endless uniform medium: flux of every group from the balance of the groups
inline void endless()
{
    vfc::Options op;
    op.all_bc = 1;
    op.max_lat = 1, op.max_pin = 2, op.max_nz = 2;
    vfc::Spec s = physical(op);
    for (auto &p : s.pins)
        for (auto &m : p.mats) m = 1;
    vfc::MatSpec &m = s.mats[0];
    for (long g = 0; g < s.ng; g++) m.abs[g] += 0.05;
    World w(s);
    long ng = w.ng, g0 = vf::range("group", 0, ng - 1), n = 1500;
    // (total - transfers into the group) flux = source, by elimination
    std::vector<std::vector<double>> a(ng, std::vector<double>(ng + 1, 0.0));
    for (long i = 0; i < ng; i++) {
        for (long j = 0; j < ng; j++) {
            a[i][j] -= m.scat[i][j];
            a[i][i] += m.scat[j][i];
        }
        a[i][i] += m.abs[i];
        a[i][ng] = i == g0;
    }
    std::vector<double> removal(ng);
    for (long i = 0; i < ng; i++) removal[i] = a[i][i];
    for (long i = 0; i < ng; i++)
        for (long j = 0; j < ng; j++)
            if (j != i) {
                double q = a[j][i] / a[i][i];
                for (long c = i; c <= ng; c++) a[j][c] -= q * a[i][c];
            }
    std::vector<double> want(ng), all(ng, 0.0);
    double k = 0;
    for (long i = 0; i < ng; i++) {
        want[i] = a[i][ng] / a[i][i];
        k += want[i] * m.nuf[i];
    }
    Point3 p = somewhere(w);
    Direction d = some_direction();
    // batches give the deviation of the sums over the core
    long batches = 30;
    std::vector<double> sq(ng, 0.0);
    const auto &vol = w.mesh().coarse_volume();
    double sites = 0;
    for (long b = 0; b < batches; b++) {
        for (long i = 0; i < n / batches; i++) w.push->simulate(Particle(p, d, g0, b * (n / batches) + i));
        w.push->commit_tallies();
        for (long g = 0; g < ng; g++) {
            double sum = 0;
            auto t = w.push->flux_tallies()[g].get();
            for (long i = 0; i < (long)t.size(); i++) sum += t[i].first * vol[i];
            sum = sum * (b + 1) - all[g];
            all[g] += sum;
            sq[g] += sum * sum;
        }
    }
    sites = w.push->fission_bank().size() / (double)n;
    double most = 0;
    for (long g = 0; g < ng; g++) {
        double mean = all[g] / batches, dev = std::sqrt(std::max(0.0, sq[g] / batches - mean * mean) / (batches - 1));
        vf::check(near(mean, want[g], 8.5 * dev + 0.03 * want[g] + 15 / (n * removal[g])), "flux of every group in an endless medium");
        most += (8.5 * dev + 15 / (n * removal[g])) * m.nuf[g];
    }
    vf::check(near(w.push->k_tally_tl().get().first, k, most + 0.03 * k), "eigenvalue along tracks in an endless medium");
    vf::check(near(w.push->k_tally_col().get().first, k, most + 0.25 * k), "eigenvalue at collisions in an endless medium");
    vf::check(near(sites, k, 7 * 3.2 / std::sqrt((double)n)), "sites per history in an endless medium");
}
// a bank is the same as its particles one by one, in whatever order; a later cycle is not a repetition
inline void banks()
{
    vfc::Options op;
    op.max_lat = 1;
    vfc::Spec s = physical(op);
    for (auto &m : s.mats)
        for (long g = 0; g < s.ng; g++) m.abs[g] += 0.05;
    World w(s);
    ParticlePusher one(w.mesh(), *w.xs);
    long seed = 2 * vf::range("stream", 0, 1000000) + 1, n = vf::range("particles", 1, 40);
    w.push->set_seed(seed);
    one.set_seed(seed);
    FissionBank bank(w.mesh());
    std::vector<Particle> ps;
    double weights = 0;
    for (long i = 0; i < n; i++) {
        Particle p(somewhere(w), some_direction(), vf::range("group", 0, w.ng - 1), i);
        p.weight = vfc::val("weight", 0.5, 2.0);
        weights += p.weight;
        ps.push_back(p);
        bank.push_back(p);
    }
    w.push->simulate(bank, 1.0);
    long turn = vf::range("turn", 0, n - 1);
    for (long i = 0; i < n; i++) one.simulate(ps[(i * (n % 7 ? 7 : 1) + turn) % n]);
    one.commit_tallies();
    auto same = [](double a, double b) { return near(a, b, 1e-9 * (std::fabs(a) + std::fabs(b)) + 1e-12); };
    vf::check(same(w.push->k_tally_tl().get().first, one.k_tally_tl().get().first), "same production along the tracks");
    vf::check(same(w.push->k_tally_col().get().first, one.k_tally_col().get().first), "same production at collisions");
    auto sites = [](ParticlePusher &p) {
        std::vector<std::array<double, 8>> v;
        for (int i = 0; i < p.fission_bank().size(); i++) {
            const Particle &q = p.fission_bank()[i];
            v.push_back({(double)q.id, q.location_global.x, q.location_global.y, q.location_global.z, q.direction.ox, q.direction.oy, q.direction.oz, (double)q.group});
        }
        std::sort(v.begin(), v.end());
        return v;
    };
    auto first = sites(*w.push);
    vf::check(first == sites(one), "same sites");
    vf::check(same(w.push->k_tally_analog().get().first, first.size() / (double)n), "sites per particle");
    for (long g = 0; g < w.ng; g++) {
        auto a = w.push->fine_flux_tallies()[g].get(), b = one.fine_flux_tallies()[g].get();
        for (size_t i = 0; i < a.size(); i++) vf::check(same(a[i].first, b[i].first), "same flux in every region");
        auto c = w.push->flux_tallies()[g].get(), d = one.flux_tallies()[g].get();
        for (size_t i = 0; i < c.size(); i++) vf::check(same(c[i].first, d[i].first), "same flux in every pin");
    }
    w.push->simulate(bank, 1.0);
    auto second = sites(*w.push);
    vf::check(first.size() < 4 || first != second, "a later cycle draws new numbers");
    vf::check(same(w.push->k_tally_analog().get().first * 2 * n, first.size() + second.size()), "bank of a cycle holds the sites of that cycle only");
}
// many collisions of the same particle
inline void collisions()
{
    vfc::Options op;
    op.all_bc = 0;
    vfc::Spec s = physical(op);
    World w(s);
    w.start_stream();
    long ng = w.ng, g = vf::range("group", 0, ng - 1), n = 4000;
    Point3 at = somewhere(w);
    Direction d = some_direction();
    Position pos;
    long reg = w.region(at, d, &pos);
    const XSMeshRegion &x = w.data(reg);
    double weight = vfc::val("weight", 0.3, 2.5), tr = x.xsmactr(g), nf = x.xsmacnf(g), fi = x.xsmacf(g);
    double nu = fi > 0 ? nf / fi : 0, per = weight * nu;
    unsigned id = vf::range("id", 0, 1000);
    bool known = false;
    double scat = 0, n_scat = 0, n_fis = 0, n_sites = 0;
    std::vector<double> out(ng, 0.0), born(ng, 0.0);
    double dir[6] = {0}, n_dir = 0, oct[8] = {0};
    auto direction = [&](const Direction &e) {
        vf::check(near(e.ox * e.ox + e.oy * e.oy + e.oz * e.oz, 1, 1e-9), "unit directions");
        dir[0] += e.ox, dir[1] += e.oy, dir[2] += e.oz;
        dir[3] += e.ox * e.ox, dir[4] += e.oy * e.oy, dir[5] += e.oz * e.oz;
        oct[(e.ox > 0) + 2 * (e.oy > 0) + 4 * (e.oz > 0)] += 1;
        n_dir += 1;
    };
    for (long i = 0; i < n; i++) {
        Particle p(at, d, g, id);
        p.weight = weight;
        p.ireg = reg, p.ixsreg = w.xs_of[reg];
        p.location = w.mesh().get_location_info(at, d).local_point;
        p.pin_position = pos;
        long before = w.push->fission_bank().size();
        w.push->collide(p);
        long made = w.push->fission_bank().size() - before;
        vf::check(vf::all(p.location_global.x == at.x, p.location_global.y == at.y, p.location_global.z == at.z, p.weight == weight, p.id == id), "a collision moves nothing");
        if (p.alive) {
            n_scat++;
            vf::check(made == 0, "no sites from scattering");
            vf::check(p.group >= 0 && p.group < ng, "group in range");
            out[p.group]++;
            direction(p.direction);
        } else if (made > 0 || (per < 1 && fi > 0))
            n_fis += made > 0;
        if (made > 0) {
            vf::check(made == (long)std::floor(per) || made == (long)std::floor(per) + 1, "number of sites next to the expected one");
            n_sites += made;
            for (long k = before; k < before + made; k++) {
                const Particle &q = w.push->fission_bank()[k];
                vf::check(vf::all(q.location_global.x == at.x, q.location_global.y == at.y, q.location_global.z == at.z), "sites lie where the collision is");
                vf::check(vf::all(q.id == id, q.weight == 1.0, q.alive), "sites carry the number of the history and unit weight");
                vf::check(q.group >= 0 && q.group < ng, "group in range");
                born[q.group]++;
                direction(q.direction);
            }
        }
    }
    // the material of the region, by its fission cross section (materials beside each other in a pin stay apart)
    for (const auto &m : s.mats) {
        scat = 0;
        for (long k = 0; k < ng; k++) scat += m.scat[k][g];
        if (!near(m.fis[g], fi, 1e-12) || !near(m.abs[g] + scat, tr, 1e-9)) continue;
        for (long to = 0; to < ng; to++) {
            vf::check(frequent(out[to], n_scat, m.scat[to][g] / scat), "groups after scattering");
            if (m.fissile) vf::check(frequent(born[to], n_sites, m.chi[to]), "groups of sites");
        }
        vf::check(frequent(n_scat, n, scat / (m.abs[g] + scat)), "frequency of scattering");
        known = true;
    }
    vf::check(known, "cross sections of the material at the place");
    double p_some = per >= 1 ? 1.0 : per;
    vf::check(frequent(n_fis, n, fi / tr * p_some), "frequency of fission");
    vf::check(near(n_sites, n * per * fi / tr, 7 * (per + 1) * std::sqrt(n * fi / tr + 1) + 12), "sites on average");
    if (n_dir > 100) {
        double r = std::sqrt(n_dir);
        for (int k = 0; k < 3; k++) {
            vf::check(near(dir[k] / n_dir, 0, 7 * 0.578 / r), "no direction is preferred");
            vf::check(near(dir[k + 3] / n_dir, 1.0 / 3, 7 * 0.3 / r), "no axis is preferred");
        }
        for (int k = 0; k < 8; k++) vf::check(frequent(oct[k], n_dir, 0.125), "no octant is preferred");
    }
}
}
#endif
