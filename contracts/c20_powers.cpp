// C20, bounded: fission and pin powers of real sweepers on random cores
// trials *: 1000 30000
#include "moc.hpp"
#include "sweepers.hpp"
#ifndef VF_SYM
using namespace mocc;
static bool close(double a, double b) { return std::abs(a - b) <= 1e-10 * (std::abs(a) + std::abs(b)); }
static vfc::Options options()
{
    vfc::Options op;
    op.max_ng = 3;
    op.max_pin = 2;
    return op;
}
static void random_flux(TransportSweeper &s)
{
    double scale = vf::range("scale", 0, 1) ? 1.0 : 1e-3;
    for (auto &v : s.flux()) v = vf::range("phi", 0, 1000) / 100.0 * scale;
}
VF_HARNESS(moc)
{
    vfm::Moc m(vfc::spec(options()));
    const vfc::Spec &sp = m.core.s;
    TransportSweeper &s = *m.s;
    vfm::Numbering num(sp);
    s.initialize();
    ArrayB2 first(s.flux().copy());
    s.store_old_flux();
    random_flux(s);
    const ArrayB2 &f = s.flux();
    long nxy = num.nx * num.ny, nm = sp.subplane.size();
    double k = vf::range("k", 20, 200) / 100.0;
    ArrayB1 fs(s.n_reg());
    fs = 7.0;
    s.calc_fission_source(k, fs);
    double total = 0, total_old = 0, power_sum = 0;
    std::vector<double> power(nm * nxy, 0.0);
    long fuel = 0;
    for (long mp = 0; mp < nm; mp++) {
        long here = 0;
        for (long xy = 0; xy < nxy; xy++) {
            const vfc::PinSpec &p = sp.pins[sp.pin_at(xy % num.nx, xy / num.nx, num.plane[mp])];
            const PinMesh &pm = m.core.mesh->pins().at((int)(&p - &sp.pins[0]) + 1)->mesh();
            bool fissile = false;
            long r = 0;
            for (size_t x = 0; x < p.mats.size(); x++) {
                const vfc::MatSpec &mat = sp.mats[p.mats[x] - 1];
                fissile = fissile || mat.fissile;
                for (long i = 0; i < (long)pm.n_fsrs((unsigned)x); i++, r++) {
                    int at = (int)(num.first[mp][xy] + r);
                    double v = pm.areas()[r] * num.height[mp], nf = 0;
                    for (long g = 0; g < sp.ng; g++) {
                        nf += mat.nuf[g] * f(at, (int)g);
                        total_old += v * mat.nuf[g] * first(at, (int)g);
                        power[mp * nxy + xy] += v * mat.fis[g] * f(at, (int)g);
                    }
                    total += v * nf;
                    vf::check(close(fs(at), nf / k), "fission source of the region");
                }
            }
            here += fissile;
            power_sum += power[mp * nxy + xy];
        }
        fuel = std::max(fuel, here);
    }
    vf::check(close(s.total_fission(false), total), "total fission");
    vf::check(close(s.total_fission(true), total_old), "total fission of the old flux");
    vf::assume(power_sum > 0);
    ArrayB3 p = s.pin_powers();
    vf::check(p.extent(0) == nm && p.extent(1) == num.ny && p.extent(2) == num.nx, "a power for each pin");
    double sum = 0;
    for (long mp = 0; mp < nm; mp++)
        for (long xy = 0; xy < nxy; xy++) {
            double v = p((int)mp, (int)(xy / num.nx), (int)(xy % num.nx));
            sum += v;
            vf::check(close(v * power_sum, power[mp * nxy + xy] * fuel), "power of the pin");
        }
    vf::check(close(sum, (double)fuel), "the powers add up to the number of fuelled pins of the fullest plane");
}
VF_HARNESS(sn)
{
    vfs::SnInput in(vfc::spec(options()));
    const vfc::Spec &sp = in.core.s;
    std::unique_ptr<sn::SnSweeper> s(new sn::SnSweeper_DD(in.node(), *in.core.mesh));
    s->initialize();
    ArrayB2 first(s->flux().copy());
    s->store_old_flux();
    random_flux(*s);
    const ArrayB2 &f = s->flux();
    long nxy = sp.npx() * sp.npy();
    double k = vf::range("k", 20, 200) / 100.0;
    ArrayB1 fs(s->n_reg());
    fs = 7.0;
    s->calc_fission_source(k, fs);
    double total = 0, total_old = 0, sum = 0, sum_2d = 0;
    std::vector<double> power(sp.nz * nxy, 0.0), flat(nxy, 0.0);
    for (long z = 0; z < sp.nz; z++)
        for (long xy = 0; xy < nxy; xy++) {
            const vfc::PinSpec &p = sp.pins[sp.pin_at(xy % sp.npx(), xy / sp.npx(), z)];
            const PinMesh &pm = in.core.mesh->pins().at((int)(&p - &sp.pins[0]) + 1)->mesh();
            long r = 0;
            int at = (int)(z * nxy + xy);
            double src = 0, area = sp.wx[0][0] * sp.wy[0][0];
            for (size_t x = 0; x < p.mats.size(); x++)
                for (long i = 0; i < (long)pm.n_fsrs((unsigned)x); i++, r++)
                    for (long g = 0; g < sp.ng; g++) {
                        double v = pm.areas()[r];
                        src += v / area * sp.mats[p.mats[x] - 1].nuf[g] * f(at, (int)g);
                        total += v * sp.dz[z] * sp.mats[p.mats[x] - 1].nuf[g] * f(at, (int)g);
                        total_old += v * sp.dz[z] * sp.mats[p.mats[x] - 1].nuf[g] * first(at, (int)g);
                        power[at] += v * sp.dz[z] * sp.mats[p.mats[x] - 1].fis[g] * f(at, (int)g);
                    }
            flat[xy] += power[at];
            sum += power[at];
            vf::check(close(fs(at), src / k), "fission source of the pin");
        }
    vf::check(close(s->total_fission(false), total), "total fission");
    vf::check(close(s->total_fission(true), total_old), "total fission of the old flux");
    vf::assume(sum > 0);
    long n = 0, n_2d = 0;
    for (double v : power) n += v > 0;
    for (double v : flat) n_2d += v > 0;
    ArrayB3 p = s->pin_powers();
    ArrayB2 q = s->pin_powers_2d();
    for (long z = 0; z < sp.nz; z++)
        for (long xy = 0; xy < nxy; xy++)
            vf::check(close(p((int)z, (int)(xy / sp.npx()), (int)(xy % sp.npx())) * sum, power[z * nxy + xy] * n), "power of the pin, averaging to one over those with power");
    for (long xy = 0; xy < nxy; xy++) {
        vf::check(close(q((int)(xy / sp.npx()), (int)(xy % sp.npx())) * sum, flat[xy] * n_2d), "power of the column, averaging to one over those with power");
        sum_2d += q((int)(xy / sp.npx()), (int)(xy % sp.npx()));
    }
    vf::check(close(sum_2d, (double)n_2d), "average of one");
}
#endif
