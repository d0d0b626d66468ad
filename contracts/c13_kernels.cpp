// C13: the discrete-ordinates kernels keep the cell balance and their closure relations
// trials *: 400 20000
#include "sweepers.hpp"
using namespace mocc;
using vfs::Kernel;

VF_HARNESS(dd_3d)
{
    Kernel<sn::SnSweeper_DD> k;
    k.setup(true);
    k.run();
    k.balance_3d();
    k.radial_closure();
    vf::check(vf::eq(2 * k.c.psi, k.c.z0 + k.c.z1), "z closure");
}
VF_HARNESS(dd_2d)
{
    Kernel<sn::SnSweeper_DD> k;
    k.setup(false);
    k.run_2d();
    k.balance_2d();
    k.radial_closure();
}
static double sc_rho(double xstr, double tz)
{
    double tau = xstr / tz;
    double rho = 1.0 / tau - 1.0 / (std::exp(tau) - 1.0);
#ifdef VF_SYM
    // analysis: exp(t) > 1 and 0 < 1/t - 1/(exp(t)-1) < 1/2 for t > 0
    vf::assume(std::exp(tau) > 1);
    vf::assume(rho > 0 && rho < 0.5);
#endif
    return rho;
}
VF_HARNESS(dd_sc_3d)
{
    Kernel<sn::SnSweeper_DD_SC> k;
    k.setup(true);
    double rho = sc_rho(k.c.xstr, k.c.tz);
#ifndef VF_SYM
    vf::assume(k.c.xstr / k.c.tz > 1e-3);
#endif
    k.run();
    k.balance_3d();
    k.radial_closure();
    vf::check(vf::eq(k.c.psi, rho * k.c.z0 + (1 - rho) * k.c.z1), "z closure");
}
VF_HARNESS(dd_sc_2d)
{
    Kernel<sn::SnSweeper_DD_SC> k;
    k.setup(false);
    k.run_2d();
    k.balance_2d();
    k.radial_closure();
}
VF_HARNESS(cdd_2d)
{
    Kernel<cmdo::SnSweeper_CDD_DD> k;
    k.setup(false);
    k.factors(false);
    k.run_2d();
    k.balance_2d();
    k.radial_closure();
}
VF_HARNESS(cdd_dd_3d)
{
    Kernel<cmdo::SnSweeper_CDD_DD> k;
    k.setup(true);
    k.factors(true);
    k.run();
    k.balance_3d();
    k.radial_closure();
    vf::check(vf::eq(2 * k.c.psi, k.c.z0 + k.c.z1), "z closure");
}
VF_HARNESS(cdd_fw_3d)
{
    Kernel<cmdo::SnSweeper_CDD_FW> k;
    k.setup(true);
    k.factors(true);
    k.run();
    k.balance_3d();
    k.radial_closure();
    vf::check(vf::eq(k.c.psi, k.c.z1), "z closure");
}
VF_HARNESS(cdd_sc_3d)
{
    Kernel<cmdo::SnSweeper_CDD_SC> k;
    k.setup(true);
    k.factors(true);
    double rho = sc_rho(k.c.xstr, k.c.tz);
#ifndef VF_SYM
    vf::assume(k.c.xstr / k.c.tz > 1e-3);
#endif
    k.run();
    k.balance_3d();
    k.radial_closure();
    vf::check(vf::eq(k.c.psi, rho * k.c.z0 + (1 - rho) * k.c.z1), "z closure");
}
// negative outgoing axial flux is replaced by zero and the cell re-balanced
VF_HARNESS(cdd_ff_3d)
{
    Kernel<cmdo::SnSweeper_CDD_DD_FF> k;
    k.setup(true);
    k.factors(true);
    k.run();
    k.balance_3d();
    k.radial_closure();
    vf::check(k.c.z1 >= 0, "no negative axial flux leaves");
    vf::check(vf::any(vf::eq(2 * k.c.psi, k.c.z0 + k.c.z1), k.c.z1 == 0), "z closure or fix-up");
}
VF_HARNESS(cdd_pmb_3d)
{
    Kernel<cmdo::SnSweeper_CDD_PMB> k;
    k.setup(true);
    k.factors(true);
    k.c.gx = k.c.gy = 0.5;
    k.run();
    k.balance_3d();
    k.radial_closure();
    // balance of the downwind half cell
    vf::check(vf::eq(2 * k.c.tz * (k.c.z1 - k.c.psi) + k.c.xstr * k.c.z1, k.c.q), "z closure");
}
