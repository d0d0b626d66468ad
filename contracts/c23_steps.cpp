// C23: the steps of a flight: distance to the pin boundary, moving, and reflecting
// trials *: 3000 100000
#include "vf.hpp"
#include "sweepers/mc/particle_pusher.cpp"
using namespace mocc;
using namespace mocc::mc;
static bool near(double a, double b)
{
#ifdef VF_SYM
    return vf::eq(a, b);
#else
    return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b));
#endif
}
VF_HARNESS(pin_boundary)
{
    Particle &p = vf::object<Particle>("particle");
    std::array<Point3, 2> b;
    double x = vf::real("x"), y = vf::real("y"), z = vf::real("z");
    b[0].x = x - vf::positive("west"), b[0].y = y - vf::positive("south"), b[0].z = z - vf::positive("below");
    b[1].x = x + vf::positive("east"), b[1].y = y + vf::positive("north"), b[1].z = z + vf::positive("above");
    p.location_global.x = x, p.location_global.y = y, p.location_global.z = z;
    double u = vf::real("u"), v = vf::real("v"), w = vf::real("w");
    // quotients stay in the range of doubles
    vf::assume(vf::all(u * u > 1e-30, v * v > 1e-30, w * w > 1e-30));
    vf::assume(vf::all(b[1].x - b[0].x < 1e9, b[1].y - b[0].y < 1e9, b[1].z - b[0].z < 1e9));
    p.direction.ox = u, p.direction.oy = v, p.direction.oz = w;
    vf::assume(vf::all(b[0].x < x, b[0].y < y, b[0].z < z, x < b[1].x, y < b[1].y, z < b[1].z));
    double d = distance_to_pin(b, p);
    double ex = u > 0 ? b[1].x - x : b[0].x - x, ey = v > 0 ? b[1].y - y : b[0].y - y, ez = w > 0 ? b[1].z - z : b[0].z - z;
    vf::check(d > 0, "the boundary lies ahead");
    vf::check(vf::any(near(d * u, ex), near(d * v, ey), near(d * w, ez)), "the end lies on the boundary");
#ifdef VF_SYM
    vf::check(u > 0 ? d * u <= ex : d * u >= ex, "not beyond in x");
    vf::check(v > 0 ? d * v <= ey : d * v >= ey, "not beyond in y");
    vf::check(w > 0 ? d * w <= ez : d * w >= ez, "not beyond in z");
#else
    vf::check(std::fabs(d * u) <= std::fabs(ex) * (1 + 1e-12) && std::fabs(d * v) <= std::fabs(ey) * (1 + 1e-12) && std::fabs(d * w) <= std::fabs(ez) * (1 + 1e-12), "not beyond");
#endif
}
VF_HARNESS(moving)
{
    Particle &p = vf::object<Particle>("particle");
    double x = vf::real("x"), y = vf::real("y"), z = vf::real("z"), lx = vf::real("lx"), ly = vf::real("ly"), d = vf::nonneg("d");
    double u = vf::real("u"), v = vf::real("v"), w = vf::real("w"), weight = vf::positive("weight");
    p.location_global.x = x, p.location_global.y = y, p.location_global.z = z;
    p.location.x = lx, p.location.y = ly;
    p.direction.ox = u, p.direction.oy = v, p.direction.oz = w;
    p.weight = weight, p.group = 1, p.ireg = 2, p.ixsreg = 3;
    p.move(d);
    double dx = p.location_global.x - x, dy = p.location_global.y - y, dz = p.location_global.z - z;
    vf::check(near(p.location.x - lx, dx) && near(p.location.y - ly, dy), "both locations move alike");
    // along the direction up to bumps that no tally can see
    vf::check(vf::all(std::fabs(dx - d * u) <= 1e-9 * (1 + std::fabs(u)), std::fabs(dy - d * v) <= 1e-9 * (1 + std::fabs(v)), std::fabs(dz - d * w) <= 1e-9 * (1 + std::fabs(w))), "along the direction");
#ifdef VF_SYM
    vf::check(vf::all(vf::implies(u > 0, dx > d * u), vf::implies(u < 0, dx < d * u), vf::implies(v > 0, dy > d * v), vf::implies(v < 0, dy < d * v), vf::implies(w > 0, dz > d * w),
                      vf::implies(w < 0, dz < d * w)),
              "and a little beyond");
#endif
    vf::check(vf::all(p.direction.ox == u, p.direction.oy == v, p.direction.oz == w, p.weight == weight, p.group == 1, p.ireg == 2, p.ixsreg == 3), "nothing else changes");
}
VF_HARNESS(inner_moving)
{
    Particle &p = vf::object<Particle>("particle");
    double x = vf::real("x"), y = vf::real("y"), lx = vf::real("lx"), ly = vf::real("ly"), d = vf::nonneg("d");
    double u = vf::real("u"), v = vf::real("v");
    p.location_global.x = x, p.location_global.y = y;
    p.location.x = lx, p.location.y = ly;
    p.direction.ox = u, p.direction.oy = v;
    p.move(d, false);
    double dx = p.location.x - lx, dy = p.location.y - ly;
    vf::check(near(dx * v, dy * u), "exactly along the direction");
    vf::check(near(p.location_global.x - x, dx) && near(p.location_global.y - y, dy), "both locations move alike");
}
VF_HARNESS(reflecting)
{
    double u = vf::real("u"), v = vf::real("v"), w = vf::real("w");
    vf::assume(vf::all(u * u + v * v + w * w > 0.01, u * u + v * v > 0.01));
    double r = std::sqrt(u * u + v * v + w * w);
    u /= r, v /= r, w /= r;
    Direction d(u, v, w);
    long s = vf::range("face", 0, 5);
    d.reflect(s == 0 ? Surface::EAST : s == 1 ? Surface::WEST : s == 2 ? Surface::NORTH : s == 3 ? Surface::SOUTH : s == 4 ? Surface::TOP : Surface::BOTTOM);
    vf::check(near(d.ox, s < 2 ? -u : u), "x turned by east and west");
    vf::check(near(d.oy, s == 2 || s == 3 ? -v : v), "y turned by north and south");
    vf::check(near(d.oz, s > 3 ? -w : w), "z turned by top and bottom");
}
