// The surface numbering of a structured mesh: per plane the z-normal faces below it, its x-normal faces, its y-normal faces
#pragma once
#include "meshes.hpp"
namespace vfm {
inline long plane_surfs(long nx, long ny) { return nx * ny + (nx + 1) * ny + (ny + 1) * nx; }
// face s of the cell at (x,y,z)
inline long face(long s, long x, long y, long z, long nx, long ny)
{
    long off = z * plane_surfs(nx, ny);
    return s == 0 ? off + nx * ny + (nx + 1) * y + x + 1                         // east
         : s == 1 ? off + nx * ny + (nx + 1) * ny + (ny + 1) * x + y + 1         // north
         : s == 2 ? off + nx * ny + (nx + 1) * y + x                             // west
         : s == 3 ? off + nx * ny + (nx + 1) * ny + (ny + 1) * x + y             // south
         : s == 4 ? off + plane_surfs(nx, ny) + nx * y + x                       // top
                  : off + nx * y + x;                                            // bottom
}
// gives an arbitrary table the row that the numbering prescribes for the cell at (x,y,z)
inline void row(const int *t, long x, long y, long z, long nx, long ny)
{
    long c = z * nx * ny + y * nx + x;
    for (int s = 0; s < 6; s++) const_cast<int *>(t)[6 * c + s] = face(s, x, y, z, nx, ny);
}
inline bool numbered(const int *t, long c, long nx, long ny)
{
    long x = vf::imod(c, nx), y = vf::idiv(vf::imod(c, nx * ny), nx), z = vf::idiv(c, nx * ny);
    return vf::all(t[6 * c] == face(0, x, y, z, nx, ny), t[6 * c + 1] == face(1, x, y, z, nx, ny), t[6 * c + 2] == face(2, x, y, z, nx, ny),
                   t[6 * c + 3] == face(3, x, y, z, nx, ny), t[6 * c + 4] == face(4, x, y, z, nx, ny), t[6 * c + 5] == face(5, x, y, z, nx, ny));
}
}
