// Stand-in for the header generated from qi/geometry/geometry.idl.qi.
#ifndef VERIF_STUBS_QI_GEOMETRY_HPP
#define VERIF_STUBS_QI_GEOMETRY_HPP
#include <cassert>
#include <cmath>
#include <iostream>
namespace qi {
namespace geometry {
struct Vector3 {
  double x, y, z;
};
struct Quaternion {
  double x, y, z, w;
};
struct Transform {
  Quaternion rotation;
  Vector3 translation;
};
}
}
#endif
