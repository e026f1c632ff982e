// Stand-in for the external vector header that LineSegmentIntersect.cpp needs and this repository does not carry.
#ifndef VPT_VECTOR3
#define VPT_VECTOR3
#include <cmath>
struct Vector3 {
    static void cross(const double a[3], const double b[3], double o[3]) { o[0] = a[1] * b[2] - a[2] * b[1]; o[1] = a[2] * b[0] - a[0] * b[2]; o[2] = a[0] * b[1] - a[1] * b[0]; }
    static double dot(const double a[3], const double b[3]) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
    static void diff(const double a[3], const double b[3], double o[3]) { for (int i = 0; i < 3; ++i) o[i] = a[i] - b[i]; }
    static double vmag(const double v[3]) { return std::sqrt(dot(v, v)); }
    static void scale(double s, double v[3]) { for (int i = 0; i < 3; ++i) v[i] *= s; }
};
#endif
