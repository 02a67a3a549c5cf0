// Finite grids of rotations, poses and camera configurations, and small exact references, shared by the geometric checks.
#ifndef VERIF_GEO_HPP
#define VERIF_GEO_HPP

#include "mc.hpp"
#include "types.hpp"
#include "parameters.hpp"
#include "coordinates/point_coordinates.hpp"
#include "utils/camera_transformation.hpp"
#include <fstream>

namespace geo {
using namespace rgbd_slam;

// the 24 rotations of the cube, as signed permutation matrices
inline const std::vector<matrix33>& cube_rotations()
{
    static const std::vector<matrix33> r = [] {
        std::vector<matrix33> out;
        int p[3] = {0, 1, 2};
        do
        {
            for (int s = 0; s < 8; ++s)
            {
                matrix33 m = matrix33::Zero();
                for (int i = 0; i < 3; ++i)
                    m(i, p[i]) = (s >> i & 1) ? -1 : 1;
                if (m.determinant() > 0)
                    out.push_back(m);
            }
        } while (std::next_permutation(p, p + 3));
        return out;
    }();
    return r;
}

inline matrix33 rodrigues(const vector3& axis, const double a)
{
    const vector3 u = axis / std::sqrt(axis.dot(axis));
    matrix33 k;
    k << 0, -u.z(), u.y(), u.z(), 0, -u.x(), -u.y(), u.x(), 0;
    return matrix33::Identity() + std::sin(a) * k + (1 - std::cos(a)) * k * k;
}

// the cube rotations, then rotations around every lattice direction by every angle
inline const std::vector<matrix33>& rotations()
{
    static const std::vector<matrix33> r = [] {
        std::vector<matrix33> out = cube_rotations();
        for (const vector3& axis: {vector3(1, 0, 0), vector3(0, 1, 0), vector3(0, 0, 1), vector3(1, 1, 0), vector3(1, -1, 1), vector3(-1, 2, 3)})
            for (const double a: {-2.5, -0.9, -0.2, 0.001, 0.4, 1.2, 3.0})
                out.push_back(rodrigues(axis, a));
        return out;
    }();
    return r;
}
inline quaternion quat(const matrix33& m) { return quaternion(m); }

inline const std::vector<vector3>& positions()
{
    static const std::vector<vector3> p = {vector3(0, 0, 0),          vector3(100, 0, 0),     vector3(0, -250, 0),
                                           vector3(0, 0, 333),        vector3(-1000, 500, 20), vector3(1500, -2000, 700),
                                           vector3(12345, 6789, -42), vector3(-0.5, -0.25, -1)};
    return p;
}

// from the axes of a camera (x right, y down, z forward) to those of the world (x forward, y left, z up)
inline matrix33 axes()
{
    matrix33 m;
    m << 0, 0, 1, -1, 0, 0, 0, -1, 0;
    return m;
}

struct Cfg
{
    int w1, h1;
    double fx1, fy1, cx1, cy1;
    int w2, h2;
    double fx2, fy2, cx2, cy2;
    double t[3], r[3];
};
inline const std::vector<Cfg>& configs()
{
    static const std::vector<Cfg> c = {
            {640, 480, 550, 550, 320, 240, 640, 480, 550, 550, 320, 240, {0, 0, 0}, {0, 0, 0}},
            {640, 480, 517.3, 516.5, 318.6, 255.3, 640, 480, 591.1, 590.1, 331, 234, {0, 0, 0}, {0, 0, 0}},
            {1280, 720, 900, 850, 600, 400, 640, 480, 500, 510, 300, 250, {25, -3, 1}, {0.01, -0.02, 0.03}},
            {320, 240, 200, 300, 100, 150, 640, 480, 700, 600, 350, 200, {-50, 10, 5}, {0.5, 0.25, -0.125}},
            {300, 200, 250, 251, 0, 0, 160, 120, 120, 130, 80, 60, {1, 2, 3}, {0, 0, 0}},
    };
    return c;
}
inline std::string yaml_of(const Cfg& c)
{
    return mc::fmt("%%YAML:1.0\n"
                   "camera_1_size_x: %d\ncamera_1_size_y: %d\ncamera_1_focal_x: %.17g\ncamera_1_focal_y: %.17g\n"
                   "camera_1_center_x: %.17g\ncamera_1_center_y: %.17g\n"
                   "camera_2_size_x: %d\ncamera_2_size_y: %d\ncamera_2_focal_x: %.17g\ncamera_2_focal_y: %.17g\n"
                   "camera_2_center_x: %.17g\ncamera_2_center_y: %.17g\n"
                   "camera_2_translation_offset_x: %.17g\ncamera_2_translation_offset_y: %.17g\ncamera_2_translation_offset_z: %.17g\n"
                   "camera_2_rotation_offset_x: %.17g\ncamera_2_rotation_offset_y: %.17g\ncamera_2_rotation_offset_z: %.17g\n",
                   c.w1, c.h1, c.fx1, c.fy1, c.cx1, c.cy1, c.w2, c.h2, c.fx2, c.fy2, c.cx2, c.cy2, c.t[0], c.t[1], c.t[2], c.r[0], c.r[1], c.r[2]);
}
inline bool load_config(const Cfg& c)
{
    const std::string f = mc::fmt("./config-%d.yaml", int(getpid()));
    {
        std::ofstream o(f);
        o << yaml_of(c);
    }
    const bool ok = Parameters::parse_file(f);
    unlink(f.c_str());
    return ok;
}

// reference for the pose convention of the system
inline matrix44 ref_c2w(const matrix33& r, const vector3& t)
{
    matrix44 m = matrix44::Identity();
    m.block<3, 3>(0, 0) = axes() * r;
    m.block<3, 1>(0, 3) = axes() * t;
    return m;
}
inline matrix44 rigid_inverse(const matrix44& m)
{
    matrix44 o = matrix44::Identity();
    const matrix33 rt = m.block<3, 3>(0, 0).transpose();
    o.block<3, 3>(0, 0) = rt;
    o.block<3, 1>(0, 3) = -rt * m.block<3, 1>(0, 3);
    return o;
}

template<class A, class B> bool near(const A& a, const B& b, const double tol)
{
    for (int i = 0; i < int(a.rows()); ++i)
        for (int j = 0; j < int(a.cols()); ++j)
            if (not(std::abs(a(i, j) - b(i, j)) <= tol))
                return false;
    return true;
}
template<class A> double amax(const A& a) { return a.cwiseAbs().maxCoeff(); }
inline bool nearS(const double a, const double b, const double tol) { return std::abs(a - b) <= tol; }
// relative + absolute
inline bool nearR(const double a, const double b, const double rel, const double abs = 1e-9)
{
    return std::abs(a - b) <= abs + rel * std::max(std::abs(a), std::abs(b));
}

template<class M> std::string str(const M& m)
{
    std::string s = "[";
    for (int i = 0; i < int(m.rows()); ++i)
        for (int j = 0; j < int(m.cols()); ++j)
            s += mc::fmt("%s%.9g", i + j ? " " : "", double(m(i, j)));
    return s + "]";
}
template<class M> uint64_t hash(uint64_t h, const M& m)
{
    for (int i = 0; i < int(m.rows()); ++i)
        for (int j = 0; j < int(m.cols()); ++j)
            h = mc::mixd(h, double(m(i, j)));
    return h;
}

// independent check of a covariance matrix: finite, symmetric, smallest eigenvalue not negative (Jacobi rotations)
template<int N> double min_eigen(Eigen::Matrix<double, N, N> a)
{
    for (int sweep = 0; sweep < 60; ++sweep)
    {
        double off = 0;
        for (int p = 0; p < N; ++p)
            for (int q = p + 1; q < N; ++q)
                off += a(p, q) * a(p, q);
        if (off < 1e-300)
            break;
        for (int p = 0; p < N; ++p)
            for (int q = p + 1; q < N; ++q)
            {
                if (a(p, q) == 0)
                    continue;
                const double th = (a(q, q) - a(p, p)) / (2 * a(p, q));
                const double t = (th >= 0 ? 1 : -1) / (std::abs(th) + std::sqrt(th * th + 1));
                const double c = 1 / std::sqrt(t * t + 1), s = t * c;
                for (int k = 0; k < N; ++k)
                {
                    const double x = a(k, p), y = a(k, q);
                    a(k, p) = c * x - s * y;
                    a(k, q) = s * x + c * y;
                }
                for (int k = 0; k < N; ++k)
                {
                    const double x = a(p, k), y = a(q, k);
                    a(p, k) = c * x - s * y;
                    a(q, k) = s * x + c * y;
                }
            }
    }
    double m = a(0, 0);
    for (int i = 1; i < N; ++i)
        m = std::min(m, a(i, i));
    return m;
}
template<int N> std::string cov_problem(const Eigen::Matrix<double, N, N>& c)
{
    for (int i = 0; i < N; ++i)
        for (int j = 0; j < N; ++j)
            if (not std::isfinite(c(i, j)))
                return "not finite";
    const double s = amax(c);
    for (int i = 0; i < N; ++i)
        for (int j = 0; j < N; ++j)
            if (std::abs(c(i, j) - c(j, i)) > 1e-9 * s)
                return "not symmetric";
    if (min_eigen<N>(c) < -1e-9 * s)
        return "negative eigenvalue";
    return "";
}

} // namespace geo
#endif
