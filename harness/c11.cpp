// C11: planes and polygons are the same object in the camera and world frames, for every direction and pose of a grid
#include "geo.hpp"
#include "coordinates/plane_coordinates.hpp"
#include "coordinates/polygon_coordinates.hpp"
#include <numeric>

using namespace geo;
using utils::Polygon;

namespace {

CameraToWorldMatrix c2w_of(const matrix33& r, const vector3& t) { return utils::compute_camera_to_world_transform(quat(r), t); }

// all primitive lattice directions of [-n, n]^3
const std::vector<vector3>& lattice(const int n)
{
    static std::map<int, std::vector<vector3>> cache;
    auto& v = cache[n];
    if (v.empty())
        for (int x = -n; x <= n; ++x)
            for (int y = -n; y <= n; ++y)
                for (int z = -n; z <= n; ++z)
                    if (std::gcd(std::gcd(std::abs(x), std::abs(y)), std::abs(z)) == 1)
                        v.push_back(vector3(x, y, z));
    return v;
}

vector3 any_orthogonal(const vector3& n)
{
    const vector3 a = std::abs(n.x()) < 0.6 ? vector3(1, 0, 0) : vector3(0, 1, 0);
    const vector3 u = a - n * n.dot(a);
    return u / std::sqrt(u.dot(u));
}

void run_planes(mc::Ctx& ctx, const uint64_t idx)
{
    mc::Dec dd(idx);
    const vector3 raw = lattice(2)[dd(lattice(2).size())];
    const matrix33 R = rotations()[dd(rotations().size())];
    const vector3 t = positions()[dd(positions().size())];
    const double scale = 1 + amax(t);
    const CameraToWorldMatrix c2w = c2w_of(R, t);
    const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(c2w);
    const matrix44 ref = ref_c2w(R, t);
    const PlaneCameraToWorldMatrix pc2w = utils::compute_plane_camera_to_world_matrix(c2w);
    const PlaneWorldToCameraMatrix pw2c = utils::compute_plane_world_to_camera_matrix(w2c);
    const vector3 n = raw / std::sqrt(raw.dot(raw));
    ctx.note("normal %s rotation %s position %s", str(raw).c_str(), str(R).c_str(), str(t).c_str());
    for (const double d: {-2500.0, -1.0, 0.0, 0.125, 700.0})
    {
        ctx.step();
        // not normalized on purpose: the normal is made unit, the distance is kept
        for (int form = 0; form < 2; ++form)
        {
            const PlaneCameraCoordinates p = form ? PlaneCameraCoordinates(raw, d) : PlaneCameraCoordinates(vector4(raw.x(), raw.y(), raw.z(), d));
            ctx.check(near(p.get_normal(), n, 1e-12) and p.get_d() == d and near(p.get_parametrization(), vector4(n.x(), n.y(), n.z(), d), 1e-12), "plane-build", "plane built from its normal and distance");
            const PlaneWorldCoordinates w = p.to_world_coordinates(pc2w);
            const vector3 refN = ref.block<3, 3>(0, 0) * n;
            ctx.check(near(w.get_normal(), refN, 1e-9), "plane-normal", "world normal %s instead of %s", str(w.get_normal()).c_str(), str(refN).c_str());
            // the points of the plane remain on it, and distances to it are kept
            const vector3 u = any_orthogonal(n), v = n.cross(u);
            for (const double a: {-800.0, 0.0, 300.0})
                for (const double b: {-50.0, 0.0, 2000.0})
                    for (const double h: {-10.0, 0.0, 35.0})
                    {
                        const vector3 pt = -d * n + a * u + b * v + h * n;
                        const vector3 wp = ref.block<3, 3>(0, 0) * pt + ref.block<3, 1>(0, 3);
                        const double tol = 1e-9 * (scale + amax(pt));
                        ctx.check(nearS(p.get_point_distance(pt), h, tol), "point-distance", "distance %g instead of %g", p.get_point_distance(pt), h);
                        ctx.check(nearS(w.get_point_distance(wp), h, 10 * tol), "plane-to-world", "a point at %g of the plane is at %g after the change of frame", h, w.get_point_distance(wp));
                    }
            ctx.check(nearS(w.get_point_distance(w.get_center()), 0, 1e-9 * scale * 4000), "plane-center", "the centre of the plane is not on it");
            const vector3 c = w.get_center();
            ctx.check(nearS(std::sqrt(c.dot(c)), std::abs(w.get_d()), 1e-9 * (scale + std::abs(w.get_d()))), "plane-center", "the centre is not the point closest to the origin");
            const PlaneCameraCoordinates back = w.to_camera_coordinates(pw2c);
            ctx.check(near(back.get_normal(), n, 1e-9) and nearS(back.get_d(), d, 1e-8 * scale), "plane-round-trip", "plane (%s, %g) comes back as (%s, %g)", str(n).c_str(), d, str(back.get_normal()).c_str(), back.get_d());
            // distances between planes
            for (const double dd2: {0.0, 40.0})
            {
                const vector3 n2 = dd2 == 0 ? n : vector3(rodrigues(any_orthogonal(n), 0.3) * n);
                const PlaneCameraCoordinates o(n2, d + dd2);
                const vector4 sd = w.get_signed_distance(o, pw2c);
                ctx.check(near(sd.head<3>(), vector3(n2 - n), 1e-7) and nearS(sd(3), dd2, 1e-7 * scale), "plane-distance", "distance %s of two planes", str(sd).c_str());
                const vector3 rd = w.get_reduced_signed_distance(o, pw2c);
                ctx.check(near(rd, vector3(n2 * (d + dd2) - n * d), 1e-7 * (scale + std::abs(d))), "plane-distance", "reduced distance %s of two planes", str(rd).c_str());
                ctx.check(nearS(p.get_cos_angle(o), n.dot(n2), 1e-9), "plane-angle", "cosine of two planes");
            }
        }
        ctx.state(mc::mixd(idx, d));
    }
}

// a non symmetric outline: any mirrored or rotated copy differs
const std::vector<vector2>& outline(const int k)
{
    static const std::vector<std::vector<vector2>> o = {
            {vector2(-400, -300), vector2(500, -300), vector2(500, 350), vector2(100, 600), vector2(-400, 200)},
            {vector2(0, 0), vector2(1000, 0), vector2(0, 500)},
            {vector2(-600, 100), vector2(-600, -700), vector2(900, -700), vector2(900, 800), vector2(650, 800), vector2(650, 100)}};
    return o[size_t(k)];
}
double shoelace(const std::vector<vector2>& v)
{
    double a = 0;
    for (size_t i = 0; i < v.size(); ++i)
        a += v[i].x() * v[(i + 1) % v.size()].y() - v[(i + 1) % v.size()].x() * v[i].y();
    return std::abs(a) / 2;
}
// same cyclic sequence of points, in either direction
bool same_ring(std::vector<vector3> a, std::vector<vector3> b, const double tol)
{
    auto open = [&](std::vector<vector3>& v) {
        while (v.size() > 1 and near(v.front(), v.back(), tol))
            v.pop_back();
    };
    open(a);
    open(b);
    if (a.size() != b.size() or a.empty())
        return false;
    const size_t n = a.size();
    for (size_t s = 0; s < n; ++s)
        for (const int dir: {1, -1})
        {
            bool ok = true;
            for (size_t i = 0; i < n and ok; ++i)
                ok = near(a[i], b[(s + n + size_t(dir * int(i) + int(n))) % n], tol);
            if (ok)
                return true;
        }
    return false;
}

// directions: the lattice, then a grid of the sphere, whose normals have rounding errors of all kinds
uint64_t direction_count(const bool thorough) { return lattice(10).size() + uint64_t(thorough ? 1200 * 600 : 360 * 180) * 2; }
void run_directions(mc::Ctx& ctx, const uint64_t idx)
{
    vector3 raw;
    if (idx < lattice(10).size())
        raw = lattice(10)[idx];
    else
    {
        const uint64_t k = idx - lattice(10).size(), M = ctx.thorough ? 600 : 180;
        const double th = (double(k % M) + 0.5) / double(M) * M_PI, ph = double(k / M) / double(4 * M) * 2 * M_PI;
        raw = vector3(std::sin(th) * std::cos(ph), std::sin(th) * std::sin(ph), std::cos(th)) * (1.1 + double(k % 7));
    }
    for (const vector3& n: {vector3(raw.normalized())})
    {
        ctx.note("normal %s", str(n).c_str());
        ctx.step();
        const vector3 center = -350 * n + vector3(20, -30, 40);
        // the frame of the plane
        const vector3 u = any_orthogonal(n), v = n.cross(u);
        std::vector<vector3> pts;
        for (const vector2& p: {vector2(-500, -500), vector2(500, -500), vector2(500, 500), vector2(-500, 500)})
            pts.push_back(center + p.x() * u + p.y() * v);
        const Polygon poly(pts, n, center);
        ctx.check(poly.is_valid(), "polygon-invalid", "the polygon of a square is not valid");
        ctx.check(near(poly.get_normal(), n, 1e-9), "polygon-normal", "normal %s instead of %s", str(poly.get_normal()).c_str(), str(n).c_str());
        ctx.check(nearS(poly.get_x_axis().dot(poly.get_y_axis()), 0, 1e-9) and nearS(poly.get_x_axis().norm(), 1, 1e-9) and nearS(poly.get_y_axis().norm(), 1, 1e-9), "polygon-axes", "axes are not orthonormal");
        ctx.check(near(poly.get_center(), center, 1e-9), "polygon-center", "centre");
        ctx.check(poly.boundary_length() == 4 and nearR(poly.get_area(), 1e6, 1e-9) and nearR(poly.area(), 1e6, 1e-9), "polygon-area", "area %g", poly.get_area());
        ctx.check(same_ring(poly.get_unprojected_boundary(), pts, 1e-6), "polygon-boundary", "the boundary is not the square");
        // to the world and back
        const matrix33 R = rotations()[idx % rotations().size()];
        const vector3 t = positions()[(idx / 7) % positions().size()];
        const CameraToWorldMatrix c2w = c2w_of(R, t);
        const WorldPolygon w = CameraPolygon(poly).to_world_space(c2w);
        std::vector<vector3> wpts;
        const matrix44 ref = ref_c2w(R, t);
        for (const vector3& p: pts)
            wpts.push_back(ref.block<3, 3>(0, 0) * p + ref.block<3, 1>(0, 3));
        const double tol = 1e-6;
        ctx.check(same_ring(w.get_unprojected_boundary(), wpts, tol), "polygon-to-world", "the boundary moved");
        ctx.check(nearR(w.get_area(), 1e6, 1e-9), "polygon-to-world", "area %g in the world", w.get_area());
        const CameraPolygon c = w.to_camera_space(utils::compute_world_to_camera_transform(c2w));
        ctx.check(same_ring(c.get_unprojected_boundary(), pts, tol) and nearR(c.get_area(), 1e6, 1e-9), "polygon-to-camera", "the boundary moved");
        // and projected on a tilted plane, as tracking does
        const vector3 n2 = (rodrigues(u, 0.1) * n).normalized();
        const Polygon pr = poly.project(n2, center);
        ctx.check(near(pr.get_normal(), n2, 1e-9) and nearR(pr.get_area(), 1e6 * std::cos(0.1), 1e-9), "polygon-project", "area %g after a projection at 0.1 rad", pr.get_area());
        ctx.state(hash(idx, n));
    }
}

void run_polygons(mc::Ctx& ctx, const uint64_t idx)
{
    mc::Dec dd(idx);
    const auto& o = outline(int(dd(3)));
    const vector3 n = lattice(2)[dd(lattice(2).size())].normalized();
    const matrix33 R = rotations()[dd(rotations().size())];
    const vector3 t = positions()[dd(positions().size())];
    ctx.note("normal %s rotation %s position %s", str(n).c_str(), str(R).c_str(), str(t).c_str());
    const vector3 center = -900 * n + vector3(3, 50, -7);
    const vector3 u = any_orthogonal(n), v = n.cross(u);
    std::vector<Polygon::point_2d> ring;
    std::vector<vector3> pts;
    for (const vector2& p: o)
    {
        ring.push_back(Polygon::point_2d(p.x(), p.y()));
        pts.push_back(center + p.x() * u + p.y() * v);
    }
    const double area = shoelace(o);
    const Polygon poly(ring, u, v, center);
    const double tol = 1e-6;
    ctx.check(poly.is_valid() and nearR(poly.get_area(), area, 1e-9) and poly.boundary_length() == o.size(), "polygon-build", "polygon of %zu points has area %g instead of %g", o.size(), poly.get_area(), area);
    ctx.check(same_ring(poly.get_unprojected_boundary(), pts, tol), "polygon-build", "boundary");
    ctx.step();
    const matrix44 ref = ref_c2w(R, t);
    const CameraToWorldMatrix c2w = c2w_of(R, t);
    const WorldPolygon w = CameraPolygon(poly).to_world_space(c2w);
    std::vector<vector3> wpts;
    for (const vector3& p: pts)
        wpts.push_back(ref.block<3, 3>(0, 0) * p + ref.block<3, 1>(0, 3));
    ctx.check(same_ring(w.get_unprojected_boundary(), wpts, tol), "polygon-to-world", "the boundary moved");
    ctx.check(nearR(w.get_area(), area, 1e-9) and w.is_valid(), "polygon-to-world", "area %g in the world instead of %g", w.get_area(), area);
    ctx.check(near(w.get_normal(), vector3(ref.block<3, 3>(0, 0) * n), 1e-9) and near(w.get_center(), vector3(ref.block<3, 3>(0, 0) * center + ref.block<3, 1>(0, 3)), tol), "polygon-to-world", "normal or centre");
    const CameraPolygon c = w.to_camera_space(utils::compute_world_to_camera_transform(c2w));
    ctx.check(same_ring(c.get_unprojected_boundary(), pts, tol) and nearR(c.get_area(), area, 1e-9), "polygon-to-camera", "the boundary moved");
    ctx.check(near(c.get_normal(), n, 1e-9) and near(c.get_center(), center, tol), "polygon-to-camera", "normal or centre");
    // orthogonal projection on another plane
    const vector3 n2 = (R * n).normalized(), c2 = center + t * 0.01;
    const Polygon pr = poly.project(n2, c2);
    std::vector<vector3> ppts;
    for (const vector3& p: pts)
        ppts.push_back(p - n2 * n2.dot(p - c2));
    ctx.check(near(pr.get_normal(), n2, 1e-9) and near(pr.get_center(), c2, 1e-9), "polygon-project", "normal or centre of the projection");
    ctx.check(nearS(pr.get_area(), area * std::abs(n.dot(n2)), 1e-6 * area), "polygon-project", "area %g of the projection instead of %g", pr.get_area(), area * std::abs(n.dot(n2)));
    if (std::abs(n.dot(n2)) > 0.01)
        ctx.check(same_ring(pr.get_unprojected_boundary(), ppts, 1e-5), "polygon-project", "boundary of the projection");
    // moved to another plane: same shape
    const Polygon tr = poly.transform(n2, c2);
    ctx.check(near(tr.get_normal(), n2, 1e-9) and near(tr.get_center(), c2, 1e-9) and nearR(tr.get_area(), area, 1e-9) and tr.boundary_length() == o.size(), "polygon-transform", "area %g instead of %g", tr.get_area(), area);
    {
        std::vector<vector3> b = tr.get_unprojected_boundary(), a = poly.get_unprojected_boundary();
        auto dists = [](const std::vector<vector3>& q) {
            std::vector<double> s;
            for (size_t i = 0; i + 1 < q.size(); ++i)
                for (size_t j = i + 1; j + 1 < q.size(); ++j)
                    s.push_back((q[i] - q[j]).norm());
            std::sort(s.begin(), s.end());
            return s;
        };
        const auto x = dists(a), y = dists(b);
        ctx.check(x.size() == y.size(), "polygon-transform", "points");
        for (size_t i = 0; i < x.size(); ++i)
            ctx.check(nearR(x[i], y[i], 1e-9, 1e-5), "polygon-transform", "the shape is not kept");
    }
    ctx.state(idx);
}

// what the camera sees of a polygon that faces it
void run_screen(mc::Ctx& ctx, const uint64_t idx)
{
    mc::Dec dd(idx);
    const auto& cfg = configs()[dd(configs().size())];
    const double z = std::vector<double> {300, 1500, 5000, -300, -1500, -5000}[dd(6)];
    const double tilt = std::vector<double> {0, 0.3}[dd(2)];
    ctx.check(load_config(cfg), "config", "a valid configuration was refused");
    // a triangle of 60 by 40 pixels (when not tilted), at every position of a grid around the image
    for (int i = -3; i <= 12; ++i)
        for (int j = -3; j <= 12; ++j)
        {
            const double u0 = i * cfg.w1 / 10.0 + 0.37, v0 = j * cfg.h1 / 10.0 + 0.41;
            const vector3 n = (rodrigues(vector3(0, 1, 0), tilt) * vector3(0, 0, -1)).normalized();
            const vector3 center((u0 - cfg.cx1) / cfg.fx1 * z, (v0 - cfg.cy1) / cfg.fy1 * z, z);
            const vector3 x(std::cos(tilt), 0, -std::sin(tilt)), y(0, 1, 0);
            const vector3 xa = vector3(rodrigues(vector3(0, 1, 0), tilt) * vector3(1, 0, 0)).normalized();
            const vector3 ya(0, 1, 0);
            std::vector<Polygon::point_2d> ring;
            std::vector<vector2> scr;
            std::vector<vector3> pts;
            for (const vector2& p: {vector2(0, 0), vector2(60 * z / cfg.fx1, 0), vector2(0, 40 * z / cfg.fy1)})
            {
                ring.push_back(Polygon::point_2d(p.x(), p.y()));
                const vector3 q = center + p.x() * xa + p.y() * ya;
                pts.push_back(q);
                scr.push_back(vector2(q.x() / q.z() * cfg.fx1 + cfg.cx1, q.y() / q.z() * cfg.fy1 + cfg.cy1));
            }
            const CameraPolygon poly(ring, xa, ya, center);
            ctx.step();
            const auto sp = poly.get_screen_points();
            std::vector<vector3> got, want;
            for (const auto& s: sp)
                got.push_back(s);
            for (size_t k = 0; k < scr.size(); ++k)
                want.push_back(vector3(scr[k].x(), scr[k].y(), pts[k].z()));
            ctx.check(same_ring(got, want, 1e-6), "screen-points", "screen boundary of the polygon");
            // visible: the triangle meets the inside of the image, with a margin of two pixels left undecided
            auto area_in = [&](double m) {
                std::vector<vector2> poly2 = scr;
                const double lo[2] = {m, m}, hi[2] = {cfg.w1 - m, cfg.h1 - m};
                for (int axis = 0; axis < 2; ++axis)
                    for (int side = 0; side < 2; ++side)
                    {
                        std::vector<vector2> out;
                        const double b = side ? hi[axis] : lo[axis];
                        auto inside = [&](const vector2& p) { return side ? p(axis) <= b : p(axis) >= b; };
                        for (size_t k = 0; k < poly2.size(); ++k)
                        {
                            const vector2 a = poly2[k], c = poly2[(k + 1) % poly2.size()];
                            if (inside(a))
                                out.push_back(a);
                            if (inside(a) != inside(c))
                                out.push_back(a + (c - a) * ((b - a(axis)) / (c(axis) - a(axis))));
                        }
                        poly2 = out;
                    }
                return poly2.size() < 3 ? 0.0 : shoelace(poly2);
            };
            const bool surely = z > 0 and area_in(3) > 1e-3, possibly = z > 0 and area_in(-1) > 0;
            const bool vis = poly.is_visible_in_screen_space();
            ctx.check(not surely or vis, "polygon-visible", "a polygon inside the image is not visible (pixel %g %g)", u0, v0);
            ctx.check(possibly or not vis, "polygon-visible", "a polygon outside of the image is visible (pixel %g %g)", u0, v0);
            ctx.outcome(surely ? "visible" : possibly ? "margin" : "outside");
            ctx.state(mc::mixd(mc::mixd(idx, u0), v0));
        }
}

} // namespace

int main(int argc, char** argv)
{
    std::vector<mc::Family> f;
    f.push_back({"planes_of_all_poses", [](bool) { return lattice(2).size() * rotations().size() * positions().size(); }, run_planes, 5});
    f.push_back({"directions", direction_count, run_directions, 5});
    f.push_back({"polygons_of_all_poses", [](bool) { return 3 * lattice(2).size() * rotations().size() * positions().size(); }, run_polygons, 5});
    f.push_back({"polygons_on_screen", [](bool) { return configs().size() * 12; }, run_screen, 20, 1});
    return mc::main_(argc, argv, f);
}
