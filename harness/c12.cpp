// C12: a point of unknown depth stays on the ray it was seen on, for every configuration, pose, pixel and depth of a grid
#include "geo.hpp"
#include "coordinates/basis_changes.hpp"
#include "coordinates/inverse_depth_coordinates.hpp"
#include "utils/line.hpp"

using namespace geo;
using utils::compute_camera_to_world_transform;
using utils::compute_world_to_camera_transform;

namespace {

std::vector<vector2> pixels(const Cfg& c)
{
    std::vector<vector2> o;
    for (const double u: {0.0, 0.25, c.cx1, c.w1 / 3.0, c.w1 - 1.0})
        for (const double v: {0.0, 0.75, c.cy1, c.h1 / 2.5, c.h1 - 1.0})
            o.emplace_back(u, v);
    return o;
}

// distance of a point to the half line (origin, direction), and position along it
void ray(const vector3& o, const vector3& d, const vector3& p, double& along, double& off)
{
    along = (p - o).dot(d);
    const vector3 r = p - o - along * d;
    off = std::sqrt(r.dot(r));
}

const std::vector<double> sigmas = {0, 1e-6, 1e-4, 2e-3, 0.05};
const std::vector<double> zs = {0.1, 1, 39, 250, 1999.5, 6000, 1e5};

vector3 bearing(const double th, const double ph) { return vector3(std::sin(th) * std::cos(ph), std::sin(th) * std::sin(ph), std::cos(th)); }

void check_estimates(mc::Ctx& ctx, const InverseDepthWorldPoint& p, const vector3& o, const vector3& d, const double scale)
{
    const double id = p.get_inverse_depth();
    for (const double s: sigmas)
    {
        ctx.step();
        const vector3 c = p.get_closest_estimation(s), f = p.get_furthest_estimation(s);
        double ac, af, offc, offf;
        ray(o, d, c, ac, offc);
        ray(o, d, f, af, offf);
        const double dc = 1.0 / std::max(id + 3 * s, 1e-9), df = 1.0 / std::max(id - 3 * s, 1e-9);
        ctx.check(offc <= 1e-7 * (scale + dc) and nearR(ac, dc, 1e-6, 1e-7 * scale), "closest", "inverse depth %g, deviation %g: closest at %g (%g off the ray) instead of %g", id, s, ac, offc, dc);
        ctx.check(offf <= 1e-7 * (scale + df) and nearR(af, df, 1e-6, 1e-7 * scale), "furthest", "inverse depth %g, deviation %g: furthest at %g (%g off the ray) instead of %g", id, s, af, offf, df);
        ctx.outcome(id - 3 * s > 1e-9 ? "bounded" : "reaches infinity");
    }
}

// one execution = one configuration, one pose: all pixels, depths, deviations
void run_ray(mc::Ctx& ctx, const uint64_t idx)
{
    mc::Dec d(idx);
    const auto& c = configs()[d(configs().size())];
    const matrix33 R = rotations()[d(rotations().size())];
    const vector3 t = positions()[d(positions().size())];
    ctx.check(load_config(c), "config", "a valid configuration was refused");
    ctx.note("config fx=%g fy=%g rotation %s position %s", c.fx1, c.fy1, str(R).c_str(), str(t).c_str());
    const matrix44 ref = ref_c2w(R, t);
    const vector3 origin = ref.block<3, 1>(0, 3);
    const CameraToWorldMatrix c2w = compute_camera_to_world_transform(quat(R), t);
    const WorldToCameraMatrix w2c = compute_world_to_camera_transform(quat(R), t);
    const double scale = 1 + amax(t);
    for (const vector2& px: pixels(c))
    {
        const vector3 cam((px.x() - c.cx1) / c.fx1, (px.y() - c.cy1) / c.fy1, 1);
        vector3 dir = ref.block<3, 3>(0, 0) * cam;
        dir /= std::sqrt(dir.dot(dir));
        const std::string who = mc::fmt("pixel (%g %g)", px.x(), px.y());

        // observation without depth
        const InverseDepthWorldPoint p(ScreenCoordinate2D(px.x(), px.y()), c2w);
        ctx.step();
        ctx.check(near(p.get_first_observation(), origin, 1e-9 * scale), "origin", "%s: seen from %s instead of %s", who.c_str(), str(p.get_first_observation()).c_str(), str(origin).c_str());
        ctx.check(near(p.get_bearing_vector(), dir, 1e-7), "bearing", "%s: direction %s instead of %s", who.c_str(), str(p.get_bearing_vector()).c_str(), str(dir).c_str());
        ctx.check(near(bearing(p.get_theta(), p.get_phi()), dir, 1e-7), "angles", "%s: angles %g %g are not those of %s", who.c_str(), p.get_theta(), p.get_phi(), str(dir).c_str());
        ctx.check(p.get_theta() >= 0 and p.get_theta() <= M_PI and p.get_phi() >= -M_PI and p.get_phi() <= M_PI, "angles", "%s: angles %g %g out of range", who.c_str(), p.get_theta(), p.get_phi());
        ctx.check(p.get_inverse_depth() > 0 and nearR(p.get_inverse_depth(), parameters::detection::inverseDepthBaseline / 2.0, 1e-12), "initial-depth", "%s: initial inverse depth %g", who.c_str(), p.get_inverse_depth());
        check_estimates(ctx, p, origin, dir, scale);
        {
            double along, off;
            ray(origin, dir, p.to_world_coordinates(), along, off);
            ctx.check(off < 1e-6 * (scale + along) and nearR(along, 1 / p.get_inverse_depth(), 1e-6), "on-ray", "%s: estimate %g off the ray at %g", who.c_str(), off, along);
            // seen again at the same pixel from the same pose: no distance
            const vector3 same = p.compute_signed_distance(ScreenCoordinate2D(px.x(), px.y()), w2c);
            ctx.check(amax(same) < 1e-4 * scale, "same-line", "%s: a line is at %s of itself", who.c_str(), str(same).c_str());
            const vector2 sd = p.compute_signed_screen_distance(ScreenCoordinate2D(px.x(), px.y()), 1e-9, w2c);
            ctx.check(amax(sd) < 1e-2, "same-pixel", "%s: %s pixels away from its own observation", who.c_str(), str(sd).c_str());
        }

        // observations with a depth
        for (const double z: zs)
        {
            ctx.step();
            const vector3 camPoint = z * cam;
            const vector3 world = ref.block<3, 3>(0, 0) * camPoint + origin;
            const double dist = std::sqrt(camPoint.dot(camPoint));
            const InverseDepthWorldPoint q(CameraCoordinate(camPoint.x(), camPoint.y(), camPoint.z()), c2w);
            ctx.check(near(q.get_first_observation(), origin, 1e-9 * scale), "origin", "%s: origin", who.c_str());
            ctx.check(nearR(q.get_inverse_depth(), 1 / dist, 1e-6 + 1e-9 * scale / dist, 0), "depth", "%s depth %g: inverse depth %.12g instead of %.12g", who.c_str(), z, q.get_inverse_depth(), 1 / dist);
            ctx.check(near(q.to_world_coordinates(), world, 1e-7 * (scale + dist)), "point", "%s depth %g: comes back as %s instead of %s", who.c_str(), z, str(q.to_world_coordinates()).c_str(), str(world).c_str());
            check_estimates(ctx, q, origin, dir, scale);
            ctx.state(hash(hash(mc::mixd(idx, z), px), world));

            // from another origin, and back
            for (const vector3& o2: {vector3(world + vector3(10, -20, 300)), vector3(world - vector3(1000, 1, 1)), vector3(world + vector3(3, 4, -5))})
            {
                Eigen::Matrix<double, 6, 3> j63;
                const InverseDepthWorldPoint r = InverseDepthWorldPoint::from_cartesian(WorldCoordinate(world), WorldCoordinate(o2), j63);
                Eigen::Matrix<double, 3, 6> j36;
                const vector3 back = r.to_world_coordinates(j36);
                const double s2 = scale + dist;
                ctx.check(near(back, world, 1e-8 * s2 + 1e-8 * 1000), "round-trip", "%s seen from %s comes back as %s", str(world).c_str(), str(o2).c_str(), str(back).c_str());
                ctx.check(near(back, r.to_world_coordinates(), 1e-9 * s2), "round-trip", "the two conversions to world differ");
                ctx.step();
            }
        }
    }
}

// jacobians against differences, on a grid of points and origins
void run_jacobian(mc::Ctx& ctx, const uint64_t idx)
{
    mc::Dec d(idx);
    const double l[6] = {-900, -40, -3, 2, 55, 1200};
    const vector3 v(l[d(6)], l[d(6)], l[d(6)]);
    const vector3 o = positions()[d(positions().size())];
    const vector3 p = o + v;
    const double r = std::sqrt(v.dot(v)), rho = std::hypot(v.x(), v.y());
    Eigen::Matrix<double, 6, 3> j63;
    const InverseDepthWorldPoint q = InverseDepthWorldPoint::from_cartesian(WorldCoordinate(p), WorldCoordinate(o), j63);
    Eigen::Matrix<double, 3, 6> j36;
    std::ignore = q.to_world_coordinates(j36);
    ctx.step(2);
    ctx.state(hash(hash(1, v), o));
    // inverse depth coordinates as functions of the point, the origin being fixed
    auto f = [&](const vector3& x) {
        const vector3 w = x - o;
        return vector3(1 / std::sqrt(w.dot(w)), std::atan2(std::hypot(w.x(), w.y()), w.z()), std::atan2(w.y(), w.x()));
    };
    for (int k = 0; k < 3; ++k)
    {
        vector3 h = vector3::Zero();
        h(k) = 1e-4 * rho;
        vector3 df = f(p + h) - f(p - h);
        while (df(2) > M_PI)
            df(2) -= 2 * M_PI;
        while (df(2) < -M_PI)
            df(2) += 2 * M_PI;
        df /= 2 * h(k);
        const double sc[3] = {1 / (r * r), 1 / r, 1 / rho};
        for (int i = 0; i < 3; ++i)
            ctx.check(nearS(j63(3 + i, k), df(i), 2e-4 * sc[i]), "jacobian-to-inverse-depth", "derivative of coordinate %d along %d at %s: %g instead of %g", i, k, str(v).c_str(), j63(3 + i, k), df(i));
        for (int i = 0; i < 3; ++i)
            ctx.check(j63(i, k) == 0, "jacobian-to-inverse-depth", "the first observation depends on the point");
    }
    auto g = [&](const Eigen::Matrix<double, 6, 1>& x) {
        return vector3(x.head<3>() + bearing(x(4), x(5)) / x(3));
    };
    Eigen::Matrix<double, 6, 1> x;
    x << o, q.get_inverse_depth(), q.get_theta(), q.get_phi();
    for (int k = 0; k < 6; ++k)
    {
        Eigen::Matrix<double, 6, 1> h = Eigen::Matrix<double, 6, 1>::Zero();
        h(k) = k < 3 ? 1e-2 : k == 3 ? 1e-4 * x(3) : 1e-4;
        const vector3 dg = (g(x + h) - g(x - h)) / (2 * h(k));
        const double sc = k < 3 ? 1 : k == 3 ? r * r : r;
        ctx.check(near(vector3(j36.col(k)), dg, 1e-5 * sc + 1e-7), "jacobian-to-world", "derivative along parameter %d at %s: %s instead of %s", k, str(v).c_str(), str(vector3(j36.col(k))).c_str(), str(dg).c_str());
    }
    // going to inverse depth and back is the identity, to the first order
    const matrix33 id = j36 * j63;
    ctx.check(near(id, matrix33(matrix33::Identity()), 1e-6), "jacobian-inverse", "the two jacobians are not inverse of each other: %s", str(id).c_str());
}

// pairs of observations from two poses
void run_pairs(mc::Ctx& ctx, const uint64_t idx)
{
    const auto& c = configs()[1];
    mc::Dec d(idx);
    ctx.check(load_config(c), "config", "a valid configuration was refused");
    const std::vector<matrix33> rs = {matrix33::Identity(), rodrigues(vector3(0, 1, 0), 0.2), rodrigues(vector3(0, 1, 0), -0.2), rodrigues(vector3(1, 1, 0), 0.1), rodrigues(vector3(0, 0, 1), 1.5)};
    const std::vector<vector3> ts = {vector3(0, 0, 0), vector3(100, 0, 0), vector3(0, -80, 30), vector3(-50, 20, -200)};
    const matrix33 R1 = rs[d(rs.size())], R2 = rs[d(rs.size())];
    const vector3 t1 = ts[d(ts.size())], t2 = ts[d(ts.size())];
    const matrix44 m1 = ref_c2w(R1, t1), m2 = ref_c2w(R2, t2), m2i = rigid_inverse(m2);
    const CameraToWorldMatrix c1 = compute_camera_to_world_transform(quat(R1), t1);
    const WorldToCameraMatrix w2 = compute_world_to_camera_transform(quat(R2), t2);
    for (const vector2& px: pixels(c))
        for (const double z: {300.0, 1500.0, 5000.0})
        {
            ctx.step();
            const vector3 cam((px.x() - c.cx1) / c.fx1 * z, (px.y() - c.cy1) / c.fy1 * z, z);
            const InverseDepthWorldPoint p(CameraCoordinate(cam.x(), cam.y(), cam.z()), c1);
            const double id = p.get_inverse_depth();
            for (const double cov: {1e-12, 1e-9, 1e-7})
            {
                ctx.step();
                const double s = std::sqrt(cov);
                vector2 ends[2];
                double ez[2];
                bool front = true;
                for (int e = 0; e < 2; ++e)
                {
                    const double dist = 1.0 / std::max(e == 0 ? id - 3 * s : id + 3 * s, 1e-9);
                    const vector3 w = m1.block<3, 3>(0, 0) * vector3(cam / std::sqrt(cam.dot(cam)) * dist) + m1.block<3, 1>(0, 3);
                    const vector3 q = m2i.block<3, 3>(0, 0) * w + m2i.block<3, 1>(0, 3);
                    front = front and q.z() > 1e-3;
                    ends[e] = vector2(q.x() / q.z() * c.fx1 + c.cx1, q.y() / q.z() * c.fy1 + c.cy1);
                    ez[e] = q.z();
                }
                utils::Segment<2> seg;
                utils::Segment<3> seg3;
                const bool got = p.to_screen_coordinates(w2, cov, seg), got3 = p.to_screen_coordinates(w2, cov, seg3);
                ctx.check(got == got3, "screen-segment", "the two projections disagree");
                if (not front)
                {
                    ctx.outcome("behind");
                    continue;
                }
                ctx.check(got, "screen-segment", "a point in front of the camera has no projection");
                const double sc = 1e-5 * (1 + std::max(amax(ends[0]), amax(ends[1])));
                ctx.check(near(seg.get_start_point(), ends[0], sc) and near(seg.get_end_point(), ends[1], sc), "screen-segment", "projected as %s - %s instead of %s - %s", str(seg.get_start_point()).c_str(), str(seg.get_end_point()).c_str(), str(ends[0]).c_str(), str(ends[1]).c_str());
                ctx.check(near(seg3.get_start_point().head<2>(), ends[0], sc) and near(seg3.get_end_point().head<2>(), ends[1], sc) and nearR(seg3.get_start_point().z(), ez[0], 1e-6) and nearR(seg3.get_end_point().z(), ez[1], 1e-6), "screen-segment", "projection with depth");
                // screen distance of pixels on and off the segment
                for (const double l: {0.0, 0.3, 1.0})
                    for (const vector2& off: {vector2(0, 0), vector2(5, 0), vector2(-3, 8)})
                    {
                        const vector2 pix = ends[0] + l * (ends[1] - ends[0]) + off;
                        if (pix.x() < 0 or pix.y() < 0)
                            continue;
                        const vector2 ab = ends[1] - ends[0];
                        // distance to the segment: to its only point when it has no length
                        const double u = ab.dot(ab) > 0 ? std::max(0.0, std::min(1.0, (pix - ends[0]).dot(ab) / ab.dot(ab))) : 0;
                        const vector2 want = pix - (ends[0] + u * ab);
                        const vector2 sd = p.compute_signed_screen_distance(ScreenCoordinate2D(pix.x(), pix.y()), cov, w2);
                        ctx.check(nearS(std::hypot(sd.x(), sd.y()), std::hypot(want.x(), want.y()), 1e-3 + 1e-6 * amax(ends[0])), "screen-distance", "pixel %s: %s away instead of %s", str(pix).c_str(), str(sd).c_str(), str(want).c_str());
                    }
                ctx.outcome("projected");
            }
            // distance between the line and the ray of a pixel of the second pose
            for (const vector2& px2: {vector2(10, 20), vector2(400, 100), vector2(318, 470)})
            {
                const vector3 cam2((px2.x() - c.cx1) / c.fx1, (px2.y() - c.cy1) / c.fy1, 1);
                const vector3 d1 = m1.block<3, 3>(0, 0) * cam, d2 = m2.block<3, 3>(0, 0) * cam2, w = vector3(m2.block<3, 1>(0, 3)) - vector3(m1.block<3, 1>(0, 3));
                const vector3 n(d1.y() * d2.z() - d1.z() * d2.y(), d1.z() * d2.x() - d1.x() * d2.z(), d1.x() * d2.y() - d1.y() * d2.x());
                const double nn = std::sqrt(n.dot(n) / (d1.dot(d1) * d2.dot(d2)));
                if (nn < 1e-4)
                    continue;
                const double want = std::abs(w.dot(n)) / std::sqrt(n.dot(n));
                const vector3 got = p.compute_signed_distance(ScreenCoordinate2D(px2.x(), px2.y()), w2);
                ctx.check(nearS(std::sqrt(got.dot(got)), want, 1e-6 * (1 + std::sqrt(w.dot(w)))), "line-distance", "lines at %g of each other instead of %g", std::sqrt(got.dot(got)), want);
                ctx.step();
            }
            ctx.state(hash(mc::mixd(idx, z), px));
        }
}

// arguments of the constructor
void run_args(mc::Ctx& ctx, const uint64_t idx)
{
    const double ids[] = {-1, -1e-9, 0, 1e-9, 0.5, 3};
    const double th[] = {-0.001, 0, 0.5, 3.1415, M_PI, 3.1417, 7};
    const double ph[] = {-4, -3.1417, -M_PI, -1, 0, 2, M_PI, 3.1417, 8};
    mc::Dec d(idx);
    const double i = ids[d(6)], t = th[d(7)], p = ph[d(9)];
    const bool ok = i >= 0 and t >= 0 and t <= M_PI and p >= -M_PI and p <= M_PI;
    bool threw = false;
    ctx.step();
    try
    {
        const InverseDepthWorldPoint q(WorldCoordinate(1, 2, 3), i, t, p);
        ctx.check(q.get_inverse_depth() == i and near(q.get_bearing_vector(), bearing(t, p), 1e-12) and near(q.get_first_observation(), vector3(1, 2, 3), 0), "constructor", "values");
    }
    catch (const std::invalid_argument&)
    {
        threw = true;
    }
    ctx.check(threw == not ok, "constructor", "inverse depth %g, angles %g %g: %s", i, t, p, threw ? "refused" : "accepted");
    ctx.outcome(threw ? "refused" : "accepted");
    ctx.state(mc::mix(7, idx));
}

} // namespace

int main(int argc, char** argv)
{
    std::vector<mc::Family> f;
    f.push_back({"rays_of_all_poses", [](bool) { return configs().size() * rotations().size() * positions().size(); }, run_ray, 20, 1});
    f.push_back({"jacobians", [](bool) { return 216 * positions().size(); }, run_jacobian, 5});
    f.push_back({"two_observations", [](bool) { return uint64_t(5 * 5 * 4 * 4); }, run_pairs, 20});
    f.push_back({"arguments", [](bool) { return uint64_t(6 * 7 * 9); }, run_args, 5});
    return mc::main_(argc, argv, f);
}
