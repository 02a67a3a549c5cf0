// C10: coordinates of points are the same point in every frame, for every configuration, pose and pixel of a grid
#include "geo.hpp"
#include "coordinates/basis_changes.hpp"
#include "utils/angle_utils.hpp"
#include "utils/distance_utils.hpp"
#include "utils/pose.hpp"
#include "utils/covariances.hpp"

using namespace geo;
using utils::compute_camera_to_world_transform;
using utils::compute_world_to_camera_transform;

namespace {

const std::vector<double> depths = {-1500, -1, 1e-6, 0.5, 1, 39.9, 40, 40.1, 500, 1234.5, 6000, 6000.1, 20000};

// one execution = one configuration, one pose; all pixels and depths
void run_points(mc::Ctx& ctx, const uint64_t idx)
{
    mc::Dec d(idx);
    const auto& c = configs()[d(configs().size())];
    const matrix33 R = rotations()[d(rotations().size())];
    const vector3 t = positions()[d(positions().size())];
    ctx.check(load_config(c), "config", "a valid configuration was refused");
    ctx.note("config fx=%g fy=%g cx=%g cy=%g rotation %s position %s", c.fx1, c.fy1, c.cx1, c.cy1, str(R).c_str(), str(t).c_str());
    const matrix44 ref = ref_c2w(R, t), refInv = rigid_inverse(ref);
    const double scale = 1 + amax(t);

    const CameraToWorldMatrix c2w = compute_camera_to_world_transform(quat(R), t);
    const WorldToCameraMatrix w2c = compute_world_to_camera_transform(quat(R), t);
    ctx.check(near(c2w, ref, 1e-9 * scale), "pose-matrix", "camera to world matrix %s instead of %s", str(c2w).c_str(), str(ref).c_str());
    ctx.check(near(w2c, refInv, 1e-9 * scale), "pose-matrix", "world to camera matrix %s instead of %s", str(w2c).c_str(), str(refInv).c_str());
    ctx.check(near(compute_camera_to_world_transform(w2c), ref, 1e-9 * scale), "pose-inverse", "inverse of the world to camera matrix is wrong");
    ctx.check(near(compute_world_to_camera_transform(c2w), refInv, 1e-9 * scale), "pose-inverse", "inverse of the camera to world matrix is wrong");
    ctx.check(near(c2w.rotation(), ref.block<3, 3>(0, 0), 1e-9) and near(c2w.translation(), ref.block<3, 1>(0, 3), 1e-9 * scale), "pose-matrix", "rotation or translation part");

    std::vector<double> us = {0, 1, 0.25, c.w1 / 2.0, c.cx1, c.cx1 + 1e-3, c.w1 - 1.0, double(c.w1), c.w1 + 25.0, 3e4, -1e-9, -1, -700};
    std::vector<double> vs = {0, 1, 0.75, c.h1 / 2.0, c.cy1, c.cy1 + 1e-3, c.h1 - 1.0, double(c.h1), c.h1 + 25.0, 3e4, -1e-9, -1, -500};
    for (const double u: us)
        for (const double v: vs)
        {
            const ScreenCoordinate2D s2(u, v);
            const vector2 cam2((u - c.cx1) / c.fx1, (v - c.cy1) / c.fy1);
            ctx.step();
            const CameraCoordinate2D got2 = s2.to_camera_coordinates();
            ctx.check(near(got2, cam2, 1e-12 * (1 + amax(cam2))), "unprojection", "pixel (%g %g): camera %s instead of %s", u, v, str(got2).c_str(), str(cam2).c_str());
            ScreenCoordinate2D back2;
            ctx.check(got2.to_screen_coordinates(back2) and near(back2, s2, 1e-9 * (1 + amax(s2))), "round-trip-2d", "pixel (%g %g) comes back as %s", u, v, str(back2).c_str());
            const bool in = u >= 0 and v >= 0 and u < c.w1 and v < c.h1, out = u < 0 or v < 0 or u > c.w1 or v > c.h1;
            if (in or out)
                ctx.check(s2.is_in_screen_boundaries() == in, "screen-boundary", "pixel (%g %g) in image: %d", u, v, int(not in));
            const matrix22 cov2 = s2.get_covariance();
            ctx.check(cov_problem<2>(cov2).empty() and min_eigen<2>(cov2) > 0, "pixel-covariance", "pixel covariance is not positive");

            for (const double z: depths)
            {
                const ScreenCoordinate s(u, v, z);
                ctx.step();
                if (in or out)
                    ctx.check(s.is_in_screen_boundaries() == (in and z > 0), "screen-boundary", "point (%g %g %g) in image: %d", u, v, z, int(not(in and z > 0)));
                ctx.check(near(s.get_2D(), s2, 0), "screen-2d", "2D part");
                const matrix33 cov = s.get_covariance();
                ctx.check(cov_problem<3>(cov).empty() and min_eigen<3>(cov) > 0, "pixel-covariance", "screen covariance is not positive at depth %g", z);
                ctx.check(is_depth_valid(z) == (z > 40 and z <= 6000), "depth-range", "depth %g: valid %d", z, int(is_depth_valid(z)));
                if (u < 0 or v < 0)
                {
                    bool threw = false;
                    try
                    {
                        std::ignore = s.to_camera_coordinates();
                    }
                    catch (const std::invalid_argument&)
                    {
                        threw = true;
                    }
                    ctx.check(threw, "negative-pixel", "pixel (%g %g) was accepted", u, v);
                    continue;
                }
                const vector3 cam(cam2.x() * z, cam2.y() * z, z);
                const CameraCoordinate got = s.to_camera_coordinates();
                const double tc = 1e-12 * (1 + amax(cam));
                ctx.check(near(got, cam, tc), "unprojection", "(%g %g %g): camera %s instead of %s", u, v, z, str(got).c_str(), str(cam).c_str());
                const vector3 world = ref.block<3, 3>(0, 0) * cam + ref.block<3, 1>(0, 3);
                const double tw = 1e-10 * (1 + amax(cam) + amax(t));
                const WorldCoordinate w1 = s.to_world_coordinates(c2w), w2 = got.to_world_coordinates(c2w);
                ctx.check(near(w1, world, tw) and near(w2, world, tw), "to-world", "(%g %g %g): world %s instead of %s", u, v, z, str(w1).c_str(), str(world).c_str());
                const CameraCoordinate cb = w1.to_camera_coordinates(w2c);
                ctx.check(near(cb, cam, 10 * tw), "to-camera", "(%g %g %g): camera %s after a round trip instead of %s", u, v, z, str(cb).c_str(), str(cam).c_str());
                // back to the screen, from the camera and from the world
                ScreenCoordinate sb;
                ScreenCoordinate2D sb2;
                const double tp = 1e-9 * (1 + amax(s2));
                ctx.check(got.to_screen_coordinates(sb) and near(sb.head<2>(), s2, tp) and nearR(sb.z(), z, 1e-12), "round-trip", "(%g %g %g) comes back as %s", u, v, z, str(sb).c_str());
                ctx.check(got.to_screen_coordinates(sb2) and near(sb2, s2, tp), "round-trip", "(%g %g %g) comes back as %s", u, v, z, str(sb2).c_str());
                if (std::abs(z) >= 0.5)
                {
                    const double tpw = tp + (c.fx1 + c.fy1) * 100 * tw * (1 + amax(cam2)) / std::abs(z);
                    ctx.check(w1.to_screen_coordinates(w2c, sb) and near(sb.head<2>(), s2, tpw) and nearS(sb.z(), z, 10 * tw), "round-trip-world", "(%g %g %g) comes back as %s", u, v, z, str(sb).c_str());
                    ctx.check(w1.to_screen_coordinates(w2c, sb2) and near(sb2, s2, tpw), "round-trip-world", "(%g %g %g) comes back as %s", u, v, z, str(sb2).c_str());
                    // distances to other pixels and points
                    const ScreenCoordinate2D o2(u + 3, v - 4);
                    ctx.check(near(w1.get_signed_distance_2D_px(o2, w2c), vector2(3, -4), 2 * tpw), "distance-px", "signed pixel distance");
                    ctx.check(nearS(w1.get_distance_px(o2, w2c), 7, 4 * tpw), "distance-px", "pixel distance");
                    const WorldCoordinate o3(world + vector3(2, -3, 5));
                    ctx.check(near(o3.get_signed_distance_mm(s, c2w), vector3(2, -3, 5), 2 * tw), "distance-mm", "signed metric distance");
                    ctx.check(nearS(o3.get_distance_mm(s, c2w), 10, 6 * tw), "distance-mm", "metric distance");
                    ctx.check(near(o3.get_signed_distance_mm(w1), vector3(2, -3, 5), 2 * tw) and nearS(o3.get_distance_mm(w1), 10, 6 * tw), "distance-mm", "distance of two world points");
                }
                ctx.state(mc::mixd(mc::mixd(mc::mixd(idx, u), v), z));
            }
        }
    // no screen position: the camera centre and its plane
    for (const vector3& p: {vector3(0, 0, 0), vector3(1, 0, 0), vector3(0, -2, 0), vector3(3, 4, 0)})
    {
        const CameraCoordinate cp(p.x(), p.y(), p.z());
        ScreenCoordinate sb;
        ScreenCoordinate2D sb2;
        ctx.check(not cp.to_screen_coordinates(sb) and not cp.to_screen_coordinates(sb2), "no-screen-position", "point %s of the plane of the camera has a screen position", str(p).c_str());
    }
    bool threw = false;
    try
    {
        std::ignore = ScreenCoordinate(1, 1, 0).to_camera_coordinates();
    }
    catch (const std::invalid_argument&)
    {
        threw = true;
    }
    ctx.check(threw, "zero-depth", "a point with no depth was accepted");
}

const std::vector<vector3>& dirs()
{
    static const std::vector<vector3> v = [] {
        std::vector<vector3> o;
        for (int x = -2; x <= 2; ++x)
            for (int y = -2; y <= 2; ++y)
                for (int z = -2; z <= 2; ++z)
                    if (x or y or z)
                        o.push_back(vector3(x, y, z));
        return o;
    }();
    return v;
}

void run_spherical(mc::Ctx& ctx, const uint64_t idx)
{
    mc::Dec d(idx);
    const vector3 v = dirs()[d(dirs().size())] * std::vector<double> {0.001, 1, 77.7, 6000}[d(4)];
    ctx.note("vector %s", str(v).c_str());
    const Spherical s = Spherical::from(Cartesian(v));
    const double n = std::sqrt(v.dot(v));
    ctx.check(nearR(s.p, n, 1e-12), "spherical", "radius %g instead of %g", s.p, n);
    ctx.check(s.theta >= 0 and s.theta <= M_PI and s.phi >= -M_PI and s.phi <= M_PI, "spherical", "angles (%g %g) out of range", s.theta, s.phi);
    const vector3 ref(n * std::sin(s.theta) * std::cos(s.phi), n * std::sin(s.theta) * std::sin(s.phi), n * std::cos(s.theta));
    ctx.check(near(ref, v, 1e-9 * n), "spherical", "(%g %g %g) does not designate %s", s.p, s.theta, s.phi, str(v).c_str());
    const vector3 back = Cartesian::from(s).vec();
    ctx.check(near(back, v, 1e-9 * n), "spherical-round-trip", "%s comes back as %s", str(v).c_str(), str(back).c_str());
    ctx.step(3);
    matrix33 js, jc;
    ctx.check(near(Cartesian::from(s, jc).vec(), back, 1e-12 * n), "spherical-jacobian", "the conversion with the derivative differs");
    for (int k = 0; k < 3; ++k)
    {
        // derivatives by differences
        vector3 p(s.p, s.theta, s.phi), a = p, b = p;
        const double h = (k == 0 ? s.p : 1.0) * 1e-6;
        a(k) += h;
        b(k) -= h;
        auto car = [](const vector3& q) { return vector3(q.x() * std::sin(q.y()) * std::cos(q.z()), q.x() * std::sin(q.y()) * std::sin(q.z()), q.x() * std::cos(q.y())); };
        const vector3 num = (car(a) - car(b)) / (2 * h);
        ctx.check(near(jc.col(k), num, 1e-6 * (1 + amax(num))), "spherical-jacobian", "column %d of the derivative to cartesian is %s instead of %s", k, str(jc.col(k)).c_str(), str(num).c_str());
    }
    if (v.x() != 0 or v.y() != 0)
    {
        const Spherical s2 = Spherical::from(Cartesian(v), js);
        ctx.check(near(s2.vec(), s.vec(), 1e-12 * (1 + n)), "spherical-jacobian", "the conversion with the derivative differs");
        // inverse of each other
        ctx.check(near(matrix33(jc * js), matrix33::Identity(), 1e-6), "spherical-jacobian", "the two derivatives are not inverse of each other");
    }
    ctx.state(hash(idx, v));
}

const std::vector<double> angles = {-3.1, -2.2, -M_PI / 2, -1.0, -0.1, 0, 1e-4, 0.7, M_PI / 2, 1.9, 2.9, M_PI};
void run_euler(mc::Ctx& ctx, const uint64_t idx)
{
    mc::Dec d(idx);
    const double yaw = angles[d(angles.size())], pitch = angles[d(angles.size())], roll = angles[d(angles.size())];
    ctx.note("yaw %g pitch %g roll %g", yaw, pitch, roll);
    const matrix33 ref = rodrigues(vector3(1, 0, 0), roll) * rodrigues(vector3(0, 1, 0), pitch) * rodrigues(vector3(0, 0, 1), yaw);
    const EulerAngles e(yaw, pitch, roll);
    const quaternion q = utils::get_quaternion_from_euler_angles(e);
    ctx.check(nearS(q.norm(), 1, 1e-12) and near(q.toRotationMatrix(), ref, 1e-9), "euler", "rotation of the angles");
    ctx.check(near(utils::get_rotation_matrix_from_euler_angles(e), ref, 1e-9), "euler", "matrix of the angles");
    const EulerAngles b = utils::get_euler_angles_from_quaternion(q);
    const matrix33 again = rodrigues(vector3(1, 0, 0), b.roll) * rodrigues(vector3(0, 1, 0), b.pitch) * rodrigues(vector3(0, 0, 1), b.yaw);
    ctx.check(near(again, ref, 1e-6), "euler-round-trip", "angles (%g %g %g) of the quaternion designate another rotation", b.yaw, b.pitch, b.roll);
    const double diff = utils::angle_distance(yaw, pitch);
    ctx.check(std::abs(diff) <= M_PI + 1e-12 and nearS(std::cos(diff), std::cos(yaw - pitch), 1e-9) and nearS(std::sin(diff), std::sin(yaw - pitch), 1e-9), "angle-distance", "angle distance %g of %g and %g", diff, yaw, pitch);
    const double diff2 = utils::angle_distance(yaw + 2 * M_PI, roll - 4 * M_PI);
    ctx.check(std::abs(diff2) <= M_PI + 1e-12 and nearS(std::cos(diff2), std::cos(yaw - roll), 1e-9) and nearS(std::sin(diff2), std::sin(yaw - roll), 1e-9), "angle-distance", "angle distance is not periodic");
    ctx.step(4);
    ctx.state(idx);
}

// change of frame given by its axes
void run_frames(mc::Ctx& ctx, const uint64_t idx)
{
    mc::Dec d(idx);
    const matrix33 a = rotations()[d(rotations().size())], b = rotations()[d(rotations().size())];
    const vector3 ca = positions()[d(3)], cb = positions()[2 + d(3)];
    const vector3 xa = a.col(0).normalized(), xb = b.col(0).normalized();
    const vector3 ya = a.col(1).normalized(), yb = b.col(1).normalized();
    ctx.step();
    matrix44 m;
    try
    {
        m = get_transformation_matrix(xa, ya, ca, xb, yb, cb);
    }
    catch (const std::invalid_argument& e)
    {
        // the norms are compared with an epsilon of one ulp
        const bool unit = std::abs(xa.norm() - 1) <= 2.3e-16 and std::abs(ya.norm() - 1) <= 2.3e-16 and std::abs(xb.norm() - 1) <= 2.3e-16 and std::abs(yb.norm() - 1) <= 2.3e-16;
        ctx.check(not unit, "frame-refused", "valid axes were refused: %s", e.what());
        ctx.outcome("norm not exactly one");
        return;
    }
    const matrix33 r = m.block<3, 3>(0, 0);
    ctx.check(near(vector3(r * xa), xb, 1e-9) and near(vector3(r * ya), yb, 1e-9) and near(vector3(r * xa.cross(ya)), xb.cross(yb), 1e-9), "frame-rotation", "axes are not sent to the axes of the other frame");
    ctx.check(near(vector3(m.block<3, 1>(0, 3)), vector3(cb - ca), 1e-9), "frame-translation", "translation");
    ctx.check(m(3, 0) == 0 and m(3, 1) == 0 and m(3, 2) == 0 and m(3, 3) == 1, "frame-matrix", "last row");
    for (int k = 0; k < 4; ++k)
    {
        vector3 v[4] = {xa, ya, xb, yb};
        for (int mode = 0; mode < 2; ++mode)
        {
            vector3 w[4] = {xa, ya, xb, yb};
            if (mode == 0)
                w[k] *= 1.5;
            else
                w[k] = (v[k] + v[k ^ 1]).normalized();
            bool threw = false;
            try
            {
                std::ignore = get_transformation_matrix(w[0], w[1], ca, w[2], w[3], cb);
            }
            catch (const std::invalid_argument&)
            {
                threw = true;
            }
            ctx.check(threw, "frame-accepted", "axes that are not an orthonormal frame were accepted");
        }
    }
    ctx.outcome("frame");
    ctx.state(idx);
}

// every sequence of motions: a pose is the sum of its translations and the product of its rotations
void run_poses(mc::Ctx& ctx, const uint64_t idx)
{
    static const std::vector<matrix33> rs = {matrix33::Identity(), rodrigues(vector3(0, 0, 1), 0.5), rodrigues(vector3(1, 2, -1), -2), cube_rotations()[7], cube_rotations()[20]};
    static const std::vector<vector3> ts = {vector3(1, 2, 3), vector3(-500, 0, 30)};
    const auto w = mc::word_upto(idx, rs.size() * ts.size());
    utils::PoseBase p;
    utils::Pose full;
    matrix33 R = matrix33::Identity();
    vector3 t = vector3::Zero();
    for (const int l: w)
    {
        const matrix33& r = rs[size_t(l) % rs.size()];
        const vector3& dt = ts[size_t(l) / rs.size()];
        ctx.note("rotate %s translate %s", str(r).c_str(), str(dt).c_str());
        ctx.step();
        const utils::PoseBase before = p;
        p.update(dt, quat(r));
        R = R * r;
        t += dt;
        ctx.check(near(p.get_orientation_matrix(), R, 1e-9) and near(p.get_position(), t, 1e-9), "pose-update", "pose after the motion");
        ctx.check(nearS(p.get_orientation_quaternion().norm(), 1, 1e-9), "pose-norm", "the orientation is no longer a unit quaternion");
        const double ang = std::acos(std::clamp((r.trace() - 1) / 2, -1.0, 1.0)) * 180 / M_PI;
        ctx.check(nearS(p.get_rotation_error(before), ang, 1e-4) and nearS(before.get_rotation_error(p), ang, 1e-4), "pose-error", "rotation error %g instead of %g degrees", p.get_rotation_error(before), ang);
        ctx.check(nearS(p.get_position_error(before), std::sqrt(dt.dot(dt)), 1e-9), "pose-error", "position error");
        const vector6 v = p.get_vector();
        const matrix33 again = rodrigues(vector3(1, 0, 0), v(3)) * rodrigues(vector3(0, 1, 0), v(4)) * rodrigues(vector3(0, 0, 1), v(5));
        ctx.check(near(v.head<3>(), t, 1e-9) and near(again, R, 1e-6), "pose-vector", "vector of the pose");
        matrix66 var = matrix66::Identity() * (l + 1);
        var(0, 1) = var(1, 0) = 0.25;
        const quaternion q = p.get_orientation_quaternion();
        full = utils::Pose(t, quaternion(2 * q.w(), 2 * q.x(), 2 * q.y(), 2 * q.z()), var);
        ctx.check(near(full.get_orientation_matrix(), R, 1e-9) and near(full.get_position(), t, 1e-9) and near(full.get_pose_variance(), var, 0) and near(full.get_position_variance(), matrix33(var.block<3, 3>(0, 0)), 0), "pose-build", "pose built from its parts");
        full.set_parameters(dt, quat(r));
        ctx.check(near(full.get_orientation_matrix(), r, 1e-9) and near(full.get_position(), dt, 1e-9), "pose-build", "pose set from its parts");
        ctx.state(hash(hash(3, R), t));
    }
}

} // namespace

int main(int argc, char** argv)
{
    std::vector<mc::Family> f;
    f.push_back({"points_of_all_poses", [](bool) { return configs().size() * rotations().size() * positions().size(); }, run_points, 20, 1});
    f.push_back({"spherical", [](bool) { return dirs().size() * 4; }, run_spherical, 5});
    f.push_back({"euler_angles", [](bool) { return mc::ipow(angles.size(), 3); }, run_euler, 5});
    f.push_back({"changes_of_frame", [](bool) { return rotations().size() * rotations().size() * 9; }, run_frames, 5});
    f.push_back({"pose_motions", [](bool t) { return mc::words_upto(10, t ? 5 : 4); }, run_poses, 5});
    return mc::main_(argc, argv, f);
}
