// C08: tracked landmarks (points, inverse depth points, planes) are the optimal fusion of all their observations, and a
// refused observation leaves no trace, on every bounded sequence of observations
#include "refkalman.hpp"
#include "features/primitives/shape_primitives.hpp"
#include "tracking/inverse_depth_with_tracking.hpp"
#include "tracking/plane_with_tracking.hpp"
#include "tracking/point_with_tracking.hpp"
#include "utils/covariances.hpp"

using namespace geo;
using namespace refkalman;
using utils::compute_camera_to_world_transform;
using utils::compute_world_to_camera_transform;

namespace {

matrix33 spd(const matrix33& r, const double a, const double b, const double c)
{
    const matrix33 m = r * vector3(a, b, c).asDiagonal() * r.transpose();
    return 0.5 * (m + m.transpose());
}
cv::Mat descriptor(const int value)
{
    return cv::Mat(1, 32, CV_8U, cv::Scalar(value));
}
int value_of(const cv::Mat& d) { return d.empty() ? -1 : int(d.at<uchar>(0, 0)); }
// fusion of one observation: identity dynamics and observation, isotropic process noise
template<int N> void fuse(const Eigen::Vector<double, N>& x, const Eigen::Matrix<double, N, N>& P, const Eigen::Vector<double, N>& z, const Eigen::Matrix<double, N, N>& R, const double noise, Eigen::Vector<double, N>& xo, Eigen::Matrix<double, N, N>& Po)
{
    const Eigen::Matrix<double, N, N> I = Eigen::Matrix<double, N, N>::Identity();
    Ref r {from(I), from(I), from(Eigen::Matrix<double, N, N>(noise * I)), from(x), from(P)};
    if (not r.step(from(z), from(R)))
        throw mc::Violation {"reference", "the reference filter failed"};
    for (int i = 0; i < N; ++i)
    {
        xo(i) = double(r.x[i][0]);
        for (int j = 0; j < N; ++j)
            Po(i, j) = double(r.P[i][j]);
    }
}
// 1: yes, 0: no, -1: too close to say
int moved(const vector3& a, const vector3& b, const matrix33& cov)
{
    int res = 0;
    for (int i = 0; i < 3; ++i)
    {
        const double d = std::abs(a(i) - b(i)), s = std::sqrt(cov(i, i));
        if (std::abs(d - s) <= 1e-9 * (d + s + 1))
            return -1;
        if (d > s)
            res = 1;
    }
    return res;
}

/** ---- points ---- **/
constexpr int pointLetters = 18;
struct Obs3
{
    vector3 offset;
    matrix33 cov;
    bool valid;
};
Obs3 point_letter(const int l)
{
    // displacement of the observation with regard to the first position
    static const vector3 off[] = {vector3(0, 0, 0), vector3(0.4, -0.3, 0.2), vector3(30, 0, 0), vector3(0, -30, 0), vector3(-2, 5, 80)};
    static const matrix33 covs[] = {matrix33::Identity(), spd(rodrigues(vector3(1, 2, -3), 0.7), 0.01, 4, 250), spd(rodrigues(vector3(0, 1, 1), 2.1), 1e4, 1e4, 9e5)};
    if (l < 15)
        return {off[l % 5], covs[l / 5], true};
    if (l == 17)
        return {vector3(2500, -1800, 900), covs[0], true}; // far away
    matrix33 bad = matrix33::Identity();
    if (l == 15)
        bad(1, 1) = -2;
    else
        bad(0, 2) = bad(2, 0) = NAN;
    return {off[1], bad, false};
}
void run_points(mc::Ctx& ctx, const uint64_t idx)
{
    mc::Dec d(idx);
    const int start = int(d(4));
    const auto word = mc::word_upto(d.v, pointLetters);
    const vector3 base = std::vector<vector3> {vector3(10, -20, 30), vector3(0, 0, 0), vector3(4000, 1200, -300), vector3(-7, 1, 0)}[start];
    WorldCoordinateCovariance c0;
    c0 << std::vector<matrix33> {matrix33::Identity(), spd(rodrigues(vector3(1, 1, 0), 1.1), 1e-3, 5, 100), spd(rodrigues(vector3(3, -1, 0.5), 0.3), 1e5, 2e5, 4e6), matrix33(25 * matrix33::Identity())}[start];
    for (int k = 0; k < 3; ++k)
    {
        bool threw = false;
        try
        {
            WorldCoordinateCovariance bad = c0;
            bad(0, 0) = k == 0 ? -1.0 : bad(0, 0);
            tracking::Point p(k == 1 ? WorldCoordinate(NAN, 0, 0) : WorldCoordinate(base), bad, k == 2 ? cv::Mat() : descriptor(3));
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        ctx.check(threw, "point-constructor", "a point was created from invalid values (%d)", k);
    }
    // two points, to see that they do not influence each other; the second one receives the observations in reverse order
    tracking::Point pts[2] = {tracking::Point(WorldCoordinate(base), c0, descriptor(1)), tracking::Point(WorldCoordinate(vector3(base + vector3(0.5, 0.5, 0.5))), c0, descriptor(2))};
    vector3 x[2] = {pts[0]._coordinates, pts[1]._coordinates};
    matrix33 P[2] = {c0, c0};
    int moving[2] = {0, 0};
    for (size_t i = 0; i < word.size(); ++i)
        for (int k = 0; k < 2; ++k)
        {
            ctx.step();
            const Obs3 o = point_letter(k ? word[word.size() - 1 - i] : word[i]);
            const vector3 z = base + o.offset;
            const double score = pts[k].track(WorldCoordinate(z), o.cov);
            ctx.note("point %d: observation %s covariance %s: %g", k, str(z).c_str(), str(o.cov).c_str(), score);
            if (not o.valid)
            {
                ctx.check(score < 0, "point-refused", "an observation with an invalid covariance was accepted (%g)", score);
            }
            else
            {
                vector3 nx;
                matrix33 nP;
                fuse<3>(x[k], P[k], z, o.cov, 0.001, nx, nP);
                const double want = (nx - x[k]).norm();
                ctx.check(nearR(score, want, 1e-6, 1e-6), "point-score", "the update moved the point by %g, %g was returned", want, score);
                moving[k] = moved(x[k], z, o.cov);
                x[k] = nx;
                P[k] = nP;
            }
            for (int j = 0; j < 2; ++j)
            {
                ctx.check(near(pts[j]._coordinates, x[j], 1e-6 * (1 + amax(x[j]))), "point-position", "point %d is at %s, the fusion of its observations is %s", j, str(pts[j]._coordinates).c_str(), str(x[j]).c_str());
                ctx.check(near(pts[j]._covariance, P[j], 1e-6 * amax(P[j])), "point-covariance", "point %d has covariance %s, the fusion has %s", j, str(pts[j]._covariance).c_str(), str(P[j]).c_str());
                ctx.check(cov_problem<3>(pts[j]._covariance).empty(), "point-covariance-valid", "point %d: %s", j, cov_problem<3>(pts[j]._covariance).c_str());
                ctx.check(moving[j] < 0 or pts[j].is_moving() == (moving[j] == 1), "point-moving", "point %d: moving is %d, the last observation says %d", j, int(pts[j].is_moving()), moving[j]);
                ctx.check(value_of(pts[j]._descriptor) == j + 1, "point-descriptor", "descriptor changed");
                x[j] = pts[j]._coordinates; // no drift between the reference and the code
                P[j] = pts[j]._covariance;
            }
            // copies are the same landmark
            const tracking::Point copy(pts[k]);
            ctx.check(near(copy._coordinates, x[k], 0) and near(copy._covariance, P[k], 0) and copy.is_moving() == pts[k].is_moving(), "point-copy", "a copy differs");
            ctx.state(hash(hash(start, pts[k]._coordinates), pts[k]._covariance));
        }
}

/** ---- inverse depth points ---- **/
constexpr int inverseLetters = 16;
// a camera that looks straight up
const matrix33& up()
{
    static const matrix33 m = [] {
        for (const matrix33& r: cube_rotations())
            if (vector3(axes() * r * vector3(0, 0, 1)).z() > 0.5)
                return r;
        return matrix33(matrix33::Identity());
    }();
    return m;
}
void run_inverse(mc::Ctx& ctx, const uint64_t idx)
{
    mc::Dec d(idx);
    const int start = int(d(7)); // 6: a point exactly above the camera
    const auto word = mc::word_upto(d.v, inverseLetters);
    const auto& cfg = configs()[0];
    static const bool loaded = load_config(cfg);
    ctx.check(loaded, "config", "a valid configuration was refused");
    // the poses of the cameras that observe the point, around a first pose
    const matrix33 R0 = std::vector<matrix33> {matrix33(matrix33::Identity()), rodrigues(vector3(1, 1, 0), 0.4), rodrigues(vector3(-1, 2, 3), -0.9)}[start % 3] * (start == 6 ? up() : matrix33(matrix33::Identity()));
    const vector3 t0 = start / 3 == 1 ? vector3(-300, 150, 800) : vector3(0, 0, 0);
    const matrix33 poses[] = {matrix33(matrix33::Identity()), rodrigues(vector3(0, 1, 0), 0.05), rodrigues(vector3(1, 0, 0), -0.1)};
    const vector3 shifts[] = {vector3(0, 0, 0), vector3(120, 0, 0), vector3(-30, 60, 200)};
    const matrix33 stateCovs[] = {matrix33(4 * matrix33::Identity()), spd(rodrigues(vector3(1, 2, -3), 0.7), 0.1, 4, 100), matrix33(matrix33::Identity() * 0.01)};
    const std::vector<ScreenCoordinate2D> screens = {ScreenCoordinate2D(320, 240), ScreenCoordinate2D(100.5, 400), ScreenCoordinate2D(600, 30)};
    const vector3 truth = start == 6 ? vector3(0, 0, 2000) : start % 2 ? vector3(200, -100, 1500) : vector3(-300, 250, 3000); // where the point is, in the first camera
    const CameraToWorldMatrix c2w0 = compute_camera_to_world_transform(quat(R0), t0);

    for (int k = 0; k < 2; ++k)
    {
        bool threw = false;
        try
        {
            matrix33 bad = stateCovs[0];
            bad(1, 1) = k ? NAN : -3;
            tracking::PointInverseDepth p(screens[0], c2w0, bad);
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        ctx.check(threw, "inverse-constructor", "an inverse depth point was created with an invalid pose covariance");
    }
    auto project = [&](const vector3& cam) { return vector3(cam.x() * cfg.fx1 / cam.z() + cfg.cx1, cam.y() * cfg.fy1 / cam.z() + cfg.cy1, cam.z()); };
    const vector3 s0 = project(truth);
    tracking::PointInverseDepth p(ScreenCoordinate2D(s0.x(), s0.y()), c2w0, stateCovs[start % 3], descriptor(1));
    // the first covariance: pose covariance, documented baselines, nothing correlated
    {
        matrix66 want = matrix66::Zero();
        want.block<3, 3>(0, 0) = stateCovs[start % 3];
        want(3, 3) = std::pow(1.0 / 1000.0 / 4.0, 2);
        want(4, 4) = want(5, 5) = std::pow(0.5 * M_PI / 180.0, 2);
        ctx.check(near(p._covariance, want, 1e-15), "inverse-initial", "the first covariance is %s, expected %s", str(p._covariance).c_str(), str(want).c_str());
        ctx.check(near(p._coordinates.get_first_observation(), c2w0.block<3, 1>(0, 3), 1e-9) and nearR(p._coordinates.get_inverse_depth(), 1.0 / 1000.0 / 2.0, 1e-9, 1e-15), "inverse-initial", "the first position is %s %g", str(p._coordinates.get_first_observation()).c_str(), p._coordinates.get_inverse_depth());
        ctx.check(not p.is_moving() and value_of(p._descriptor) == 1, "inverse-initial", "moving or wrong descriptor");
    }
    const vector3 first = p._coordinates.get_first_observation();
    const matrix33 firstCov = p._covariance.get_first_pose_covariance();
    int moving = 0;
    for (const int l: word)
    {
        ctx.step();
        const int pose = l < 9 ? l % 3 : (l == 9 ? 1 : l % 3);
        const vector3 t = t0 + shifts[pose];
        const matrix33 R = R0 * poses[pose];
        const CameraToWorldMatrix c2w = compute_camera_to_world_transform(quat(R), t);
        const matrix44 ref = ref_c2w(R, t);
        // where the point is in this camera
        const vector3 world = ref_c2w(R0, t0).block<3, 3>(0, 0) * truth + ref_c2w(R0, t0).block<3, 1>(0, 3);
        const vector3 cam = rigid_inverse(ref).block<3, 3>(0, 0) * world + rigid_inverse(ref).block<3, 1>(0, 3);
        vector3 s = project(cam);
        matrix33 stateCov = stateCovs[(l + start) % 3];
        bool depth = false, valid = true;
        int desc = 2 + l;
        if (l < 3)
            ; // 2D observation of the right place
        else if (l < 6)
            depth = true;
        else if (l < 9)
        {
            depth = l == 7;
            s.head<2>() += vector2(-12, 7); // seen at another place
            desc = -1;                      // no descriptor
        }
        else if (l == 9 or l == 10) // refused: invalid depth
        {
            depth = true;
            s.z() = l == 9 ? 0.0 : NAN;
            valid = false;
        }
        else if (l == 11 or l == 12) // refused: invalid covariance of the pose
        {
            depth = l == 11;
            stateCov(0, 0) = l == 11 ? NAN : -5;
            valid = false;
        }
        else if (l == 13) // much closer than expected
        {
            depth = true;
            s.z() *= 0.6;
        }
        else if (l == 14) // further
        {
            depth = true;
            s.z() = std::min(5900.0, s.z() * 1.7);
        }
        else
            s = vector3(screens[1].x(), screens[1].y(), 0); // a completely different pixel
        const cv::Mat des = desc < 0 ? cv::Mat() : descriptor(desc);
        const tracking::PointInverseDepth before(p);
        const vector3 x = p._coordinates.to_world_coordinates();
        const bool ok = depth ? p.track(ScreenCoordinate(s.x(), s.y(), s.z()), c2w, stateCov, des) : p.track(ScreenCoordinate2D(s.x(), s.y()), c2w, stateCov, des);
        ctx.note("letter %d depth %d screen %s: %d", l, int(depth), str(s).c_str(), int(ok));
        ctx.outcome(ok ? "accepted" : "refused");
        ctx.check(before.is_moving() == (moving == 1) or moving < 0, "inverse-copy", "a copy does not keep the moving state");
        const bool pole = std::abs(std::sin(before._coordinates.get_theta())) < 1e-6 or std::abs(std::sin(p._coordinates.get_theta())) < 1e-6;
        if (not valid)
            ctx.check(not ok, "inverse-refused", "an invalid observation was accepted (letter %d)", l);
        if (ok and pole)
            moving = -1; // the angle around the vertical is not defined there: the numbers mean nothing
        else if (ok)
        {
            // the measure, in cartesian space
            vector3 z;
            matrix33 Rz;
            if (depth)
            {
                const vector3 c((s.x() - cfg.cx1) * s.z() / cfg.fx1, (s.y() - cfg.cy1) * s.z() / cfg.fy1, s.z());
                z = ref.block<3, 3>(0, 0) * c + ref.block<3, 1>(0, 3);
                Rz = utils::get_world_point_covariance(ScreenCoordinate(s.x(), s.y(), s.z()), c2w, stateCov);
            }
            else
            {
                const InverseDepthWorldPoint ip(ScreenCoordinate2D(s.x(), s.y()), c2w);
                matrix66 c6 = matrix66::Zero();
                c6.block<3, 3>(0, 0) = stateCov;
                c6(3, 3) = std::pow(1.0 / 1000.0 / 4.0, 2);
                c6(4, 4) = c6(5, 5) = std::pow(0.5 * M_PI / 180.0, 2);
                Eigen::Matrix<double, 3, 6> J;
                z = ip.to_world_coordinates(J);
                Rz = J * c6 * J.transpose();
            }
            Eigen::Matrix<double, 3, 6> Jb;
            std::ignore = before._coordinates.to_world_coordinates(Jb);
            matrix33 P = Jb * before._covariance * Jb.transpose();
            P = 0.5 * (P + P.transpose()).eval();
            vector3 nx;
            matrix33 nP;
            fuse<3>(x, P, z, Rz, 0.0001, nx, nP);
            const vector3 got = p._coordinates.to_world_coordinates();
            ctx.check(near(got, nx, 1e-5 * (1 + amax(nx - first))), "inverse-position", "letter %d: the point is at %s, the fusion of its observations is %s (was %s, observation %s)", l, str(got).c_str(), str(nx).c_str(), str(x).c_str(), str(z).c_str());
            Eigen::Matrix<double, 6, 3> Jf;
            std::ignore = InverseDepthWorldPoint::from_cartesian(WorldCoordinate(nx), WorldCoordinate(first), Jf);
            matrix66 want = Jf * nP * Jf.transpose();
            want.block<3, 3>(0, 0) = firstCov;
            for (int i = 0; i < 6; ++i)
                for (int j = 0; j < 6; ++j)
                    ctx.check(std::abs(p._covariance(i, j) - want(i, j)) <= 1e-5 * std::sqrt(std::abs(want(i, i) * want(j, j))) + 1e-20, "inverse-covariance", "letter %d: covariance %s, the fusion has %s", l, str(p._covariance).c_str(), str(want).c_str());
            moving = moved(x, z, Rz);
            ctx.check(moving < 0 or p.is_moving() == (moving == 1), "inverse-moving", "moving is %d, the last observation says %d (was %s, observed %s)", int(p.is_moving()), moving, str(x).c_str(), str(z).c_str());
            ctx.check(value_of(p._descriptor) == (desc < 0 ? value_of(before._descriptor) : desc), "inverse-descriptor", "the descriptor is %d", value_of(p._descriptor));
        }
        else
        {
            ctx.check(near(p._covariance, before._covariance, 0) and near(p._coordinates.get_first_observation(), first, 0) and p._coordinates.get_inverse_depth() == before._coordinates.get_inverse_depth() and p._coordinates.get_theta() == before._coordinates.get_theta() and p._coordinates.get_phi() == before._coordinates.get_phi() and value_of(p._descriptor) == value_of(before._descriptor) and (moving < 0 or p.is_moving() == (moving == 1)),
                      "inverse-trace", "letter %d: a refused observation changed the point", l);
            // the angles of a point exactly above the first camera have no derivative: this observation cannot be used
            ctx.check(not valid or pole, "inverse-lost", "letter %d: a valid observation was refused", l);
        }
        ctx.check(near(p._coordinates.get_first_observation(), first, 1e-9) and near(p._covariance.get_first_pose_covariance(), firstCov, 1e-12) and near(p.get_covariance_of_observed_pose(), firstCov, 1e-12), "inverse-first", "the first observation changed");
        ctx.check((pole or cov_problem<6>(matrix66(p._covariance)).empty()) and utils::is_covariance_valid(p._covariance), "inverse-covariance-valid", "%s", cov_problem<6>(matrix66(p._covariance)).c_str());

        if (pole)
            continue;
        // derived quantities
        Eigen::Matrix<double, 3, 6> J;
        const vector3 cart = p._coordinates.to_world_coordinates(J);
        const vector3 hc = cart - ref.block<3, 1>(0, 3);
        const double score = 4.0 * (std::sqrt(p._covariance(3, 3)) / std::pow(p._coordinates.get_inverse_depth(), 2)) / hc.norm() * std::abs(hc.normalized().dot((cart - first).normalized()));
        ctx.check(nearR(p.compute_linearity_score(c2w), score, 1e-9), "inverse-linearity", "linearity score %g, expected %g", p.compute_linearity_score(c2w), score);
        const matrix33 wc = tracking::PointInverseDepth::compute_cartesian_covariance(p._coordinates, p._covariance);
        const matrix33 wantWc = J * p._covariance * J.transpose();
        ctx.check(near(wc, wantWc, 1e-9 * amax(wantWc)), "inverse-cartesian", "cartesian covariance");
        const WorldToCameraMatrix w2c = compute_world_to_camera_transform(quat(R), t);
        const matrix33 cc = p.get_camera_coordinate_variance(w2c);
        const matrix33 rot = ref.block<3, 3>(0, 0);
        const matrix33 wantC = rot.transpose() * wantWc * rot + firstCov;
        ctx.check(near(cc, wantC, 1e-9 * amax(wantC)), "inverse-camera", "camera covariance %s, expected %s", str(cc).c_str(), str(wantC).c_str());
        ctx.state(hash(hash(start, p._covariance), cart));
    }
}

/** ---- planes ---- **/
using features::primitives::Plane_Segment;
// a detected plane: parameters in camera space and a rectangular boundary around `at`
features::primitives::Plane detected(const vector3& normal, const double dist, const vector2& at, const double size)
{
    // axes of the plane
    const vector3 ax = (vector3(1, 0, 0) - normal.x() * normal).normalized();
    const vector3 ay = normal.cross(ax);
    const vector3 center = -normal * dist;
    constexpr int w = 20;
    matrixf cloud(w * w, 3);
    for (int i = 0; i < w; ++i)
        for (int j = 0; j < w; ++j)
        {
            const vector3 q = center + ax * (at.x() + size * (i / double(w - 1) - 0.5)) + ay * (at.y() + size * (j / double(w - 1) - 0.5)) + normal * (((i * 7 + j * 3) % 5) - 2) * 0.5;
            cloud.row(i * w + j) = q.cast<float>();
        }
    Plane_Segment::set_static_members(w, w * w);
    Plane_Segment seg;
    seg.init_plane_segment(cloud, 0);
    std::vector<vector3> corners;
    for (const auto& [a, b]: std::vector<std::pair<double, double>> {{-1, -1}, {1, -1}, {1, 1}, {-1, 1}})
        corners.push_back(center + ax * (at.x() + a * size / 2) + ay * (at.y() + b * size / 2));
    return features::primitives::Plane(seg, CameraPolygon(corners, normal, center));
}
constexpr int planeLetters = 11;
double area_of(const WorldPolygon& p) { return p.get_area(); }
void run_planes(mc::Ctx& ctx, const uint64_t idx)
{
    mc::Dec d(idx);
    const int start = int(d(6));
    const auto word = mc::word_upto(d.v, planeLetters);
    const matrix33 R = std::vector<matrix33> {matrix33(matrix33::Identity()), rodrigues(vector3(1, 1, 0), 0.4), rodrigues(vector3(-1, 2, 3), -0.9)}[start % 3];
    const vector3 t = start / 3 ? vector3(-300, 150, 800) : vector3(0, 0, 0);
    const CameraToWorldMatrix c2w = compute_camera_to_world_transform(quat(R), t);
    const PlaneCameraToWorldMatrix p2w = utils::compute_plane_camera_to_world_matrix(c2w);
    auto obs = [&](const int l) {
        const vector3 n0 = rodrigues(vector3(1, 0.5, 0), 0.3 * (start % 2)) * vector3(0, 0, -1);
        const vector3 n = l % 5 == 1 ? vector3(rodrigues(vector3(0, 1, 0), 0.03) * n0) : l % 5 == 2 ? vector3(rodrigues(vector3(1, 1, 0), -0.08) * n0) : n0;
        return detected(n, 1500 + (l % 5 == 3 ? 30 : 0) - (l % 5 == 2 ? 12 : 0), l < 5 ? vector2(0, 0) : l == 10 ? vector2(195, -190) : vector2(90 * (l % 3), -70 + 60 * (l % 2)), l == 10 ? 90 : 400); // 10: a small part, across the corner
    };
    auto cov4 = [&](const int l) {
        matrix44 m = matrix44::Zero();
        const double s = l % 3 == 0 ? 1e-6 : l % 3 == 1 ? 1e-3 : 1e-4;
        m.block<3, 3>(0, 0) = spd(rodrigues(vector3(1, 2, -3), 0.4 * l), s, 3 * s, 2 * s);
        m(3, 3) = 4;
        m(0, 3) = m(3, 0) = 0.3 * std::sqrt(s);
        return m;
    };
    tracking::Plane p;
    const auto f = obs(0);
    p._parametrization = f.get_parametrization().to_world_coordinates(p2w);
    p._covariance = cov4(start);
    p._boundaryPolygon = f.get_boundary_polygon().to_world_space(c2w);
    for (const int l: word)
    {
        ctx.step();
        const bool valid = l < 8 or l == 10;
        const auto o = obs(l);
        matrix44 cov = cov4(l);
        if (l == 8)
            cov(2, 2) = -1;
        else if (l == 9)
            cov(3, 0) = cov(0, 3) = NAN;
        const PlaneWorldCoordinates z = o.get_parametrization().to_world_coordinates(p2w);
        const vector4 x = p.get_parametrization().get_parametrization();
        const matrix44 P = p.get_covariance();
        const WorldPolygon poly = p.get_boundary_polygon();
        double score = -1;
        bool threw = false;
        try
        {
            score = p.track(c2w, o, z, cov);
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        ctx.note("letter %d: score %g threw %d", l, score, int(threw));
        const vector4 got = p.get_parametrization().get_parametrization();
        if (not valid)
        {
            ctx.check(threw or score <= 0, "plane-refused", "an invalid observation was accepted (%g)", score);
            ctx.check(near(got, x, 0) and near(p.get_covariance(), P, 0) and area_of(p.get_boundary_polygon()) == area_of(poly) and p.get_boundary_polygon().boundary_length() == poly.boundary_length(), "plane-trace", "a refused observation changed the plane");
        }
        else
        {
            ctx.check(not threw, "plane-lost", "letter %d: a valid observation was refused", l);
            vector4 nx;
            matrix44 nP;
            fuse<4>(x, P, z.get_parametrization(), cov, 1e-6, nx, nP);
            vector4 want = nx;
            want.head<3>() /= want.head<3>().norm();
            ctx.check(near(vector3(got.head<3>()), vector3(want.head<3>()), 1e-7) and nearR(got(3), want(3), 1e-7, 1e-6), "plane-parameters", "letter %d: the plane is %s, the fusion of its observations is %s", l, str(got).c_str(), str(want).c_str());
            for (int i = 0; i < 4; ++i)
                for (int j = 0; j < 4; ++j)
                    ctx.check(std::abs(p.get_covariance()(i, j) - nP(i, j)) <= 1e-6 * std::sqrt(nP(i, i) * nP(j, j)), "plane-covariance", "letter %d: covariance %s, the fusion has %s", l, str(p.get_covariance()).c_str(), str(nP).c_str());
            ctx.check(nearR(score, (want - x).norm(), 1e-6, 1e-9), "plane-score", "the plane moved by %g, %g was returned", (want - x).norm(), score);
            // the boundary lies on the plane, contains the old boundary and the new one
            const WorldPolygon now = p.get_boundary_polygon();
            ctx.check(near(vector3(now.get_center()), vector3(-got.head<3>() * got(3)), 1e-6 * (1 + std::abs(got(3)))) and nearR(std::abs(now.get_normal().dot(got.head<3>())), 1.0, 1e-9), "plane-boundary-frame", "letter %d: the boundary is not in the plane", l);
            for (const vector3& b: now.get_unprojected_boundary())
                ctx.check(std::abs(b.dot(got.head<3>()) + got(3)) < 1e-3, "plane-boundary-plane", "a boundary point is at %g of the plane", b.dot(got.head<3>()) + got(3));
            WorldPolygon expected(poly.project(vector3(got.head<3>()), vector3(-got.head<3>() * got(3))));
            const double before = expected.area();
            expected.merge(o.get_boundary_polygon().to_world_space(c2w));
            ctx.check(nearR(now.get_area(), expected.area(), 1e-6) and nearR(now.area(), expected.area(), 1e-6), "plane-boundary", "letter %d: the boundary has an area of %g, the union has %g", l, now.get_area(), expected.area());
            ctx.check(expected.area() > 0.75 * before, "plane-boundary-shrinks", "letter %d: the boundary lost area", l);
            ctx.check(cov_problem<4>(matrix44(p.get_covariance())).empty(), "plane-covariance-valid", "%s", cov_problem<4>(matrix44(p.get_covariance())).c_str());
            ctx.check(nearR(got.head<3>().norm(), 1.0, 1e-9), "plane-normal", "the normal has length %g", got.head<3>().norm());
        }
        ctx.state(hash(hash(start, got), p.get_covariance()));
    }
}

} // namespace

int main(int argc, char** argv)
{
    std::vector<mc::Family> f;
    f.push_back({"points", [](bool th) { return 4 * mc::words_upto(pointLetters, th ? 4 : 3); }, run_points});
    f.push_back({"inverse-depth-points", [](bool th) { return 7 * mc::words_upto(inverseLetters, th ? 4 : 3); }, run_inverse});
    f.push_back({"planes", [](bool th) { return 6 * mc::words_upto(planeLetters, th ? 5 : 3); }, run_planes});
    return mc::main_(argc, argv, f);
}
