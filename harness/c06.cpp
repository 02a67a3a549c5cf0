// C06: the pose optimisation recovers the pose of the camera and tells apart wrong matches, for every pose of a grid
#include "geo.hpp"
#include "map_management/map_features/map_point.hpp"
#include "map_management/map_features/map_point2d.hpp"
#include "map_management/map_features/map_primitive.hpp"
#include "pose_optimization/levenberg_marquardt_functors.hpp"
#include "pose_optimization/pose_optimization.hpp"
#include "utils/camera_transformation.hpp"
#include <set>
#include <thread>

using namespace geo;
using map_management::PlaneOptimizationFeature;
using map_management::Point2dOptimizationFeature;
using map_management::PointOptimizationFeature;
using matches_containers::match_container;
using matches_containers::match_sets;
using pose_optimization::Pose_Optimization;

namespace {
const Cfg& cfg() { return configs()[1]; }
vector2 project(const vector3& cam) { return vector2(cfg().fx1 * cam.x() / cam.z() + cfg().cx1, cfg().fy1 * cam.y() / cam.z() + cfg().cy1); }

// each run uses the random numbers of a new thread, so that the executions are independent
template<class F> void alone(F f)
{
    std::thread t(f);
    t.join();
}

double angle_between(const quaternion& a, const quaternion& b)
{
    const quaternion d = a.conjugate() * b;
    return 2 * std::atan2(d.vec().norm(), std::abs(d.w()));
}

void roundtrip_of(mc::Ctx& c, const quaternion& q, const vector3& t)
{
    c.step();
    const vector6 k = pose_optimization::get_optimization_coefficient_from_pose(utils::PoseBase(t, q));
    c.check(k.allFinite(), "finite", "rotation w %.17g x %.17g y %.17g z %.17g: not finite", q.w(), q.x(), q.y(), q.z());
    const utils::PoseBase p = pose_optimization::get_pose_from_optimization_coefficients(k);
    const double e = angle_between(q, p.get_orientation_quaternion());
    c.check(e < 1e-6, "rotation", "rotation w %.17g x %.17g y %.17g z %.17g comes back %g rad off", q.w(), q.x(), q.y(), q.z(), e);
    c.check((p.get_position() - t).norm() == 0, "position", "the position comes back %g off", (p.get_position() - t).norm());
}

// every rotation with integer quaternion components, and rotations close to half turns
void run_roundtrip(mc::Ctx& c, const uint64_t idx)
{
    const int r = c.thorough ? 6 : 4;
    mc::Dec d(idx);
    const int w = int(d(uint64_t(2 * r + 1))) - r, x = int(d(uint64_t(2 * r + 1))) - r;
    for (int y = -r; y <= r; ++y)
        for (int z = -r; z <= r; ++z)
        {
            if (w == 0 and x == 0 and y == 0 and z == 0)
                continue;
            roundtrip_of(c, quaternion(w, x, y, z).normalized(), vector3(w * 100, x, y - 7));
            if (w or x)
                for (const double s: {0.1, 1e-2, 1e-3, 1e-5, 1e-9})
                    roundtrip_of(c, quaternion(w * s, x * s, y * s, z < 0 ? -1 : 1).normalized(), vector3(1, 2, 3));
        }
    c.outcome("round trip");
    c.state(mc::mix(idx, 1));
}

void run_jacobian(mc::Ctx& c, const uint64_t idx)
{
    static const double v[7] = {-1.9, -0.7, -0.05, 0, 0.3, 0.99, 1.6};
    mc::Dec d(idx);
    vector6 k;
    k << 10, -20, 30, v[d(7)], v[d(7)], v[d(7)];
    c.trace = mc::fmt("coefficients %s\n", str(k).c_str());
    Eigen::Matrix<double, 7, 6> j;
    const utils::PoseBase p = pose_optimization::get_pose_from_optimization_coefficients(k, j);
    const auto seven = [](const utils::PoseBase& q) {
        Eigen::Matrix<double, 7, 1> o;
        const quaternion r = q.get_orientation_quaternion();
        o << q.get_position(), r.w(), r.x(), r.y(), r.z();
        return o;
    };
    c.check((seven(p) - seven(pose_optimization::get_pose_from_optimization_coefficients(k))).norm() < 1e-12, "same", "the pose given with the jacobian is another one");
    for (int i = 0; i < 6; ++i)
    {
        c.step();
        vector6 a = k, b = k;
        a(i) += 1e-5;
        b(i) -= 1e-5;
        const Eigen::Matrix<double, 7, 1> n = (seven(pose_optimization::get_pose_from_optimization_coefficients(a)) - seven(pose_optimization::get_pose_from_optimization_coefficients(b))) / 2e-5;
        c.check((n - j.col(i)).norm() < 1e-6, "jacobian", "derivative %d: %s, the jacobian has %s", i, str(n).c_str(), str(Eigen::Matrix<double, 7, 1>(j.col(i))).c_str());
    }
    c.outcome("jacobian");
    c.state(mc::mix(idx, 2));
}

struct Scene
{
    match_container m;
    std::set<size_t> wrong;
    std::string name;
};

// points in front of the camera that has to be found
const std::vector<vector3>& cams()
{
    static const std::vector<vector3> p = {vector3(-500, -350, 1500), vector3(480, -300, 1100), vector3(-420, 320, 1900), vector3(510, 390, 1400), vector3(20, 30, 2600),
                                           vector3(-150, 200, 800),   vector3(260, -120, 3000), vector3(-700, 40, 2200), vector3(90, -400, 1300),  vector3(330, 150, 900)};
    return p;
}
// planes (normal and distance) in the same camera
const std::vector<std::pair<vector3, double>>& planes()
{
    static const std::vector<std::pair<vector3, double>> p = {{vector3(0, -1, 0.1).normalized(), 800}, {vector3(0.1, 0, -1).normalized(), 2500}, {vector3(1, 0.2, -0.3).normalized(), 1100}, {vector3(-1, -1, -1).normalized(), 1500}};
    return p;
}

// kinds: 0 points, 1 the minimum of points, 2 planes, 3 three planes, 4 points and planes, 5 points and points of unknown depth
constexpr int kinds = 6;
Scene scene(const int kind, const matrix33& R, const vector3& t, const std::set<size_t>& wrong, const double sigma)
{
    Scene s;
    static const char* names[kinds] = {"ten points", "five points", "four planes", "three planes", "four points and two planes", "six points and four of unknown depth"};
    s.name = names[kind];
    const matrix44 c2w = ref_c2w(R, t), w2c = rigid_inverse(c2w);
    size_t id = 0;
    const auto point = [&](const size_t i) {
        const vector3 cam = cams()[i];
        vector2 px = project(cam);
        if (wrong.contains(id))
        {
            px += vector2(id % 2 ? 60 : -45, id % 3 ? -70 : 55);
            s.wrong.insert(id);
        }
        s.m.push_back(std::make_shared<PointOptimizationFeature>(ScreenCoordinate2D(px), WorldCoordinate(vector3((c2w * cam.homogeneous()).head<3>())), vector3(sigma, sigma, sigma), id, id));
        ++id;
    };
    const auto plane = [&](const size_t i) {
        const vector3 n = planes()[i].first;
        const double d = planes()[i].second;
        const vector3 wn = c2w.block<3, 3>(0, 0) * n;
        const vector3 on = (c2w * vector3(-d * n).homogeneous()).head<3>();
        s.m.push_back(std::make_shared<PlaneOptimizationFeature>(PlaneCameraCoordinates(n, d), PlaneWorldCoordinates(wn, -wn.dot(on)), vector4(sigma * 1e-3, sigma * 1e-3, sigma * 1e-3, sigma), id, id));
        ++id;
    };
    const auto unknown = [&](const size_t i) {
        const vector3 cam = cams()[i];
        vector2 px = project(cam);
        // first seen from another place
        const vector3 t0 = t + R * vector3(60, -220 + 30.0 * double(i), 140);
        const matrix44 c0 = ref_c2w(R, t0);
        const vector3 w = (c2w * cam.homogeneous()).head<3>();
        const vector3 cam0 = (rigid_inverse(c0) * w.homogeneous()).head<3>();
        const InverseDepthWorldPoint p(ScreenCoordinate2D(project(cam0)), utils::compute_camera_to_world_transform(quat(R), t0));
        if (wrong.contains(id))
        {
            // away from the line of the point
            const vector3 further = (w2c * vector3((c0 * vector3(1.5 * cam0).homogeneous()).head<3>()).homogeneous()).head<3>();
            const vector2 u = (project(further) - px).normalized();
            px += 70.0 * vector2(-u.y(), u.x());
            s.wrong.insert(id);
        }
        vector6 dev;
        dev << sigma, sigma, sigma, 5e-4, sigma * 1e-3, sigma * 1e-3;
        s.m.push_back(std::make_shared<Point2dOptimizationFeature>(ScreenCoordinate2D(px), p, dev, id, id));
        ++id;
    };
    switch (kind)
    {
        case 0:
            for (size_t i = 0; i < 10; ++i)
                point(i);
            break;
        case 1:
            for (size_t i = 0; i < 5; ++i)
                point(i);
            break;
        case 2:
            for (size_t i = 0; i < 4; ++i)
                plane(i);
            break;
        case 3:
            for (size_t i = 0; i < 3; ++i)
                plane(i);
            break;
        case 4:
            for (size_t i = 0; i < 4; ++i)
                point(i);
            plane(0);
            plane(1);
            break;
        default:
            for (size_t i = 0; i < 6; ++i)
                point(i);
            for (size_t i = 6; i < 10; ++i)
                unknown(i);
    }
    return s;
}

const std::vector<vector3>& where()
{
    static const std::vector<vector3> p = {vector3(0, 0, 0), vector3(1500, -2000, 700)};
    return p;
}
struct Start
{
    vector3 move, turn;
};
const std::vector<Start>& starts()
{
    static const std::vector<Start> s = {{vector3(0, 0, 0), vector3(0, 0, 0)},           {vector3(30, -20, 10), vector3(0.03, -0.05, 0.02)}, {vector3(-80, 60, 40), vector3(-0.1, 0.05, 0.08)},
                                         {vector3(0, 0, -120), vector3(0, 0.15, 0)},     {vector3(150, 100, -50), vector3(0, 0, -0.2)},       {vector3(5, 5, 5), vector3(0.12, 0.12, 0.12)}};
    return s;
}

void recover(mc::Ctx& c, const int kind, const matrix33& R, const vector3& t, const Start& st, const std::set<size_t>& wrong)
{
    const double a = st.turn.norm();
    const matrix33 Rs = a > 0 ? matrix33(R * rodrigues(st.turn / a, a)) : R;
    const utils::PoseBase start(t + R * st.move, quat(Rs));
    const Scene s = scene(kind, R, t, wrong, 0.05);
    utils::Pose out;
    match_sets sets;
    bool ok = false;
    alone([&] { ok = Pose_Optimization::compute_optimized_pose(start, s.m, out, sets); });
    c.step();
    std::string w;
    for (const size_t i: s.wrong)
        w += mc::fmt("%zu ", i);
    c.trace = mc::fmt("%s, rotation %s position %s, start moved by %s turned by %s, wrong matches: %s\n", s.name.c_str(), str(R).c_str(), str(t).c_str(), str(st.move).c_str(), str(st.turn).c_str(), w.c_str());
    c.check(ok, "no-pose", "no pose is found");
    const double e = (out.get_position() - t).norm(), r = angle_between(quat(R), out.get_orientation_quaternion());
    c.note("position error %g mm, rotation error %g rad, %zu inliers", e, r, sets._inliers.size());
    c.check(e < 1.0 and r < 1e-3, "pose", "the pose is %g mm and %g rad off", e, r);
    std::set<size_t> in, bad;
    for (const auto& f: sets._inliers)
        in.insert(f->_idInMap);
    for (const auto& f: sets._outliers)
        bad.insert(f->_idInMap);
    c.check(bad == s.wrong and in.size() + bad.size() == s.m.size(), "outliers", "%zu inliers and %zu outliers for %zu right and %zu wrong matches", in.size(), bad.size(), s.m.size() - s.wrong.size(), s.wrong.size());
    const std::string p = cov_problem<6>(out.get_pose_variance());
    c.check(p.empty(), "covariance", "%s", p.c_str());
    // matches known to 0.05 mm (1e-5 in the normals) cannot give an uncertainty of metres
    c.check(out.get_pose_variance().trace() < 100, "covariance-size", "covariance trace %g", out.get_pose_variance().trace());
    c.outcome(mc::fmt("%s, %zu wrong", s.name.c_str(), s.wrong.size()));
}

void run_recovery(mc::Ctx& c, const uint64_t idx)
{
    mc::Dec d(idx);
    const int kind = int(d(kinds));
    const matrix33 R = rotations()[d(rotations().size())];
    const vector3 t = where()[d(where().size())];
    for (const Start& s: starts())
        recover(c, kind, R, t, s, {});
    c.state(mc::mix(idx, 3));
}
// starts with parameters that are almost, or exactly, zero: the camera goes from the origin of the world to every pose around it
void run_around_zero(mc::Ctx& c, const uint64_t idx)
{
    mc::Dec d(idx);
    const int kind = int(d(kinds));
    static const double sizes[] = {0, 1e-300, 1e-16, 1e-13, 1e-9, 1e-7, 1e-5, 1e-3};
    const double z = sizes[d(8)];
    const vector3 move = vector3(int(d(3)) - 1, int(d(3)) - 1, int(d(3)) - 1);
    const vector3 turn = vector3(int(d(3)) - 1, int(d(3)) - 1, int(d(3)) - 1);
    const vector3 t = 40.0 * move;
    const matrix33 R = turn.norm() > 0 ? rodrigues(turn.normalized(), 0.05) : matrix33(matrix33::Identity());
    // the same orientation, a hair beside the zeros of the parametrisation
    const matrix33 Rs = z > 0 ? rodrigues(vector3(1, 2, -1).normalized(), z) : matrix33(matrix33::Identity());
    const vector3 ts = z * vector3(1, -0.3, 0.7);
    const Scene s = scene(kind, R, t, {}, 0.05);
    utils::Pose out;
    match_sets sets;
    bool ok = false;
    alone([&] { ok = Pose_Optimization::compute_optimized_pose(utils::PoseBase(ts, quat(Rs)), s.m, out, sets); });
    c.step();
    c.trace = mc::fmt("%s, rotation %s position %s, start at %g of zero\n", s.name.c_str(), str(R).c_str(), str(t).c_str(), z);
    c.check(ok, "no-pose", "no pose is found");
    const double e = (out.get_position() - t).norm(), r = angle_between(quat(R), out.get_orientation_quaternion());
    c.check(e < 1.0 and r < 1e-3, "pose", "the pose is %g mm and %g rad off", e, r);
    c.outcome(mc::fmt("start at %g of zero", z));
    c.state(mc::mix(idx, 9));
}

// every set of up to 2 (thorough: 3) wrong matches out of 10
const std::vector<std::set<size_t>>& outliers(const bool thorough)
{
    static const std::vector<std::set<size_t>> o = [&] {
        std::vector<std::set<size_t>> v;
        for (int m = 1; m < 1024; ++m)
            if (__builtin_popcount(unsigned(m)) <= (thorough ? 3 : 2))
            {
                std::set<size_t> s;
                for (size_t i = 0; i < 10; ++i)
                    if ((m >> i) & 1)
                        s.insert(i);
                v.push_back(s);
            }
        return v;
    }();
    return o;
}
void run_outliers(mc::Ctx& c, const uint64_t idx)
{
    mc::Dec d(idx);
    const auto& all = outliers(c.thorough);
    const std::set<size_t> wrong = all[d(all.size())];
    const int kind = d(2) ? 5 : 0;
    static const size_t rot[4] = {0, 7, 30, 52};
    const matrix33 R = rotations()[rot[d(4)]];
    recover(c, kind, R, where()[1], starts()[1], wrong);
    recover(c, kind, R, where()[0], starts()[2], wrong);
    c.state(mc::mix(idx, 4));
}

// too few matches, one invalid match anywhere, an invalid start: refused
void run_refusals(mc::Ctx& c, const uint64_t idx)
{
    mc::Dec d(idx);
    const int kind = int(d(kinds));
    const int what = int(d(3));
    const int which = int(d(11));
    const matrix33 R = rotations()[d(3) * 20];
    const vector3 t = where()[1];
    Scene s = scene(kind, R, t, {}, 0.05);
    utils::PoseBase start(t, quat(R));
    bool expected = true;
    c.trace = mc::fmt("%s, ", s.name.c_str());
    if (what == 0)
    {
        // only the first ones
        match_container less;
        double score = 0;
        for (const auto& f: s.m)
            if (int(less.size()) < which)
            {
                less.push_back(f);
                score += f->get_feature_type() == FeatureType::Plane ? 1.0 / 3.0 : 0.2;
            }
        s.m = less;
        if (which > 10)
            return;
        expected = score > 1 - 1e-6;
        c.note("the first %d matches", which);
    }
    else if (what == 1)
    {
        const double nan = std::nan("");
        static const double bad[3] = {nan, -1, nan};
        auto it = s.m.begin();
        std::advance(it, std::min<size_t>(size_t(which), s.m.size()));
        const double b = bad[which % 3];
        s.m.insert(it, std::make_shared<PointOptimizationFeature>(ScreenCoordinate2D(which % 2 ? 100 : b == -1 ? 100 : nan, 100), WorldCoordinate(1, 2, 3), vector3(1, b, 1), 77, 77));
        expected = false;
        c.note("an invalid match at place %d", which);
    }
    else
    {
        if (which > 6)
            return;
        const double nan = std::nan("");
        vector3 p = t;
        quaternion q = quat(R);
        if (which < 3)
            p(which) = which == 1 ? INFINITY : nan;
        else
            q.coeffs()(which - 3) = nan;
        start = utils::PoseBase(p, q);
        expected = false;
        c.note("start with component %d invalid", which);
    }
    utils::Pose out;
    match_sets sets;
    bool ok = false;
    alone([&] { ok = Pose_Optimization::compute_optimized_pose(start, s.m, out, sets); });
    c.step();
    c.check(ok == expected, "refusal", "the optimisation %s", ok ? "succeeds" : "fails");
    if (not ok)
        c.check(sets._inliers.empty() and sets._outliers.empty(), "refusal-sets", "failure with %zu inliers and %zu outliers", sets._inliers.size(), sets._outliers.size());
    c.outcome(ok ? "pose" : "refused");
    c.state(mc::mix(idx, 5));
}

// larger uncertainties of the matches: covariance larger in proportion
void run_covariance(mc::Ctx& c, const uint64_t idx)
{
    mc::Dec d(idx);
    const int kind = int(d(kinds));
    const matrix33 R = rotations()[d(rotations().size())];
    const vector3 t = where()[1];
    matrix66 cov[2];
    for (int i = 0; i < 2; ++i)
    {
        const Scene s = scene(kind, R, t, {}, i ? 2.0 : 1.0);
        bool ok = false;
        alone([&] { ok = Pose_Optimization::compute_pose_variance(utils::PoseBase(t, quat(R)), s.m, cov[i]); });
        c.step();
        c.trace = mc::fmt("%s, rotation %s\n", s.name.c_str(), str(R).c_str());
        c.check(ok, "covariance", "no covariance");
        const std::string p = cov_problem<6>(cov[i]);
        c.check(p.empty(), "covariance", "%s", p.c_str());
    }
    for (int i = 0; i < 3; ++i)
    {
        const double a = cov[0](i, i) - 0.001, b = cov[1](i, i) - 0.001;
        c.check(b > 3 * a and b < 5 * a, "covariance-scale", "uncertainties twice as large change the variance of position %d from %g to %g", i, a, b);
    }
    c.outcome("scaled");
    c.state(mc::mix(idx, 6));
}
} // namespace

int main(int argc, char** argv)
{
    if (not load_config(cfg()))
        return 2;
    std::vector<mc::Family> f;
    f.push_back({"roundtrip", [](const bool t) { return t ? 169ull : 81ull; }, run_roundtrip, 60, 1});
    f.push_back({"jacobian", [](bool) { return 343ull; }, run_jacobian, 60, 16});
    f.push_back({"recovery", [](bool) { return uint64_t(kinds * rotations().size() * where().size()); }, run_recovery, 120, 1});
    f.push_back({"around-zero", [](bool t) { return uint64_t(kinds * 8 * 27 * (t ? 27 : 6)); }, run_around_zero, 120, 16});
    f.push_back({"outliers", [](const bool t) { return uint64_t(outliers(t).size() * 8); }, run_outliers, 120, 1});
    f.push_back({"refusals", [](bool) { return uint64_t(kinds * 3 * 11 * 3); }, run_refusals, 60, 4});
    f.push_back({"covariance", [](bool) { return uint64_t(kinds * rotations().size()); }, run_covariance, 60, 2});
    return mc::main_(argc, argv, f);
}
