// C25: the matches given to the pose optimisation (points, points of unknown depth, planes) measure what they should
#include "geo.hpp"
#include "map_management/map_features/map_point.hpp"
#include "map_management/map_features/map_point2d.hpp"
#include "map_management/map_features/map_primitive.hpp"
#include "utils/camera_transformation.hpp"
#include <thread>

using namespace geo;
using map_management::PlaneOptimizationFeature;
using map_management::Point2dOptimizationFeature;
using map_management::PointOptimizationFeature;
using matches_containers::feat_ptr;
using matches_containers::IOptimizationFeature;

namespace {
const Cfg& cfg() { return configs()[1]; }

// fields of a feature (they are protected)
struct PointView : PointOptimizationFeature
{
    PointView(const PointOptimizationFeature& o) : PointOptimizationFeature(o) {}
    vector2 matched() const { return _matchedPoint; }
    vector3 map() const { return _mapPoint; }
    vector3 dev() const { return _mapPointStandardDev; }
};
struct Point2dView : Point2dOptimizationFeature
{
    Point2dView(const Point2dOptimizationFeature& o) : Point2dOptimizationFeature(o) {}
    vector2 matched() const { return _matchedPoint; }
    InverseDepthWorldPoint map() const { return _mapPoint; }
    vector6 dev() const { return _mapPointStandardDev; }
};
struct PlaneView : PlaneOptimizationFeature
{
    PlaneView(const PlaneOptimizationFeature& o) : PlaneOptimizationFeature(o) {}
    PlaneCameraCoordinates matched() const { return _matchedPlane; }
    PlaneWorldCoordinates map() const { return _mapPlane; }
    vector4 dev() const { return _mapPlaneStandardDev; }
};

vector2 project(const vector3& cam) { return vector2(cfg().fx1 * cam.x() / cam.z() + cfg().cx1, cfg().fy1 * cam.y() / cam.z() + cfg().cy1); }

const std::vector<vector3>& where()
{
    static const std::vector<vector3> p = {vector3(0, 0, 0), vector3(-1000, 500, 20), vector3(1500, -2000, 700)};
    return p;
}
matrix44 w2c_of(const matrix33& r, const vector3& t) { return rigid_inverse(ref_c2w(r, t)); }

const std::vector<vector3>& cams()
{
    static const std::vector<vector3> p = {vector3(0, 0, 1000), vector3(300, -200, 900), vector3(-600, 450, 2500), vector3(-40, -30, 60), vector3(1500, 1200, 5500), vector3(2000, 0, 500)};
    return p;
}
const std::vector<double>& shifts()
{
    static const std::vector<double> s = {-40, -3.001, -2.999, -2, -1.0005, -0.9995, 0, 0.5, 0.9995, 1.0005, 2, 2.999, 3.001, 40};
    return s;
}

void run_points(mc::Ctx& c, const uint64_t idx)
{
    mc::Dec d(idx);
    const matrix33 R = rotations()[d(rotations().size())];
    const vector3 t = where()[d(where().size())];
    const matrix44 c2w = ref_c2w(R, t);
    const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(quat(R), t);
    for (const vector3& front: cams())
        for (const double side: {1.0, -1.0})
        {
            const vector3 cam = front * side;
            const vector3 w = (c2w * cam.homogeneous()).head<3>();
            const vector2 at = project(cam);
            for (const double dx: shifts())
                for (const double dy: shifts())
                {
                    const vector2 e(dx, dy);
                    const PointOptimizationFeature f(ScreenCoordinate2D(vector2(at + e)), WorldCoordinate(w), vector3(1, 2, 3), 7, 3);
                    c.step();
                    c.trace = mc::fmt("rotation %s position %s point in front of the camera %s, keypoint %g %g from its projection\n", str(R).c_str(), str(t).c_str(), str(cam).c_str(), dx, dy);
                    const vectorxd r = f.get_distance(w2c);
                    c.check(r.size() == 2 and f.get_feature_part_count() == 2, "parts", "%d residuals, %zu parts", int(r.size()), f.get_feature_part_count());
                    if (side > 0)
                        c.check((r - e).norm() < 1e-4 or (r + e).norm() < 1e-4, "residual", "residual (%g %g), expected (%g %g)", r(0), r(1), e.x(), e.y());
                    const bool in = side > 0 and std::abs(dx) + std::abs(dy) <= 3.0;
                    if (std::abs(std::abs(dx) + std::abs(dy) - 3.0) < 2e-4)
                        continue;
                    c.check(f.is_inlier(w2c) == in, side > 0 ? "inlier" : "behind", "a point at (%g %g %g) of the camera, %g %g pixels off, is %san inlier", cam.x(), cam.y(), cam.z(), dx, dy, in ? "not " : "");
                    c.outcome(side < 0 ? "behind the camera" : in ? "inlier" : "outlier");
                    c.check(f._idInMap == 7 and f._detectedFeatureId == 3 and f.is_valid() and f.get_feature_type() == FeatureType::Point, "identity", "map id %zu, detection %zu", f._idInMap, f._detectedFeatureId);
                }
        }
    c.state(mc::mix(idx, 1));
}

void run_points2d(mc::Ctx& c, const uint64_t idx)
{
    mc::Dec d(idx);
    const matrix33 R = rotations()[d(rotations().size())];
    const vector3 t = where()[d(where().size())];
    const CameraToWorldMatrix c2w0 = utils::compute_camera_to_world_transform(quat(R), t);
    static const vector3 moves[5] = {vector3(0, 200, 0), vector3(0, 0, -300), vector3(-100, 100, 100), vector3(150, -250, 30), vector3(-300, 5, 0)};
    static const double turns[3] = {0, 0.1, -0.07};
    for (const vector2 px: {vector2(200, 150), vector2(500, 100), vector2(320, 400), vector2(100, 440)})
        for (const vector3& m: moves)
            for (const double a: turns)
            {
                const matrix33 R1 = R * rodrigues(vector3(0.3, 1, -0.5), a);
                const vector3 t1 = t + R * m;
                const matrix44 ref = w2c_of(R1, t1);
                const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(quat(R1), t1);
                const InverseDepthWorldPoint p(ScreenCoordinate2D(px), c2w0);
                vector6 dev;
                dev << 1, 1, 1, 1e-4, 0.01, 0.01;
                // image of the ray of the first observation
                const vector3 dir = axes() * R * vector3((px.x() - cfg().cx1) / cfg().fx1, (px.y() - cfg().cy1) / cfg().fy1, 1);
                const vector3 origin = ref_c2w(R, t).block<3, 1>(0, 3);
                // between the depths at 3 standard deviations
                const double id = parameters::detection::inverseDepthBaseline / 2.0;
                const vector3 near = (ref * vector3(origin + dir.normalized() / (id + 3e-4)).homogeneous()).head<3>(), far = (ref * vector3(origin + dir.normalized() / (id - 3e-4)).homogeneous()).head<3>();
                if (near.z() < 100 or far.z() < 100)
                    continue;
                const vector2 a2 = project(near), b2 = project(far);
                if ((a2 - b2).norm() < 1.0)
                    continue;
                const vector2 u = (b2 - a2).normalized(), n(-u.y(), u.x());
                for (const double along: {-0.5, 0.0, 0.7, 1.5})
                    for (const double off: {-40.0, -4.3, -3.5, -2.9, -1.0, 0.0, 0.5, 2.5, 2.99, 3.2, 4.4, 30.0})
                    {
                        const vector2 key = a2 + along * (b2 - a2) + off * n;
                        const vector2 e = off * n + (along - std::max(0.0, std::min(1.0, along))) * (b2 - a2);
                        const Point2dOptimizationFeature f(ScreenCoordinate2D(key), p, dev, 8, 2);
                        c.step();
                        c.trace = mc::fmt("rotation %s position %s pixel %s, camera then moved by %s and turned by %g, keypoint %g from the line of the point\n", str(R).c_str(), str(t).c_str(), str(px).c_str(), str(m).c_str(), a, off);
                        const vectorxd r = f.get_distance(w2c);
                        c.check(r.size() == 2 and f.get_feature_part_count() == 2, "parts", "%d residuals, %zu parts", int(r.size()), f.get_feature_part_count());
                        const double tol = 1e-3 + 1e-5 * (key - a2).norm();
                        c.check((r - e).norm() < tol or (r + e).norm() < tol, "residual-2d", "residual (%g %g), expected (%g %g)", r(0), r(1), e.x(), e.y());
                        const double worst = e.cwiseAbs().maxCoeff();
                        if (std::abs(worst - 3.0) < 1e-2)
                            continue;
                        c.check(f.is_inlier(w2c) == (worst < 3.0), "inlier-2d", "a keypoint at (%g %g) pixels of the line of the point is %s", e.x(), e.y(), f.is_inlier(w2c) ? "an inlier" : "an outlier");
                        c.outcome(worst < 3.0 ? "inlier" : "outlier");
                        c.check(f._idInMap == 8 and f._detectedFeatureId == 2 and f.is_valid() and f.get_feature_type() == FeatureType::Point2d, "identity", "map id %zu, detection %zu", f._idInMap, f._detectedFeatureId);
                    }
            }
    c.state(mc::mix(idx, 2));
}

const std::vector<vector3>& normals()
{
    static const std::vector<vector3> n = {vector3(1, 0, 0), vector3(0, 0, -1), vector3(0, 1, 0), vector3(1, -1, 2).normalized(), vector3(-3, 1, 1).normalized()};
    return n;
}
void run_planes(mc::Ctx& c, const uint64_t idx)
{
    mc::Dec d(idx);
    const matrix33 R = rotations()[d(rotations().size())];
    const vector3 t = where()[d(where().size())];
    const matrix44 ref = w2c_of(R, t), c2w = ref_c2w(R, t);
    const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(quat(R), t);
    for (const vector3& n: normals())
        for (const double dist: {-300.0, 0.0, 50.0, 1200.0, -4000.0})
        {
            // in the camera: the same points
            const vector3 cn = ref.block<3, 3>(0, 0) * n;
            const vector3 on = -dist * n;
            const double cd = -cn.dot((ref * on.homogeneous()).head<3>());
            for (const vector3& axis: {vector3(1, 0, 0), vector3(0, 1, 0), vector3(0, 0, 1)})
                for (const double angle: {0.0, 0.1, -0.15, 0.25, -0.3, 1.0, 3.0})
                    for (const double shift: {-400.0, -50.5, -49.5, 0.0, 20.0, 49.5, 50.5, 400.0})
                    {
                        const vector3 mn = rodrigues(axis, angle) * cn;
                        const double md = cd + shift;
                        const PlaneOptimizationFeature f(PlaneCameraCoordinates(mn, md), PlaneWorldCoordinates(n, dist), vector4(0.1, 0.1, 0.1, 10), 9, 1);
                        c.step();
                        c.trace = mc::fmt("rotation %s position %s plane (%s, %g), detected one turned by %g around %s and shifted by %g\n", str(R).c_str(), str(t).c_str(), str(n).c_str(), dist, angle, str(axis).c_str(), shift);
                        const vectorxd r = f.get_distance(w2c);
                        c.check(r.size() == 3 and f.get_feature_part_count() == 3, "parts", "%d residuals, %zu parts", int(r.size()), f.get_feature_part_count());
                        const vector3 e = md * mn - cd * cn;
                        c.check((r - e).norm() < 1e-5 * (1 + std::abs(md) + std::abs(cd)) or (r + e).norm() < 1e-5 * (1 + std::abs(md) + std::abs(cd)), "residual-plane", "residual %s, expected %s", str(r).c_str(), str(e).c_str());
                        const double worst = (mn - cn).cwiseAbs().maxCoeff();
                        if (std::abs(worst - 0.2) < 1e-4)
                            continue;
                        const bool in = worst < 0.2 and std::abs(shift) < 50;
                        c.check(f.is_inlier(w2c) == in, "inlier-plane", "a plane of which the normal is off by %s and the distance by %g is %san inlier", str(vector3(mn - cn)).c_str(), shift, in ? "not " : "");
                        c.outcome(in ? "inlier" : "outlier");
                        c.check(f._idInMap == 9 and f._detectedFeatureId == 1 and f.is_valid() and f.get_feature_type() == FeatureType::Plane, "identity", "map id %zu, detection %zu", f._idInMap, f._detectedFeatureId);
                    }
        }
    c.state(mc::mix(idx, 3));
}

// variation of a feature, with the random numbers of a new thread
std::vector<feat_ptr> variations(const IOptimizationFeature& f, const int n)
{
    std::vector<feat_ptr> o;
    std::thread t([&] {
        for (int i = 0; i < n; ++i)
            o.push_back(f.compute_random_variation());
    });
    t.join();
    return o;
}

// one execution = one set of deviations (which are null), one scale
void run_variation(mc::Ctx& c, const uint64_t idx)
{
    mc::Dec d(idx);
    const int kind = int(d(3));
    const int mask = int(d(64));
    const double scale = d(2) ? 2.0 : 0.5;
    const int n = 40;
    const auto var = [&](const int i, const double unit) { return (mask >> i) & 1 ? unit * scale : 0.0; };
    c.trace = mc::fmt("kind %d, deviations %x, scale %g\n", kind, mask, scale);
    if (kind == 0)
    {
        if (mask > 7)
            return;
        const vector3 dev(var(0, 3), var(1, 1), var(2, 7));
        const vector3 at(1000, -200, 300);
        const PointOptimizationFeature f(ScreenCoordinate2D(12, 34), WorldCoordinate(at), dev, 5, 6), unit(ScreenCoordinate2D(12, 34), WorldCoordinate(at), dev / scale, 5, 6);
        const auto a = variations(f, n), b = variations(unit, n);
        vector3 low = vector3::Zero(), high = vector3::Zero();
        for (int i = 0; i < n; ++i)
        {
            c.step();
            const auto* p = dynamic_cast<const PointOptimizationFeature*>(a[i].get());
            const auto* q = dynamic_cast<const PointOptimizationFeature*>(b[i].get());
            c.check(p and q, "variation-type", "the variation of a point is something else");
            const PointView v(*p), w(*q);
            c.check(v._idInMap == 5 and v._detectedFeatureId == 6 and v.get_feature_type() == FeatureType::Point, "variation-identity", "variation of another feature");
            c.check((v.matched() - vector2(12, 34)).norm() == 0 and (v.dev() - dev).norm() == 0, "variation-match", "the observation or the deviations changed");
            const vector3 e = v.map() - at;
            for (int k = 0; k < 3; ++k)
                c.check((e(k) != 0) == (dev(k) > 0) or std::abs(e(k)) < 1e-6 * dev(k), "variation-axis", "axis %d has a deviation of %g and moves by %g", k, dev(k), e(k));
            c.check((e - (w.map() - at) * scale).norm() < 1e-9 * 1000, "variation-scale", "deviations %g times larger change the moves from %s to %s", scale, str(vector3(w.map() - at)).c_str(), str(e).c_str());
            low = low.cwiseMin(e);
            high = high.cwiseMax(e);
        }
        for (int k = 0; k < 3; ++k)
            if (dev(k) > 0)
                c.check(low(k) < -0.5 * dev(k) and high(k) > 0.5 * dev(k) and -low(k) < 6 * dev(k) and high(k) < 6 * dev(k), "variation-spread", "axis %d with a deviation of %g varies from %g to %g", k, dev(k), low(k), high(k));
        c.outcome("point");
    }
    else if (kind == 1)
    {
        vector6 dev;
        dev << var(0, 3), var(1, 3), var(2, 3), var(3, 1e-4), var(4, 0.01), var(5, 0.02);
        // also next to the limits of the angles
        for (const auto& [th0, ph0]: {std::pair(1.2, -0.7), std::pair(0.004, M_PI - 0.005), std::pair(M_PI - 0.004, -M_PI + 0.005)})
        {
        const InverseDepthWorldPoint at(WorldCoordinate(100, 200, 300), 5e-4, th0, ph0);
        const Point2dOptimizationFeature f(ScreenCoordinate2D(12, 34), at, dev, 5, 6);
        const auto a = variations(f, n);
        double low = 0, high = 0;
        for (int i = 0; i < n; ++i)
        {
            c.step();
            const auto* p = dynamic_cast<const Point2dOptimizationFeature*>(a[i].get());
            c.check(p, "variation-type", "the variation of a point is something else");
            const Point2dView v(*p);
            c.check(v._idInMap == 5 and v._detectedFeatureId == 6 and v.get_feature_type() == FeatureType::Point2d, "variation-identity", "variation of another feature");
            c.check((v.matched() - vector2(12, 34)).norm() == 0 and (v.dev() - dev).norm() == 0, "variation-match", "the observation or the deviations changed");
            const double th = v.map().get_theta() - th0, ph = std::remainder(v.map().get_phi() - ph0, 2 * M_PI);
            c.check((dev(4) > 0 or th == 0) and (dev(5) > 0 or std::abs(ph) < 1e-12) and std::abs(th) <= 6 * dev(4) and std::abs(ph) <= 6 * dev(5), "variation-axis", "angles with deviations %g %g vary by %g %g", dev(4), dev(5), th, ph);
            low = std::min(low, th);
            high = std::max(high, th);
        }
        if (dev(4) > 0 and th0 == 1.2)
            c.check(low < -0.5 * dev(4) and high > 0.5 * dev(4), "variation-spread", "an angle with a deviation of %g varies from %g to %g", dev(4), low, high);
        }
        c.outcome("point of unknown depth");
    }
    else
    {
        if (mask > 15)
            return;
        const vector4 dev(var(0, 0.02), var(1, 0.01), var(2, 0.05), var(3, 7));
        const vector3 no = vector3(1, -1, 2).normalized();
        const PlaneOptimizationFeature f(PlaneCameraCoordinates(vector3(0, 0, 1), 50), PlaneWorldCoordinates(no, -700), dev, 5, 6), unit(PlaneCameraCoordinates(vector3(0, 0, 1), 50), PlaneWorldCoordinates(no, -700), vector4(dev / scale), 5, 6);
        const auto a = variations(f, n), b = variations(unit, n);
        double low = 0, high = 0;
        for (int i = 0; i < n; ++i)
        {
            c.step();
            const auto* p = dynamic_cast<const PlaneOptimizationFeature*>(a[i].get());
            const auto* q = dynamic_cast<const PlaneOptimizationFeature*>(b[i].get());
            c.check(p and q, "variation-type", "the variation of a plane is something else");
            const PlaneView v(*p), w(*q);
            c.check(v._idInMap == 5 and v._detectedFeatureId == 6 and v.get_feature_type() == FeatureType::Plane, "variation-identity", "variation of another feature");
            c.check((v.matched().get_normal() - vector3(0, 0, 1)).norm() == 0 and v.matched().get_d() == 50 and (v.dev() - dev).norm() == 0, "variation-match", "the observation or the deviations changed");
            const vector3 vn = v.map().get_normal();
            c.check(std::abs(vn.norm() - 1) < 1e-9, "variation-normal", "normal of norm %g", vn.norm());
            if (dev.head<3>().norm() == 0)
                c.check((vn - no).norm() < 1e-12, "variation-axis", "the normal has no deviation and moves by %s", str(vector3(vn - no)).c_str());
            else
                c.check((vn - no).norm() < 6 * dev.head<3>().norm() and (vn - no).norm() > 0, "variation-axis", "the normal with deviations %s moves by %s", str(vector3(dev.head<3>())).c_str(), str(vector3(vn - no)).c_str());
            const double e = v.map().get_d() + 700, eu = w.map().get_d() + 700;
            c.check(std::abs(e - scale * eu) < 1e-9 and (dev(3) > 0 or e == 0), "variation-scale", "the distance with a deviation of %g moves by %g (by %g with the unit deviation)", dev(3), e, eu);
            low = std::min(low, e);
            high = std::max(high, e);
        }
        if (dev(3) > 0)
            c.check(low < -0.5 * dev(3) and high > 0.5 * dev(3) and -low < 6 * dev(3) and high < 6 * dev(3), "variation-spread", "the distance with a deviation of %g varies from %g to %g", dev(3), low, high);
        c.outcome("plane");
    }
    c.state(mc::mix(idx, 4));
}

// every component not a number in turn, every deviation negative in turn
void run_validity(mc::Ctx& c, const uint64_t idx)
{
    mc::Dec d(idx);
    const int kind = int(d(3));
    const int which = int(d(13)); // component, or none
    const bool negative = d(2);
    const double nan = std::nan("");
    const auto v = [&](const int i, const double x) { return (which == i) ? (negative ? -1.0 : nan) : x; };
    bool valid = true;
    c.trace = mc::fmt("kind %d, component %d, %s\n", kind, which, negative ? "negative" : "not a number");
    c.step();
    if (kind == 0)
    {
        const PointOptimizationFeature f(ScreenCoordinate2D(v(0, 1), v(1, 2)), WorldCoordinate(v(2, 3), v(3, 4), v(4, 5)), vector3(v(5, 1), v(6, 0), v(7, 2)), 1, 0);
        valid = negative ? which < 5 or which > 7 : which > 7;
        c.check(f.is_valid() == valid, "valid-point", "component %d %s: the point is %s", which, negative ? "negative" : "not a number", f.is_valid() ? "valid" : "invalid");
    }
    else if (kind == 1)
    {
        vector6 dev;
        for (int i = 0; i < 6; ++i)
            dev(i) = v(2 + i, 0.01 * i);
        const InverseDepthWorldPoint at(WorldCoordinate(100, 200, 300), 5e-4, 1.2, -0.7);
        const Point2dOptimizationFeature f(ScreenCoordinate2D(v(0, 1), v(1, 2)), at, dev, 1, 0);
        valid = negative ? which < 2 or which > 7 : which > 7;
        c.check(f.is_valid() == valid, "valid-2d", "component %d %s: the point is %s", which, negative ? "negative" : "not a number", f.is_valid() ? "valid" : "invalid");
    }
    else
    {
        const auto plane = [](auto p, const double x, const double y, const double z, const double w) {
            p.normal() = vector3(x, y, z);
            p.d() = w;
            return p;
        };
        const PlaneOptimizationFeature f(plane(PlaneCameraCoordinates(), v(0, 0), v(1, 0), v(2, 1), v(3, 40)), plane(PlaneWorldCoordinates(), v(4, 0), v(5, 1), v(6, 0), v(7, 40)), vector4(v(8, 0), v(9, 1), v(10, 0.1), v(11, 2)), 1, 0);
        valid = negative ? which < 8 or which > 11 : which > 11;
        c.check(f.is_valid() == valid, "valid-plane", "component %d %s: the plane is %s", which, negative ? "negative" : "not a number", f.is_valid() ? "valid" : "invalid");
    }
    c.outcome(valid ? "valid" : "invalid");
    c.state(mc::mix(idx, 5));
}

// the documented number of features of a kind is enough, one less is not; mixtures count for their share
void run_scores(mc::Ctx& c, const uint64_t idx)
{
    mc::Dec d(idx);
    const int n[3] = {int(d(9)), int(d(9)), int(d(6))};
    const InverseDepthWorldPoint at(WorldCoordinate(100, 200, 300), 5e-4, 1.2, -0.7);
    const PointOptimizationFeature p(ScreenCoordinate2D(1, 2), WorldCoordinate(1, 2, 3), vector3::Ones(), 1, 0);
    const Point2dOptimizationFeature q(ScreenCoordinate2D(1, 2), at, vector6::Ones(), 1, 0);
    const PlaneOptimizationFeature r(PlaneCameraCoordinates(vector3(0, 0, 1), 50), PlaneWorldCoordinates(vector3(0, 0, 1), 50), vector4::Ones(), 1, 0);
    double sum = 0;
    for (int i = 0; i < n[0]; ++i)
        sum += p.get_score();
    for (int i = 0; i < n[1]; ++i)
        sum += q.get_score();
    for (int i = 0; i < n[2]; ++i)
        sum += r.get_score();
    c.step();
    c.trace = mc::fmt("%d points, %d points of unknown depth, %d planes\n", n[0], n[1], n[2]);
    const int p15 = 3 * (n[0] + n[1]) + 5 * n[2]; // in fifteenth
    const bool mixed = (n[0] > 0) + (n[1] > 0) + (n[2] > 0) > 1;
    if (not(mixed and p15 == 15)) // no statement on the rounding of mixtures that sum exactly to one
        c.check((sum >= 1.0) == (p15 >= 15), "score", "score %.17g with %d points, %d points of unknown depth and %d planes", sum, n[0], n[1], n[2]);
    c.check(std::abs(sum - p15 / 15.0) < 1e-9, "score", "score %.17g with %d points, %d points of unknown depth and %d planes", sum, n[0], n[1], n[2]);
    c.outcome(sum >= 1.0 ? "enough" : "not enough");
    c.state(mc::mix(idx, 6));
}
} // namespace

int main(int argc, char** argv)
{
    if (not load_config(cfg()))
        return 2;
    const uint64_t poses = rotations().size() * where().size();
    std::vector<mc::Family> f;
    f.push_back({"points", [=](bool) { return poses; }, run_points, 60, 1});
    f.push_back({"points-2d", [=](bool) { return poses; }, run_points2d, 60, 1});
    f.push_back({"planes", [=](bool) { return poses; }, run_planes, 60, 1});
    f.push_back({"variation", [](bool) { return uint64_t(3 * 64 * 2); }, run_variation, 60, 8});
    f.push_back({"validity", [](bool) { return uint64_t(3 * 13 * 2); }, run_validity, 60, 8});
    f.push_back({"scores", [](bool) { return uint64_t(9 * 9 * 6); }, run_scores, 60, 32});
    return mc::main_(argc, argv, f);
}
