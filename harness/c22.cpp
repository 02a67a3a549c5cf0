// C22: what is detected in a frame does not depend on the schedule of the worker threads
#include "room.hpp"
#include "scene.hpp"
#include "sched.hpp"
#include "features/keypoints/keypoint_detection.hpp"
#include "features/primitives/depth_map_transformation.hpp"
#include "features/primitives/primitive_detection.hpp"
#include "rgbd_slam.hpp"
#include "utils/covariances.hpp"
#include "utils/polygon.hpp"
#include <algorithm>
#include <ctime>
#include <map>
#include <sys/stat.h>
#include <thread>

using namespace scene;
using namespace rgbd_slam::features;
using primitives::Depth_Map_Transformation;

namespace {

struct Shape
{
    int workers, mode, bound;
};

// a schedule is explored by slices, one execution of the harness per slice
struct Slices
{
    uint64_t n;
    uint64_t slice(mc::Dec& d) const { return d(n); }
};
std::string race_text(const Shape& s) { return mc::fmt("%d workers, sharing %d\nschedule: %s\n", s.workers, s.mode, sched::schedule().c_str()); }

template<class Prepare, class Execute, class Check>
void explore(mc::Ctx& ctx, const Shape& s, const uint64_t slice, const uint64_t slices, const std::string& what, const Prepare& prepare, const Execute& execute, const Check& check)
{
    sched::Options o;
    o.workers = s.workers;
    o.mode = s.mode;
    o.bound = s.bound;
    o.casPoints = true;
    const uint64_t n = sched::explore(o, slice, slices, prepare, execute, [&] {
        ctx.step(sched::decisions() + 1);
        ctx.trace = what + "\n" + race_text(s);
        ctx.check(sched::race().empty(), "race", "data race: %s", sched::race().c_str());
        check();
        ctx.state(mc::mix(mc::mixs(0, what), mc::mixs(uint64_t(s.workers * 8 + s.mode), sched::schedule())));
    });
    ctx.count("schedules", n);
}

// ---- alignment of the depth image: the rows meet in the pixels of the colour image
// the depth camera sees the same pixels several times: its focal length is larger
const Cfg folding = {8, 6, 20, 20, 4, 3, 8, 6, 50, 60, 4, 3, {0, 0, 0}, {0, 0, 0}};
constexpr int alignWidth = 5, alignHeight = 6;
cv::Mat_<float> expected_alignment(const Cfg& c, const cv::Mat_<float>& img)
{
    cv::Mat_<float> out = cv::Mat_<float>::zeros(img.rows, img.cols);
    for (int v = 0; v < img.rows; ++v)
        for (int u = 0; u < img.cols; ++u)
        {
            const double z = img(v, u);
            if (z <= 0)
                continue;
            const int x = int(std::floor((u - c.cx2) / c.fx2 * c.fx1 + c.cx1 + 0.5)), y = int(std::floor((v - c.cy2) / c.fy2 * c.fy1 + c.cy1 + 0.5));
            if (x >= 0 and y >= 0 and x < img.cols and y < img.rows and (out(y, x) <= 0 or float(z) < out(y, x)))
                out(y, x) = float(z);
        }
    return out;
}
const Shape alignShapes[] = {{6, 1, 1}, {2, 0, 2}, {3, 0, 1}, {2, 2, 1}, {2, 1, 2}};
const Shape alignDeep[] = {{6, 1, 2}, {2, 0, 3}, {3, 0, 2}, {2, 2, 2}, {2, 1, 3}, {3, 2, 2}};
void run_align(mc::Ctx& ctx, const uint64_t idx)
{
    load_config(folding);
    mc::Dec d(idx);
    const Shape s = ctx.thorough ? alignDeep[d(6)] : alignShapes[d(5)];
    // order of the depths of the rows, and which rows have holes
    int rank[alignHeight] = {0, 1, 2, 3, 4, 5};
    for (int i = 0; i < alignHeight - 1; ++i)
    {
        const int limit = i < 3 ? 0 : alignHeight - i; // permutations of the last three rows: those that meet in one pixel
        if (limit)
            std::swap(rank[i], rank[i + int(d(uint64_t(limit)))]);
    }
    const int holes = int(d(4));
    cv::Mat_<float> img(alignHeight, alignWidth);
    for (int v = 0; v < alignHeight; ++v)
        for (int u = 0; u < alignWidth; ++u)
            img(v, u) = u < 2 or (holes == 1 and (u + v) % 3 == 0) or (holes == 2 and v == 4) ? 0.f : (holes == 3 and (u + v) % 2) ? 400.f + 10.f * float(rank[v]) : 1000.f + 100.f * float(rank[v]) + float(u);
    const cv::Mat_<float> want = expected_alignment(folding, img);
    Depth_Map_Transformation t(alignWidth, alignHeight, 2);
    cv::Mat_<float> got;
    bool ok = false;
    std::string rows = "depths of the rows:";
    for (const int k: rank)
        rows += mc::fmt(" %d", k);
    rows += mc::fmt(", holes %d", holes);
    explore(
            ctx, s, 0, 1, rows, [&] { got.release(); }, [&] { ok = t.rectify_depth(img, got); },
            [&] {
                ctx.check(ok and got.size() == img.size(), "align", "no aligned image");
                for (int v = 0; v < alignHeight; ++v)
                    for (int u = 0; u < alignWidth; ++u)
                        ctx.check(std::abs(got(v, u) - want(v, u)) < 1e-3, "align", "pixel (%d %d): depth %g, the closest point has %g", u, v, got(v, u), want(v, u));
                ctx.outcome("aligned");
            });
}

// ---- cloud of points
void run_cloud(mc::Ctx& ctx, const uint64_t idx)
{
    static const Shape shapes[] = {{8, 1, 1}, {2, 0, 2}, {3, 1, 1}, {2, 2, 1}};
    mc::Dec d(idx);
    Shape s = shapes[d(4)];
    if (ctx.thorough)
        s.bound += 1;
    const int cellSize = int(d(4)) + 1, kind = int(d(4));
    load_config(folding);
    const int w = 7, h = 8;
    cv::Mat_<float> img(h, w);
    for (int v = 0; v < h; ++v)
        for (int u = 0; u < w; ++u)
        {
            const uint32_t r = hash2(uint32_t(u), uint32_t(v), uint32_t(kind));
            img(v, u) = kind == 0 ? 800.f : r % 4 == 0 ? 0.f : 500.f + float(r % 1000);
        }
    Depth_Map_Transformation t {uint(w), uint(h), uint(cellSize)};
    matrixf cloud;
    bool ok = false;
    explore(
            ctx, s, 0, 1, mc::fmt("cells of %d, image %d", cellSize, kind), [&] { cloud = matrixf::Constant(3, 3, 7.f); }, [&] { ok = t.get_organized_cloud_array(img, cloud); },
            [&] {
                ctx.check(ok, "cloud", "no cloud");
                for (int y = 0; y < h / cellSize * cellSize; ++y)
                    for (int x = 0; x < w / cellSize * cellSize; ++x)
                    {
                        const long k = long((y / cellSize) * (w / cellSize) + x / cellSize) * cellSize * cellSize + y % cellSize * cellSize + x % cellSize;
                        const double z = img(y, x);
                        const vector3 want = z > 0 ? vector3((x - folding.cx1) / folding.fx1 * z, (y - folding.cy1) / folding.fy1 * z, z) : vector3(0, 0, 0);
                        ctx.check(near(vector3(cloud(k, 0), cloud(k, 1), cloud(k, 2)), want, 1e-3), "cloud", "the pixel (%d %d) of depth %g is the point (%g %g %g)", x, y, z, cloud(k, 0), cloud(k, 1), cloud(k, 2));
                    }
                ctx.outcome("cloud");
            });
}

// ---- planes
const Cfg small = {320, 240, 275, 275, 160, 120, 320, 240, 275, 275, 160, 120, {0, 0, 0}, {0, 0, 0}};
constexpr int W = 12, H = 8;
constexpr int size = 20;
struct Scene
{
    Layout l;
    cv::Mat_<float> img;
};
const std::vector<Scene>& scenes()
{
    static std::vector<Scene> out;
    if (not out.empty())
        return out;
    const std::vector<Pl> planes = {plane_at(0.3, 0.4, 1500), plane_at(0.35, 2.2, 1900), plane_at(0.45, 4.0, 1200)};
    for (int k = 0; k < 4; ++k)
    {
        Layout l(W, H);
        for (int y = 0; y < H; ++y)
            for (int x = 0; x < W; ++x)
                l.at(x, y) = k == 0   ? 0
                             : k == 1 ? (x < 6 ? 0 : 1)
                             : k == 2 ? (x > 1 and x < 9 and y > 1 and y < 6 ? 2 : -1)
                                      : (y < 4 ? (x < 4 ? 0 : 1) : (x < 8 ? 2 : -1));
        out.push_back({l, render(small, l, planes, 0.5)});
    }
    return out;
}
struct Seen
{
    std::vector<std::string> planes;
    std::vector<double> areas;
};
Seen look(const primitives::plane_container& planes)
{
    std::vector<std::pair<std::string, double>> a;
    for (const auto& p: planes)
        a.push_back({mc::fmt("%.7f %.7f %.7f %.5f", p.get_normal().x(), p.get_normal().y(), p.get_normal().z(), p.get_d()), p.get_boundary_polygon().get_area()});
    std::sort(a.begin(), a.end());
    Seen s;
    for (const auto& [n, v]: a)
    {
        s.planes.push_back(n);
        s.areas.push_back(v);
    }
    return s;
}
void run_planes(mc::Ctx& ctx, const uint64_t idx)
{
    static const Shape shapes[] = {{8, 1, 1}, {3, 0, 1}, {2, 2, 1}};
    constexpr uint64_t slices = 16;
    mc::Dec d(idx);
    const uint64_t slice = d(slices);
    Shape s = shapes[d(3)];
    if (ctx.thorough)
        s.bound += 1;
    const size_t k = d(scenes().size());
    sched::use_for_opencv();
    load_config(small);
    Depth_Map_Transformation t {uint(W * size), uint(H * size), uint(size)};
    const cv::Mat_<float>& img = scenes()[k].img;
    matrixf cloud;
    ctx.check(t.get_organized_cloud_array(img, cloud), "cloud", "no cloud");
    // without threads
    primitives::plane_container planes;
    primitives::cylinder_container cylinders;
    sched::begin(sched::Options());
    {
        srand(1);
        primitives::Primitive_Detection alone {uint(W * size), uint(H * size)};
        alone.find_primitives(cloud, img, planes, cylinders);
    }
    const Seen want = look(planes);
    ctx.check(not want.planes.empty(), "planes", "no plane at all");
    primitives::Primitive_Detection detection {uint(W * size), uint(H * size)};
    explore(
            ctx, s, slice, slices, mc::fmt("scene %d", int(k)),
            [&] {
                planes.clear();
                cylinders.clear();
                srand(1);
            },
            [&] { detection.find_primitives(cloud, img, planes, cylinders); },
            [&] {
                const Seen got = look(planes);
                ctx.check(got.planes == want.planes, "planes", "%d planes instead of %d, or others (first: %s instead of %s)", int(got.planes.size()), int(want.planes.size()),
                          got.planes.empty() ? "-" : got.planes[0].c_str(), want.planes[0].c_str());
                for (size_t i = 0; i < got.areas.size(); ++i)
                    ctx.check(std::abs(got.areas[i] - want.areas[i]) <= 1e-6 * want.areas[i], "limits", "area %g instead of %g", got.areas[i], want.areas[i]);
                ctx.outcome(mc::fmt("%d planes", int(want.planes.size())));
            });
}

// ---- keypoints
room::Camera cam = {320, 240, 275, 275, 160, 120};
struct PointSet
{
    std::vector<std::array<double, 3>> points;
    std::map<std::array<double, 3>, std::string> descriptors;
};
PointSet look(const keypoints::Keypoint_Handler& h)
{
    PointSet s;
    for (uint i = 0; i < h.get_keypoint_count(); ++i)
    {
        const auto k = h.get_keypoint(i);
        const std::array<double, 3> p = {k.x(), k.y(), k.z()};
        s.points.push_back(p);
        if (h.is_descriptor_computed(i))
        {
            const cv::Mat desc = h.get_descriptor(i);
            s.descriptors[p] = std::string(reinterpret_cast<const char*>(desc.data), size_t(desc.cols) * desc.elemSize());
        }
    }
    std::sort(s.points.begin(), s.points.end());
    return s;
}
void run_points(mc::Ctx& ctx, const uint64_t idx)
{
    static const Shape shapes[] = {{9, 1, 1}, {2, 0, 2}, {3, 2, 1}};
    mc::Dec d(idx);
    Shape s = shapes[d(3)];
    if (ctx.thorough)
        s.bound += 1;
    const int tracked = int(d(3));
    const int texture = int(d(2));
    load_config(small);
    static const room::Room ro = room::panels();
    static std::map<int, room::Frame> frames;
    if (frames.empty())
        for (int i = 0; i < 2; ++i)
            frames[i] = ro.render(cam, matrix33::Identity(), vector3(15.0 * i, 0, 0));
    cv::Mat grays[2];
    for (int i = 0; i < 2; ++i)
    {
        cv::cvtColor(frames[i].rgb, grays[i], cv::COLOR_BGR2GRAY);
        if (texture == 1)
            grays[i].colRange(0, 130).setTo(90); // windows without any point
    }
    const auto once = [&](keypoints::Key_Point_Extraction& e) {
        keypoints::KeypointsWithIdStruct last;
        const auto first = e.compute_keypoints(grays[0], frames[0].depth, last);
        if (tracked == 0)
            return first;
        // in an order of their own: the order of the result may depend on the schedule
        const PointSet all = look(first);
        for (size_t i = 0; i < all.points.size(); i += size_t(tracked))
            last.add(i + 1, all.points[i][0], all.points[i][1]);
        return e.compute_keypoints(grays[1], frames[1].depth, last, tracked == 2);
    };
    PointSet want;
    {
        sched::begin(sched::Options());
        keypoints::Key_Point_Extraction e;
        want = look(once(e));
    }
    ctx.check(want.points.size() > 20, "points", "only %d points", int(want.points.size()));
    PointSet got;
    std::unique_ptr<keypoints::Key_Point_Extraction> e;
    explore(
            ctx, s, 0, 1, mc::fmt("tracked %d, texture %d", tracked, texture), [&] { e = std::make_unique<keypoints::Key_Point_Extraction>(); }, [&] { got = look(once(*e)); },
            [&] {
                ctx.check(got.points == want.points, "points", "%d points instead of %d, or others", int(got.points.size()), int(want.points.size()));
                ctx.check(got.descriptors == want.descriptors, "descriptors", "other descriptors");
                ctx.outcome(mc::fmt("%d points", int(want.points.size())));
            });
}

// ---- whole frames
struct Scratch
{
    std::string d;
    Scratch() : d(mc::fmt("./slam-%d", int(getpid())))
    {
        mkdir(d.c_str(), 0700);
        if (chdir(d.c_str()) != 0)
            abort();
    }
    ~Scratch()
    {
        unlink("out.obj");
        unlink("out.xyz");
        if (chdir("..") == 0)
            rmdir(d.c_str());
    }
};
void run_frames(mc::Ctx& ctx, const uint64_t idx)
{
    static const Shape shapes[] = {{3, 1, 1}, {9, 1, 0}, {2, 0, 0}, {9, 1, 0}, {3, 1, 0}, {2, 0, 0}, {3, 2, 0}, {2, 0, 1}, {3, 1, 1}};
    static const int lengths[] = {1, 1, 1, 2, 2, 2, 3, 1, 2};
    // the first shape has 40 slices, those without interventions one
    mc::Dec d(idx);
    uint64_t slices = 40, slice = idx, k = 0;
    if (idx >= 40 and idx < 46)
    {
        slices = 1;
        slice = 0;
        k = idx - 39;
    }
    else if (idx >= 46)
    {
        slice = (idx - 46) % 40;
        k = 7 + (idx - 46) / 40;
    }
    const Shape s = shapes[k];
    const int frameCount = lengths[k];
    Scratch scratch;
    load_config(small);
    static const room::Room ro = room::panels();
    static std::vector<room::Frame> frames;
    if (frames.empty())
        for (int i = 0; i < 3; ++i)
            frames.push_back(ro.render(cam, matrix33::Identity(), vector3(15.0 * i, 0, 0)));
    std::unique_ptr<rgbd_slam::RGBD_SLAM> slam;
    rgbd_slam::utils::Pose pose;
    explore(
            ctx, s, slice, slices, mc::fmt("%d frames", frameCount),
            [&] {}, // each life of a tracker has a thread of its own: random numbers start anew
            [&] {
                sched::stop();
                std::thread life([&] {
                    srand(1);
                    slam = std::make_unique<rgbd_slam::RGBD_SLAM>(rgbd_slam::utils::Pose(), uint(cam.w), uint(cam.h));
                    // all frames but the last one without threads
                    for (int i = 0; i + 1 < frameCount; ++i)
                        (void) slam->track(frames[size_t(i)].rgb, frames[size_t(i)].depth);
                    sched::start();
                    pose = slam->track(frames[size_t(frameCount - 1)].rgb, frames[size_t(frameCount - 1)].depth);
                    sched::stop();
                });
                life.join();
            },
            [&] {
                ctx.check(pose.get_position().allFinite(), "pose", "not a pose");
                ctx.count("points of preemption", sched::decisions());
                ctx.outcome(mc::fmt("%d frames", frameCount));
            });
}

} // namespace
int main(int argc, char** argv)
{
    sched::use_for_opencv(false);
    std::vector<mc::Family> f;
    f.push_back({"align", [](bool t) { return uint64_t(6 * 4 * (t ? 6 : 5)); }, run_align, 300, 8});
    f.push_back({"cloud", [](bool) { return uint64_t(64); }, run_cloud, 300, 8});
    f.push_back({"planes", [](bool) { return uint64_t(16 * 3 * 4); }, run_planes, 300, 4});
    f.push_back({"points", [](bool) { return uint64_t(18); }, run_points, 300, 1});
    f.push_back({"frames", [](bool t) { return uint64_t(t ? 126 : 46); }, run_frames, 300, 2});
    return mc::main_(argc, argv, f);
}
