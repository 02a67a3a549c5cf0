// C26: cylinders of a depth image are found with their axis and radius
#include "scene.hpp"
#include "features/primitives/cylinder_segment.hpp"
#include "features/primitives/depth_map_transformation.hpp"
#include "features/primitives/plane_segment.hpp"
#include "features/primitives/primitive_detection.hpp"
#include "utils/random.hpp"
#include <thread>

using namespace scene;
using namespace rgbd_slam::features::primitives;

namespace {

const Cfg small = {320, 240, 275, 275, 160, 120, 320, 240, 275, 275, 160, 120, {0, 0, 0}, {0, 0, 0}};
constexpr int W = 16, H = 12;
const double deg = M_PI / 180;

struct Cyl
{
    vector3 axis, centre;
    double radius;
    bool inside; // seen from inside
};

void in_fresh_thread(const std::function<void()>& f)
{
    std::exception_ptr err;
    std::thread th([&] {
        try
        {
            f();
        }
        catch (...)
        {
            err = std::current_exception();
        }
    });
    th.join();
    if (err)
        std::rethrow_exception(err);
}

double depth_of(const Cyl& c, const double u, const double v)
{
    const vector3 r = ray(small, u, v);
    const vector3 a = r - c.axis * r.dot(c.axis), b = -(c.centre - c.axis * c.centre.dot(c.axis));
    const double A = a.dot(a), B = 2 * a.dot(b), C = b.dot(b) - c.radius * c.radius, disc = B * B - 4 * A * C;
    if (disc <= 0 or A <= 0)
        return 0;
    const double z = c.inside ? (-B + std::sqrt(disc)) / (2 * A) : (-B - std::sqrt(disc)) / (2 * A);
    return z;
}

const double radii[] = {200, 300, 450, 600};
struct Case
{
    Cyl c;
    std::string name;
};
Case make(const uint64_t idx)
{
    mc::Dec d(idx);
    const double radius = radii[d(4)];
    const double turn = 15 * double(d(12)) * deg;
    const double tilt = (double(d(3)) - 1) * 15 * deg;
    const double shift = (double(d(3)) - 1) * 0.3;
    const bool inside = d(2);
    Case out;
    out.c.axis = vector3(std::cos(turn) * std::cos(tilt), std::sin(turn) * std::cos(tilt), std::sin(tilt));
    out.c.inside = inside;
    out.c.radius = radius;
    const double depth = inside ? 900 : radius * 2.2 + 200;
    const vector3 side = vector3(-std::sin(turn), std::cos(turn), 0);
    out.c.centre = inside ? vector3(vector3(0, 0, depth - radius) + shift * radius * side) : vector3(vector3(0, 0, depth + radius) + shift * radius * side);
    out.name = mc::fmt("radius %g axis %s centre %s %s", radius, str(out.c.axis).c_str(), str(out.c.centre).c_str(), inside ? "from inside" : "from outside");
    return out;
}

cv::Mat_<float> image_of(const Cyl& c)
{
    cv::Mat_<float> img = cv::Mat_<float>::zeros(H * cell, W * cell);
    for (int v = 0; v < img.rows; ++v)
        for (int u = 0; u < img.cols; ++u)
        {
            const double z = depth_of(c, u, v);
            if (z > 200 and z < 3000)
                img(v, u) = float(z + noise_of(u, v, 4, 0.2));
        }
    return img;
}
double angle_to(const vector3& a, const vector3& b) { return std::acos(std::min(1.0, std::abs(a.dot(b)) / (a.norm() * b.norm()))) / deg; }

// ---- whole detector
void run_scene(mc::Ctx& ctx, const uint64_t idx)
{
    mc::Dec d(idx);
    const int draws = int(d(ctx.thorough ? 8 : 2));
    const Case k = make(d.v);
    load_config(small);
    const cv::Mat_<float> img = image_of(k.c);
    ctx.note("%s, after %d random draws", k.name.c_str(), draws);
    in_fresh_thread([&] {
        srand(1);
        for (int i = 0; i < draws; ++i)
            std::ignore = rgbd_slam::utils::Random::get_random_uint(10);
        Depth_Map_Transformation depth(W * cell, H * cell, cell);
        Primitive_Detection detection(W * cell, H * cell);
        plane_container planes;
        cylinder_container cylinders;
        matrixf cloud;
        ctx.step();
        ctx.check(depth.get_organized_cloud_array(img, cloud), "cloud", "no cloud");
        detection.find_primitives(cloud, img, planes, cylinders);
        if (not k.c.inside)
            ctx.check(cylinders.size() == 1, "cylinder-count", "%d cylinders found instead of one", int(cylinders.size()));
        for (const Cylinder& c: cylinders)
        {
            const double a = angle_to(c._normal, k.c.axis);
            ctx.check(std::abs(c._normal.norm() - 1) < 1e-6 and a < 1.5, "cylinder-axis", "axis %s at %g degrees of the true one", str(c._normal).c_str(), a);
            ctx.check(std::abs(c._radius / k.c.radius - 1) < (k.c.inside ? 0.12 : 0.06), "cylinder-radius", "radius %g instead of %g", c._radius, k.c.radius);
            const Cylinder copy(c);
            ctx.check(near(copy._normal, c._normal, 0) and copy._radius == c._radius, "cylinder-copy", "the copy is another cylinder");
            ctx.check(copy.is_similar(c), "cylinder-similar", "a cylinder is not similar to itself");
        }
        ctx.outcome(mc::fmt("%s: %d planes %d cylinders", k.c.inside ? "inside" : "outside", int(planes.size()), int(cylinders.size())));
    });
    ctx.state(idx);
}

// ---- fit of the segments of one cylinder
void run_segment(mc::Ctx& ctx, const uint64_t idx)
{
    mc::Dec d(idx);
    const int draws = int(d(ctx.thorough ? 8 : 2));
    const Case k = make(d.v);
    load_config(small);
    const cv::Mat_<float> img = image_of(k.c);
    ctx.note("%s, after %d random draws", k.name.c_str(), draws);
    in_fresh_thread([&] {
        for (int i = 0; i < draws; ++i)
            std::ignore = rgbd_slam::utils::Random::get_random_uint(10);
        Plane_Segment::set_static_members(cell, cell * cell);
        Depth_Map_Transformation depth(W * cell, H * cell, cell);
        matrixf cloud;
        ctx.check(depth.get_organized_cloud_array(img, cloud), "cloud", "no cloud");
        std::vector<Plane_Segment> grid;
        grid.reserve(W * H);
        vectorb mask = vectorb::Constant(W * H, false);
        std::vector<int> active;
        for (int c = 0; c < W * H; ++c)
        {
            grid.emplace_back();
            grid.back().init_plane_segment(cloud, uint(c));
            ctx.step();
            if (grid.back().is_planar())
            {
                mask[c] = true;
                active.push_back(c);
            }
        }
        if (active.size() < 12)
        {
            ctx.outcome("too few cells");
            return;
        }
        const Cylinder_Segment seg(grid, mask, uint(active.size()));
        if (seg.get_segment_count() == 0 and k.c.inside)
        {
            ctx.outcome("no segment");
            return;
        }
        ctx.check(seg.get_segment_count() >= 1, "segment-count", "no cylinder from the %d cells of a cylinder", int(active.size()));
        ctx.check(angle_to(seg.get_normal(), k.c.axis) < 1.5, "segment-axis", "axis %s at %g degrees of the true one", str(seg.get_normal()).c_str(), angle_to(seg.get_normal(), k.c.axis));
        const Cylinder_Segment copy(seg);
        ctx.check(copy.get_segment_count() == seg.get_segment_count() and near(copy.get_normal(), seg.get_normal(), 0) and std::abs(copy.get_normal_similarity(seg) - 1) < 1e-9, "segment-copy",
                  "the copy has %u segments instead of %u", copy.get_segment_count(), seg.get_segment_count());
        std::vector<char> taken(active.size(), 0);
        for (uint s = 0; s < seg.get_segment_count(); ++s)
        {
            // inliers: each cell belongs to one segment at most, and maps to the active cells in order
            uint n = 0;
            double mse = 0;
            const vector3 p1 = seg.get_axis1_point(s), p2 = seg.get_axis2_point(s), dir = (p2 - p1) / (p2 - p1).norm();
            for (uint i = 0; i < active.size(); ++i)
            {
                ctx.check(int(seg.get_local_to_global_mapping(i)) == active[i], "segment-mapping", "cell %u of the segment is mapped to %u instead of %d", i, seg.get_local_to_global_mapping(i), active[i]);
                ctx.check(copy.get_local_to_global_mapping(i) == seg.get_local_to_global_mapping(i) and copy.is_inlier_at(s, i) == seg.is_inlier_at(s, i), "segment-copy", "cells of the copy");
                if (not seg.is_inlier_at(s, i))
                    continue;
                ctx.check(not taken[i], "segment-inliers", "a cell is in two segments");
                taken[i] = 1;
                ++n;
                const vector3 q = vector3(grid[size_t(active[i])].get_centroid()) - p1;
                const double e = (q - dir * q.dot(dir)).norm() - seg.get_radius(s);
                mse += e * e;
            }
            ctx.check(n >= 6, "segment-inliers", "a segment of %u cells", n);
            ctx.check(std::abs(seg.get_MSE_at(s) - mse / n) <= 1e-6 * (1 + mse / n), "segment-error", "error %g instead of %g", seg.get_MSE_at(s), mse / n);
            ctx.check(copy.get_MSE_at(s) == seg.get_MSE_at(s) and copy.get_radius(s) == seg.get_radius(s) and near(copy.get_axis1_point(s), p1, 0) and near(copy.get_axis2_point(s), p2, 0) and
                              copy.get_axis_normal(s) == seg.get_axis_normal(s),
                      "segment-copy", "the copy of a segment is different");
            ctx.check(seg.get_radius(s) > 0, "segment-radius", "radius %g", seg.get_radius(s));
            ctx.check(std::abs((p2 - p1).norm() - seg.get_axis_normal(s)) < 1e-9 and angle_to(dir, seg.get_normal()) < 1e-4, "segment-axis", "the points of the axis do not define it");
        }
        ctx.outcome(mc::fmt("%s: %u segments", k.c.inside ? "inside" : "outside", seg.get_segment_count()));
        if (k.c.inside)
            return;
        // the first segment is the largest consensus: the cylinder itself
        ctx.check(std::abs(seg.get_radius(0) / k.c.radius - 1) < 0.06, "segment-radius", "radius %g instead of %g", seg.get_radius(0), k.c.radius);
        {
            const vector3 q = seg.get_axis1_point(0) - k.c.centre;
            const double off = (q - k.c.axis * q.dot(k.c.axis)).norm();
            ctx.check(off < 0.06 * k.c.radius, "segment-centre", "the axis is at %g mm of the true one", off);
        }
        if (seg.get_segment_count() != 1)
            return;
        for (int a = 0; a < 8; ++a)
            for (const double f: {0.0, 0.5, 1.0, 1.5, 3.0})
                for (const double h: {-400.0, 0.0, 300.0})
                {
                    vector3 e1 = k.c.axis.cross(vector3(0, 0, 1));
                    e1 /= e1.norm();
                    const vector3 e2 = k.c.axis.cross(e1);
                    const vector3 q = k.c.centre + h * k.c.axis + f * k.c.radius * (std::cos(a * M_PI / 4) * e1 + std::sin(a * M_PI / 4) * e2);
                    const double want = (f - 1) * k.c.radius, got = seg.get_distance(q);
                    ctx.step();
                    ctx.check(std::abs(got - want) < 0.14 * k.c.radius, "segment-distance", "distance %g instead of %g to the surface", got, want);
                    ctx.check(copy.get_distance(q) == got, "segment-copy", "distance to the copy");
                }
    });
    ctx.state(idx);
}

} // namespace

int main(int argc, char** argv)
{
    cv::setNumThreads(1);
    std::vector<mc::Family> f;
    f.push_back({"scene", [](bool t) { return uint64_t(4 * 12 * 3 * 3 * 2) * (t ? 8 : 2); }, run_scene, 60, 8});
    f.push_back({"segment", [](bool t) { return uint64_t(4 * 12 * 3 * 3 * 2) * (t ? 8 : 2); }, run_segment, 60, 8});
    return mc::main_(argc, argv, f);
}
