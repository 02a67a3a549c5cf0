// C17: the depth image becomes a cloud of points, cell by cell, and is aligned with the colour image
#include "scene.hpp"
#include "features/primitives/depth_map_transformation.hpp"

using namespace scene;
using rgbd_slam::features::primitives::Depth_Map_Transformation;

namespace {

const int widths[] = {20, 40, 41, 59, 60, 64, 85};
const int heights[] = {20, 39, 40, 50, 61};
const uint cells[] = {20, 1, 7, 4};

float depth_at(const int kind, const int u, const int v)
{
    const uint32_t h = hash2(uint32_t(u), uint32_t(v), uint32_t(kind));
    switch (kind)
    {
        case 0: return 1000.0f;
        case 1: return 500.0f + float(h % 30000) / 10.0f;
        case 2: return h % 3 ? 0.0f : 700.0f + float(h % 1000);
        case 3: return h % 5 == 0 ? -10.0f : h % 5 == 1 ? 0.0f : 800.0f + float(u * 13 + v * 7);
        default: return 0.0f;
    }
}

// ---- cloud of points
void run_cloud(mc::Ctx& ctx, const uint64_t idx)
{
    mc::Dec d(idx);
    const int w = widths[d(7)], h = heights[d(5)];
    const uint size = cells[d(4)];
    const int kinds[2] = {int(d(5)), int(d(5))};
    const Cfg& c = configs()[d(configs().size())]; // one configuration by process
    load_config(c);
    Depth_Map_Transformation t(uint(w), uint(h), size);
    matrixf cloud;
    const int cw = w / int(size), ch = h / int(size);
    // two frames with the same object and the same array
    for (const int kind: kinds)
    {
        cv::Mat_<float> img(h, w);
        for (int v = 0; v < h; ++v)
            for (int u = 0; u < w; ++u)
                img(v, u) = depth_at(kind, u, v);
        ctx.step();
        ctx.check(t.get_organized_cloud_array(img, cloud), "cloud", "no cloud");
        ctx.check(cloud.rows() >= long(cw * ch) * size * size and cloud.cols() == 3, "cloud-size", "%d points", int(cloud.rows()));
        long filled = 0, wanted = 0;
        for (int y = 0; y < ch; ++y)
            for (int x = 0; x < cw; ++x)
                for (int v = 0; v < int(size); ++v)
                    for (int u = 0; u < int(size); ++u)
                    {
                        const long k = long(y * cw + x) * size * size + v * int(size) + u;
                        const int pu = x * int(size) + u, pv = y * int(size) + v;
                        const double z = img(pv, pu);
                        vector3 want = vector3::Zero();
                        if (z > 0)
                        {
                            want = vector3((pu - c.cx1) / c.fx1 * z, (pv - c.cy1) / c.fy1 * z, z);
                            ++wanted;
                        }
                        const vector3 got(cloud(k, 0), cloud(k, 1), cloud(k, 2));
                        ctx.check(near(got, want, 1e-3), "cloud-point", "image %d x %d, cells of %u: the pixel (%d %d) of depth %g is the point %s instead of %s", w, h, size, pu, pv, z, str(got).c_str(),
                                  str(want).c_str());
                    }
        for (long k = 0; k < cloud.rows(); ++k)
            filled += cloud(k, 2) != 0;
        // what is outside of the grid of cells does not replace points of the grid
        ctx.check(filled >= wanted, "cloud-point", "%ld points instead of %ld", filled, wanted);
        ctx.outcome(w % int(size) or h % int(size) ? "partial cells" : "exact cells");
    }
    ctx.state(idx);
}

// ---- alignment with the colour image
struct Setup
{
    Cfg c;
    int w, h;
};
std::vector<Setup> setups()
{
    std::vector<Setup> out;
    const auto add = [&](const Cfg& c) { out.push_back({c, c.w1, c.h1}); };
    // the same camera: nothing changes
    add({64, 48, 50, 50, 32, 24, 64, 48, 50, 50, 32, 24, {0, 0, 0}, {0, 0, 0}});
    add({64, 48, 51.7, 49.3, 30.2, 25.1, 64, 48, 51.7, 49.3, 30.2, 25.1, {0, 0, 0}, {0, 0, 0}});
    // other intrinsics
    add({64, 48, 50, 50, 32, 24, 64, 48, 60, 58, 30, 25, {0, 0, 0}, {0, 0, 0}});
    add({64, 48, 60, 58, 30, 25, 64, 48, 50, 50, 32, 24, {0, 0, 0}, {0, 0, 0}});
    // displaced
    add({64, 48, 50, 50, 32, 24, 64, 48, 50, 50, 32, 24, {25, 0, 0}, {0, 0, 0}});
    add({64, 48, 50, 50, 32, 24, 64, 48, 50, 50, 32, 24, {-40, 30, 10}, {0, 0, 0}});
    add({64, 48, 50, 50, 32, 24, 64, 48, 50, 50, 32, 24, {300, -200, -700}, {0, 0, 0}});
    // turned
    add({64, 48, 50, 50, 32, 24, 64, 48, 55, 52, 31, 24, {25, -3, 1}, {0.02, -0.05, 0.3}});
    add({64, 48, 50, 50, 32, 24, 64, 48, 50, 50, 32, 24, {0, 0, 0}, {0.5, 0.25, -0.125}});
    // looking back: everything is behind the other camera
    add({64, 48, 50, 50, 32, 24, 64, 48, 50, 50, 32, 24, {0, 0, 0}, {0, 3.14159274, 0}});
    add({64, 48, 50, 50, 32, 24, 64, 48, 50, 50, 32, 24, {0, 0, -1000}, {0, 0, 0}});
    return out;
}
// images of two depths that fold on each other
constexpr int imageKinds = 7;
float rect_depth(const int kind, const int u, const int v)
{
    switch (kind)
    {
        case 4: return ((u / 4 + v / 4) & 1) ? 600.0f : 2500.0f;
        case 5: return (u < 20) ? 500.0f : 3000.0f;
        case 6: return (v > 20 and u > 30) ? 450.0f : 4000.0f;
        default: return depth_at(kind, u, v);
    }
}
void run_rectify(mc::Ctx& ctx, const uint64_t idx)
{
    mc::Dec d(idx);
    const auto all = setups();
    const Setup s = all[d(all.size())];
    const int kind = int(d(imageKinds + 1));
    const int mirror = int(d(4));
    load_config(s.c);
    const matrix44 T = Parameters::get_camera_2_to_camera_1_transformation();
    Depth_Map_Transformation t(uint(s.w), uint(s.h), 16);
    std::vector<cv::Mat_<float>> images;
    if (kind < imageKinds)
    {
        cv::Mat_<float> img(s.h, s.w);
        for (int v = 0; v < s.h; ++v)
            for (int u = 0; u < s.w; ++u)
                img(v, u) = rect_depth(kind, mirror & 1 ? s.w - 1 - u : u, mirror & 2 ? s.h - 1 - v : v);
        images.push_back(img);
    }
    else
    {
        // one pixel alone, everywhere
        for (int v = mirror % 2; v < s.h; v += 2)
            for (int u = mirror / 2; u < s.w; u += 2)
            {
                cv::Mat_<float> img = cv::Mat_<float>::zeros(s.h, s.w);
                img(v, u) = 1000.0f + float(u) + float(v);
                images.push_back(img);
            }
    }
    for (const auto& img: images)
    {
        const double inf = 1e30;
        // nearest of the points that certainly fall on the pixel, and of those that may (limit between two pixels)
        cv::Mat_<double> sure(s.h, s.w, inf), may(s.h, s.w, inf);
        for (int v = 0; v < s.h; ++v)
            for (int u = 0; u < s.w; ++u)
            {
                const double z = img(v, u);
                if (z <= 0)
                    continue;
                vector4 p;
                p << (u - s.c.cx2) / s.c.fx2 * z, (v - s.c.cy2) / s.c.fy2 * z, z, 1;
                const vector3 q = (T * p).head<3>();
                if (q.z() <= 1e-6)
                    continue;
                const double x = q.x() / q.z() * s.c.fx1 + s.c.cx1, y = q.y() / q.z() * s.c.fy1 + s.c.cy1;
                const double tol = 2e-3;
                const int xa = int(std::floor(x + 0.5 - tol)), xb = int(std::floor(x + 0.5 + tol)), ya = int(std::floor(y + 0.5 - tol)), yb = int(std::floor(y + 0.5 + tol));
                for (int a = xa; a <= xb; ++a)
                    for (int b = ya; b <= yb; ++b)
                    {
                        if (a < 0 or b < 0 or a >= s.w or b >= s.h)
                            continue;
                        may(b, a) = std::min(may(b, a), q.z());
                        if (xa == xb and ya == yb)
                            sure(b, a) = std::min(sure(b, a), q.z());
                    }
            }
        cv::Mat_<float> out;
        ctx.step();
        ctx.check(t.rectify_depth(img, out), "rectify", "no aligned image");
        ctx.check(out.rows == s.h and out.cols == s.w, "rectify-size", "size of the aligned image %d x %d", out.cols, out.rows);
        for (int v = 0; v < s.h; ++v)
            for (int u = 0; u < s.w; ++u)
            {
                const double got = out(v, u), a = sure(v, u), b = may(v, u);
                const double tol = 1e-2;
                bool ok = false;
                if (a >= inf)
                    ok = got == 0; // nothing certain there
                else
                    ok = std::abs(got - a) <= tol;
                if (b < inf and not ok)
                    // something may be there: in front of what is certain, or alone
                    ok = got > 0 and got >= b - tol and (a >= inf or got <= a + tol);
                ctx.check(ok, a < inf and got == 0 ? "rectify-lost" : a < inf and got > a ? "rectify-hidden" : "rectify-depth", "the aligned image has %g at (%d %d) instead of %g", got, u, v,
                          a >= inf ? 0 : a);
            }
        ctx.outcome(kind < imageKinds ? mc::fmt("image %d", kind) : "one pixel");
    }
    ctx.state(idx);
}

} // namespace

int main(int argc, char** argv)
{
    cv::setNumThreads(1);
    std::vector<mc::Family> f;
    f.push_back({"cloud", [](bool) { return uint64_t(7 * 5 * 4 * 25) * configs().size(); }, run_cloud, 60, 140});
    f.push_back({"rectify", [](bool) { return uint64_t(setups().size() * (imageKinds + 1) * 4); }, run_rectify, 60, 1});
    return mc::main_(argc, argv, f);
}
