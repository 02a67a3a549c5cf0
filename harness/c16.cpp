// C16: the planes of a depth image are found, once each, with the parameters of their points
#include "scene.hpp"
#include "features/primitives/depth_map_transformation.hpp"
#include "features/primitives/histogram.hpp"
#include "features/primitives/primitive_detection.hpp"
#include "utils/polygon.hpp"
#include <thread>

using namespace scene;
using namespace rgbd_slam::features::primitives;

namespace {

const Cfg small = {320, 240, 275, 275, 160, 120, 320, 240, 275, 275, 160, 120, {0, 0, 0}, {0, 0, 0}};
constexpr int W = 16, H = 12;

struct Found
{
    plane_container planes;
    cylinder_container cylinders;
};

struct Detector
{
    Depth_Map_Transformation depth;
    Primitive_Detection detection;
    Detector(const int w, const int h) : depth(uint(w * cell), uint(h * cell), cell), detection(uint(w * cell), uint(h * cell)) {}
    void run(mc::Ctx& ctx, const cv::Mat_<float>& img, Found& out)
    {
        matrixf cloud;
        ctx.step();
        srand(1); // the hull uses randomised trees
        ctx.check(depth.get_organized_cloud_array(img, cloud), "cloud", "no cloud of points from a depth image");
        detection.find_primitives(cloud, img, out.planes, out.cylinders);
    }
};

// the borders of a region in the plane: 4-eroded border cells
bool is_border(const Layout& l, const std::vector<int>& comp, const int k)
{
    const int x = k % l.w, y = k / l.w;
    const auto in = [&](const int a, const int b) { return a >= 0 and b >= 0 and a < l.w and b < l.h and std::binary_search(comp.begin(), comp.end(), b * l.w + a); };
    return not(in(x - 1, y) and in(x + 1, y) and in(x, y - 1) and in(x, y + 1));
}

struct Want
{
    std::vector<int> cells;
    bool boundary = true; // the limits of the region are known
};

// compares the result of the detector with the regions of the scene
void compare(mc::Ctx& ctx, const Cfg& c, const Layout& l, const cv::Mat_<float>& img, const std::vector<Want>& wanted, const Found& f)
{
    ctx.check(f.planes.size() == wanted.size(), f.planes.size() < wanted.size() ? "plane-missed" : "plane-invented", "%d planes found instead of %d in\n%s", int(f.planes.size()),
              int(wanted.size()), l.str().c_str());
    std::vector<char> used(f.planes.size(), 0);
    for (const Want& w: wanted)
    {
        const Fit ref = fit_cells(c, img, l.w, w.cells);
        int hit = -1;
        double best = 1e300;
        for (size_t i = 0; i < f.planes.size(); ++i)
        {
            if (used[i])
                continue;
            const CameraPolygon& poly = f.planes[i].get_boundary_polygon();
            const double delta = amax(vector3(f.planes[i].get_normal() - ref.n)) * 1000 + std::abs(f.planes[i].get_d() - ref.d) +
                                 1e-3 * (poly.get_center() - f.planes[i].get_center()).norm();
            // several regions may share the same plane: prefer the one whose points are the closest
            const matrix33 inv = ref.second.inverse();
            const double dc = (f.planes[i].get_point_cloud_covariance() - inv).cwiseAbs().maxCoeff() / inv.cwiseAbs().maxCoeff();
            if (delta + dc < best)
            {
                best = delta + dc;
                hit = int(i);
            }
        }
        used[size_t(hit)] = 1;
        const Plane& p = f.planes[size_t(hit)];
        ctx.check(near(p.get_normal(), ref.n, 2e-6) and std::abs(p.get_d() - ref.d) <= 2e-6 * (1000 + ref.d), "plane-parameters",
                  "plane %s d=%.9g instead of the least squares fit %s d=%.9g of its %u points in\n%s", str(p.get_normal()).c_str(), p.get_d(), str(ref.n).c_str(), ref.d, ref.count, l.str().c_str());
        const matrix33 inv = ref.second.inverse(), got = p.get_point_cloud_covariance();
        ctx.check((got - inv).cwiseAbs().maxCoeff() <= 1e-4 * inv.cwiseAbs().maxCoeff(), "plane-covariance", "covariance of the points %s instead of %s (%u points) in\n%s", str(got).c_str(),
                  str(inv).c_str(), ref.count, l.str().c_str());

        // limits
        const CameraPolygon poly = p.get_boundary_polygon();
        const auto boundary = poly.get_unprojected_boundary();
        ctx.check(boundary.size() >= 3, "boundary-size", "limits of %d points", int(boundary.size()));
        const double band = 3 * std::sqrt(ref.mse) + 1e-3;
        bool neighbour = false;
        double minX = 1e9, minY = 1e9, maxX = -1e9, maxY = -1e9;
        for (const vector3& b: boundary)
        {
            ctx.check(std::abs(ref.n.dot(b) + ref.d) <= band, "boundary-plane", "a point of the limits is at %g mm of the plane", ref.n.dot(b) + ref.d);
            const double u = b.x() / b.z() * c.fx1 + c.cx1, v = b.y() / b.z() * c.fy1 + c.cy1;
            minX = std::min(minX, u), maxX = std::max(maxX, u), minY = std::min(minY, v), maxY = std::max(maxY, v);
            if (not w.boundary)
                continue;
            // a vertex is the centre of a cell of the border of the region, or of a cell next to it that lies on the plane
            const double cu = std::floor(u / cell), cv = std::floor(v / cell);
            const int cx = int(cu), cy = int(cv);
            ctx.check(std::abs(u - (cu * cell + cell / 2)) < 1.5 and std::abs(v - (cv * cell + cell / 2)) < 1.5, "boundary-point", "vertex of the limits at pixel (%g %g)", u, v);
            bool ok = false, alone = false;
            for (int dy = -1; dy <= 1; ++dy)
                for (int dx = -1; dx <= 1; ++dx)
                {
                    const int x = cx + dx, y = cy + dy;
                    if (x < 0 or y < 0 or x >= l.w or y >= l.h or cx < 0 or cy < 0 or cx >= l.w or cy >= l.h)
                        continue;
                    const bool mine = std::binary_search(w.cells.begin(), w.cells.end(), y * l.w + x);
                    if (dx == 0 and dy == 0)
                        ok = ok or (mine and is_border(l, w.cells, y * l.w + x));
                    else if (mine and l.at(cx, cy) >= 0 and not std::binary_search(w.cells.begin(), w.cells.end(), cy * l.w + cx))
                        // a neighbour that happens to lie on the plane
                        ok = alone = true;
                }
            neighbour = neighbour or alone;
            ctx.check(ok, "boundary-point", "vertex of the limits at pixel (%g %g), which is not on the border of the region, in\n%s", u, v, l.str().c_str());
        }
        if (not w.boundary)
            continue;
        // extent and area
        int x0 = 1000, x1 = -1, y0 = 1000, y1 = -1;
        for (const int k: w.cells)
        {
            x0 = std::min(x0, k % l.w), x1 = std::max(x1, k % l.w);
            y0 = std::min(y0, k / l.w), y1 = std::max(y1, k / l.w);
        }
        const bool rectangle = int(w.cells.size()) == (x1 - x0 + 1) * (y1 - y0 + 1);
        const auto corner = [&](const int x, const int y) -> vector3 {
            const vector3 r = ray(c, x * cell + cell / 2, y * cell + cell / 2);
            return vector3(r * (-ref.d / ref.n.dot(r)));
        };
        if (rectangle and not neighbour)
        {
            ctx.check(std::abs(minX - (x0 * cell + cell / 2)) < 2 and std::abs(maxX - (x1 * cell + cell / 2)) < 2 and std::abs(minY - (y0 * cell + cell / 2)) < 2 and
                              std::abs(maxY - (y1 * cell + cell / 2)) < 2,
                      "boundary-extent", "the limits go from (%g %g) to (%g %g) for the cells (%d %d) to (%d %d)", minX, minY, maxX, maxY, x0, y0, x1, y1);
            const vector3 a = corner(x0, y0), b = corner(x1, y0), e = corner(x1, y1), g = corner(x0, y1);
            const double area = 0.5 * ((b - a).cross(e - a).norm() + (e - a).cross(g - a).norm());
            ctx.check(poly.get_area() < 1.03 * area and poly.get_area() > 0.45 * area, "boundary-area", "area of the limits %g instead of %g", poly.get_area(), area);
        }
        ctx.outcome(rectangle ? "rectangle" : "other shape");
    }
    ctx.outcome(mc::fmt("%d planes", int(wanted.size())));
}

std::vector<Want> wants(const Layout& l)
{
    std::vector<Want> out;
    for (auto& c: components(l))
        out.push_back({c, true});
    return out;
}

const double deg = M_PI / 180;

// normals in the middle of the cells of any reasonable partition of the directions
std::vector<std::pair<double, double>> directions(const int polars, const int azimuths)
{
    std::vector<std::pair<double, double>> out;
    for (int p = 0; p < polars; ++p)
        for (int a = 0; a < azimuths; ++a)
            out.emplace_back((5 + 9.47 * p) * deg, (-180 + 360.0 * (a + 0.5) / azimuths) * deg);
    return out;
}

// ---- one rectangle, anywhere in the image
std::vector<std::array<int, 4>> rectangles(const bool thorough)
{
    std::vector<std::array<int, 4>> out;
    for (int x0 = 0; x0 < W; ++x0)
        for (int x1 = x0 + 2; x1 <= W; ++x1)
            for (int y0 = 0; y0 < H; ++y0)
                for (int y1 = y0 + 2; y1 <= H; ++y1)
                    if (thorough or ((x0 % 3 == 0 or x0 == W - 2) and (y0 % 3 == 0 or y0 == H - 2) and (x1 == W or (x1 - x0) % 3 == 2) and (y1 == H or (y1 - y0) % 3 == 2)))
                        out.push_back({x0, y0, x1, y1});
    return out;
}
void run_rectangle(mc::Ctx& ctx, const uint64_t idx)
{
    mc::Dec d(idx);
    const auto rects = rectangles(ctx.thorough);
    const auto r = rects[d(rects.size())];
    const int variant = int(d(4));
    load_config(small);
    Layout l(W, H);
    l.fill(r[0], r[1], r[2], r[3], 0);
    const std::vector<std::pair<double, double>> dirs = {{0.02, 0.4}, {0.3, -2.9}, {0.5, 1.0}, {0.4, -1.2}};
    const std::vector<Pl> planes = {plane_at(dirs[variant].first, dirs[variant].second, 1200 + 300 * variant)};
    if (not clearly_visible(small, l, planes))
    {
        ctx.outcome("not visible");
        return;
    }
    ctx.note("cells %d %d to %d %d, direction %d", r[0], r[1], r[2], r[3], variant);
    const cv::Mat_<float> img = render(small, l, planes, variant % 2 ? 0.05 : 0.3);
    Detector det(W, H);
    Found f;
    det.run(ctx, img, f);
    compare(ctx, small, l, img, wants(l), f);
    ctx.check(f.cylinders.empty(), "cylinder-invented", "a cylinder in a flat scene");
    ctx.state(mc::mix(idx, f.planes.size()));
}

// ---- every arrangement of three planes on 3x2 blocks
const std::vector<std::vector<Pl>>& triples()
{
    static const std::vector<std::vector<Pl>> t = {
            {plane_at(5 * deg, 0.3, 1500), plane_at(38 * deg, 2.0, 1600), plane_at(38 * deg, -2.0, 1400)},
            // parallel, separated by steps
            {plane_at(0.1, 1, 1000), plane_at(0.1, 1, 1150), plane_at(0.1, 1, 1400)},
            // corner of a room
            {plane_at(35 * deg, 90 * deg, 2500), plane_at(35 * deg, -90 * deg, 2500), plane_at(30 * deg, 180 * deg, 2500)},
            // the second one has its normals next to the optical axis
            {plane_at(14 * deg, -175 * deg, 1300), plane_at(14 * deg, 5 * deg, 1700), plane_at(40 * deg, 100 * deg, 1500)},
    };
    return t;
}
void run_blocks(mc::Ctx& ctx, const uint64_t idx)
{
    mc::Dec d(idx);
    int letters[6];
    for (int& x: letters)
        x = int(d(4)) - 1;
    const std::vector<Pl>& planes = triples()[ctx.thorough ? d(4) : 3 * d(2)];
    load_config(small);
    Layout l(W, H);
    const int xs[4] = {0, 5, 11, 16}, ys[3] = {0, 6, 12};
    for (int b = 0; b < 6; ++b)
        l.fill(xs[b % 3], ys[b / 3], xs[b % 3 + 1], ys[b / 3 + 1], letters[b]);
    if (not clearly_visible(small, l, planes))
    {
        ctx.outcome("not visible");
        return;
    }
    ctx.note("%s", l.str().c_str());
    const cv::Mat_<float> img = render(small, l, planes, 0.2, 7);
    Detector det(W, H);
    Found f;
    det.run(ctx, img, f);
    compare(ctx, small, l, img, wants(l), f);
    ctx.check(f.cylinders.empty(), "cylinder-invented", "a cylinder in a flat scene");
    ctx.state(mc::mix(idx, f.planes.size()));
}

// ---- every pair of directions
void run_pairs(mc::Ctx& ctx, const uint64_t idx)
{
    mc::Dec d(idx);
    const auto dirs = ctx.thorough ? directions(5, 19) : directions(4, 10);
    const auto a = dirs[d(dirs.size())], b = dirs[d(dirs.size())];
    const int split = int(d(2));
    const std::vector<Pl> planes = {plane_at(a.first, a.second, 1500), plane_at(b.first, b.second, 1600)};
    const double angle = std::acos(std::min(1.0, planes[0].n.dot(planes[1].n)));
    if (angle < 19 * deg)
    {
        ctx.outcome("too close");
        return;
    }
    load_config(small);
    Layout l(W, H);
    if (split)
    {
        l.fill(0, 0, 10, H, 0);
        l.fill(10, 0, W, H, 1);
    }
    else
    {
        l.fill(0, 0, W, 5, 0);
        l.fill(0, 5, W, H, 1);
    }
    if (not clearly_visible(small, l, planes))
    {
        ctx.outcome("not visible");
        return;
    }
    ctx.note("directions %g %g and %g %g degrees\n%s", a.first / deg, a.second / deg, b.first / deg, b.second / deg, l.str().c_str());
    const cv::Mat_<float> img = render(small, l, planes, 0.2, 3);
    Detector det(W, H);
    Found f;
    det.run(ctx, img, f);
    compare(ctx, small, l, img, wants(l), f);
    ctx.state(idx);
}

// ---- steps between two parallel walls: two planes as soon as the step is more than 50 mm
void run_steps(mc::Ctx& ctx, const uint64_t idx)
{
    mc::Dec d(idx);
    const double steps[] = {30, 45, 49, 51, 55, 80, 200};
    const double s = steps[d(7)] * (d(2) ? -1 : 1);
    const int vertical = int(d(2));
    const auto dir = directions(2, 8)[d(16)];
    load_config(small);
    Layout l(W, H);
    if (vertical)
    {
        l.fill(0, 0, 8, H, 0);
        l.fill(8, 0, W, H, 1);
    }
    else
    {
        l.fill(0, 0, W, 6, 0);
        l.fill(0, 6, W, H, 1);
    }
    std::vector<Pl> planes = {plane_at(dir.first, dir.second, 2500), plane_at(dir.first, dir.second, 2500)};
    planes[1].d += s;
    if (not clearly_visible(small, l, planes))
    {
        ctx.outcome("not visible");
        return;
    }
    const cv::Mat_<float> img = render(small, l, planes, 0.1, 5);
    Detector det(W, H);
    Found f;
    det.run(ctx, img, f);
    ctx.note("step of %g mm, direction %g %g", s, dir.first / deg, dir.second / deg);
    std::vector<Want> w;
    if (std::abs(s) > 50)
        w = wants(l);
    else
    {
        Want all;
        for (int k = 0; k < W * H; ++k)
            all.cells.push_back(k);
        all.boundary = false;
        w = {all};
    }
    compare(ctx, small, l, img, w, f);
    ctx.state(idx);
}

// ---- cells whose border cannot be joined, but that belong to the same plane when looked at as a whole
void run_merge(mc::Ctx& ctx, const uint64_t idx)
{
    mc::Dec d(idx);
    const int kind = int(d(6));
    const int flip = int(d(4)); // mirror in x, in y
    const bool transpose = d(2);
    const double slope = (11 + int(d(3))) * deg * (d(2) ? -1 : 1);
    load_config(small);
    Layout l(W, H);
    // A: a ring; B (and C): strips that cross its plane in their middle
    const Pl ring = plane_at(0.0005, 0.3, 2500);
    const auto crossing = [&](const double along, const bool vert) {
        // plane of depth 2500 at the position `along` (mm) of the crossing, tilted by `slope` around the other axis
        Pl p;
        p.n = vert ? vector3(0, std::sin(slope), -std::cos(slope)) : vector3(std::sin(slope), 0, -std::cos(slope));
        const vector3 q = vert ? vector3(0, along, 2500) : vector3(along, 0, 2500);
        p.d = -p.n.dot(q);
        return p;
    };
    const double mm = cell / small.fx1 * 2500; // size of a cell
    std::vector<Pl> planes = {ring};
    std::vector<std::vector<int>> groups; // regions that are one plane
    const auto put = [&](const int x0, const int y0, const int x1, const int y1, const int r) {
        for (int y = y0; y < y1; ++y)
            for (int x = x0; x < x1; ++x)
            {
                int a = x, b = y;
                if (transpose)
                    std::swap(a, b);
                if (flip & 1)
                    a = (transpose ? H : W) - 1 - a;
                if (flip & 2)
                    b = (transpose ? W : H) - 1 - b;
                if (transpose)
                {
                    // the picture is 12 cells wide and high in this case, on the left or on the right of the image
                    if (a < H and b < H)
                        l.at(flip & 1 ? a : W - H + a, b) = r;
                }
                else
                    l.at(a, b) = r;
            }
    };
    const int n = transpose ? H : W; // extent in the direction of the strips
    // position, in mm, of the cell coordinate x (in the direction of the strips)
    const auto pos = [&](const double x) {
        double p = x * cell; // pixels
        if (transpose)
        {
            // strips along y: coordinate b = y after the swap
            if (flip & 2)
                p = n * cell - p;
            return (p - small.cy1) / small.fy1 * 2500;
        }
        if (flip & 1)
            p = n * cell - p;
        return (p - small.cx1) / small.fx1 * 2500;
    };
    (void)mm;
    std::string what;
    if (transpose and (flip & 1))
    {
        // a and b are swapped before the mirrors: keep only the mirrors that this picture distinguishes
    }
    if (kind == 0 or kind == 1)
    {
        // strip in the middle, alone (0) or on the last line (1)
        const int y0 = kind ? (transpose ? 11 : 11) : 4, y1 = kind ? 12 : 10;
        put(0, 0, n, 2, 0);
        put(0, 0, 3, 12, 0);
        put(n - 3, 0, n, 12, 0);
        put(3, y0, n - 3, y1, 1);
        planes.push_back(crossing(pos(n / 2.0), transpose));
        groups = {{0, 1}};
    }
    else if (kind == 2)
    {
        // two strips that touch each other and the ring on both sides
        put(0, 0, n, 2, 0);
        put(0, 0, 2, 12, 0);
        put(n - 2, 0, n, 12, 0);
        const int m = n / 2;
        put(2, 5, m, 10, 1);
        put(m, 5, n - 2, 10, 2);
        planes.push_back(crossing(pos((2 + m) / 2.0), transpose));
        planes.push_back(crossing(pos((m + n - 2) / 2.0), transpose));
        groups = {{0, 1, 2}};
    }
    else if (kind == 3)
    {
        // two strips, only the first one touches the ring
        put(0, 0, n, 2, 0);
        put(0, 0, 2, 12, 0);
        put(n - 1, 0, n, 12, 0);
        const int m = n / 2;
        put(2, 5, m, 10, 1);
        put(m, 5, n - 2, 10, 2);
        planes.push_back(crossing(pos((2 + m) / 2.0), transpose));
        planes.push_back(crossing(pos((m + n - 2) / 2.0), transpose));
        groups = {{0, 1, 2}};
    }
    else if (kind == 5)
    {
        // a bar with an arm on each side, that crosses its plane in its middle
        const int m = n / 2;
        put(m - 2, 0, m + 2, 12, 0);
        put(0, 2, m - 2, 4, 1);
        put(m + 2, 7, n, 9, 2);
        planes.push_back(crossing(pos((m - 2) / 2.0), transpose));
        planes.push_back(crossing(pos((m + 2 + n) / 2.0), transpose));
        groups = {{0, 1, 2}};
    }
    else
    {
        // the strip does not touch the ring: two planes
        put(0, 0, n, 2, 0);
        put(0, 0, 2, 12, 0);
        put(n - 2, 0, n, 12, 0);
        put(3, 5, n - 3, 10, 1);
        planes.push_back(crossing(pos(n / 2.0), transpose));
        groups = {{0}, {1}};
    }
    if (not clearly_visible(small, l, planes))
    {
        ctx.outcome("not visible");
        return;
    }
    // the picture is relevant when the cells at the junctions are more than 50 mm apart, seen from both sides
    const auto centre = [&](const int k) {
        const vector3 r = ray(small, (k % W) * cell + cell / 2, (k / W) * cell + cell / 2);
        const Pl& p = planes[size_t(l.cells[size_t(k)])];
        return vector3(r * (-p.d / p.n.dot(r)));
    };
    const auto distance = [&](const int r, const vector3& q) { return std::abs(planes[size_t(r)].n.dot(q) + planes[size_t(r)].d); };
    for (int k = 0; k < W * H; ++k)
        for (const int m: {k % W + 1 < W ? k + 1 : -1, k / W + 1 < H ? k + W : -1})
        {
            if (m < 0 or l.cells[k] < 0 or l.cells[m] < 0 or l.cells[k] == l.cells[m])
                continue;
            if (distance(l.cells[k], centre(m)) < 53 or distance(l.cells[m], centre(k)) < 53)
            {
                ctx.outcome("junction too smooth");
                return;
            }
        }
    const cv::Mat_<float> img = render(small, l, planes, 0.1, 5);
    std::vector<Want> w;
    for (const auto& g: groups)
    {
        Want x;
        for (int k = 0; k < W * H; ++k)
            if (std::find(g.begin(), g.end(), l.cells[size_t(k)]) != g.end())
                x.cells.push_back(k);
        x.boundary = false;
        w.push_back(x);
    }
    ctx.note("kind %d slope %g\n%s", kind, slope / deg, l.str().c_str());
    // the whole regions must satisfy the conditions for a merge, whichever is looked at first
    if (groups.size() == 1)
    {
        std::vector<Fit> fits;
        for (size_t r = 0; r < planes.size(); ++r)
        {
            std::vector<int> cells;
            for (int k = 0; k < W * H; ++k)
                if (l.cells[size_t(k)] == int(r))
                    cells.push_back(k);
            fits.push_back(fit_cells(small, img, W, cells));
        }
        size_t biggest = 0;
        for (size_t r = 0; r < fits.size(); ++r)
            if (fits[r].count > fits[biggest].count)
                biggest = r;
        if (biggest != 0 or (fits.size() > 2 and fits[0].count < fits[1].count + fits[2].count + 400))
        {
            ctx.outcome("order unknown");
            return;
        }
        for (size_t r = 1; r < fits.size(); ++r)
            if (std::abs(fits[0].n.dot(fits[r].centroid) + fits[0].d) > 40 or fits[0].n.dot(fits[r].n) < std::cos(17 * deg))
            {
                ctx.outcome("not one plane");
                return;
            }
    }
    Detector det(W, H);
    Found f;
    det.run(ctx, img, f);
    if (kind == 3 and f.planes.size() == 2)
    {
        // whether the last strip is reached through the other one is not specified
        w.resize(2);
        for (auto& x: w)
            x.cells.clear();
        for (int k = 0; k < W * H; ++k)
            if (l.cells[size_t(k)] >= 0)
                w[l.cells[size_t(k)] == 2].cells.push_back(k);
    }
    compare(ctx, small, l, img, w, f);
    if (kind == 5)
        // the limits are those of all the parts
        for (int r = 0; r < 3; ++r)
        {
            bool found = false;
            for (const vector3& b: f.planes[0].get_boundary_polygon().get_unprojected_boundary())
            {
                const int x = int(std::floor((b.x() / b.z() * small.fx1 + small.cx1) / cell)), y = int(std::floor((b.y() / b.z() * small.fy1 + small.cy1) / cell));
                bool inside = x >= 0 and y >= 0 and x < W and y < H and l.at(x, y) == r;
                // a cell at the junction can belong to the limits of its neighbour
                for (int k = 0; inside and k < 9; ++k)
                {
                    const int a = x - 1 + k % 3, b = y - 1 + k / 3;
                    if (a >= 0 and b >= 0 and a < W and b < H and l.at(a, b) >= 0 and l.at(a, b) != r)
                        inside = false;
                }
                found = found or inside;
            }
            ctx.check(found, "boundary-parts", "no corner of the limits is in the part %d of the plane in\n%s", r, l.str().c_str());
        }
    ctx.outcome(mc::fmt("kind %d", kind));
    ctx.state(idx);
}

// ---- frames after frames: what was seen before has no influence
struct Scene
{
    const char* name;
    cv::Mat_<float> img;
};
std::vector<Scene> scenes()
{
    std::vector<Scene> out;
    const auto& t = triples();
    Layout e(W, H);
    out.push_back({"nothing", render(small, e, t[0], 0)});
    Layout full(W, H);
    full.fill(0, 0, W, H, 0);
    out.push_back({"wall", render(small, full, t[0], 0.2, 1)});
    Layout two(W, H);
    two.fill(0, 0, 8, H, 0);
    two.fill(8, 0, W, H, 1);
    out.push_back({"two walls", render(small, two, t[0], 0.2, 2)});
    Layout three(W, H);
    three.fill(0, 0, 5, H, 2);
    three.fill(5, 0, 11, 7, 1);
    three.fill(11, 3, W, H, 0);
    out.push_back({"three planes", render(small, three, t[3], 0.2, 2)});
    Layout corner(W, H);
    corner.fill(12, 8, W, H, 0);
    out.push_back({"corner", render(small, corner, t[1], 0.2, 2)});
    // cylinder in front of the camera
    cv::Mat_<float> cyl = cv::Mat_<float>::zeros(H * cell, W * cell);
    for (int v = 0; v < cyl.rows; ++v)
        for (int u = 0; u < cyl.cols; ++u)
        {
            // axis parallel to y, at (0, 1400), radius 500: |r.x z, z - 1400| = 500
            const vector3 r = ray(small, u, v);
            const double a = r.x() * r.x() + 1, b = -2 * 1400, q = 1400.0 * 1400 - 500.0 * 500, disc = b * b - 4 * a * q;
            if (disc <= 0)
                continue;
            const double z = (-b - std::sqrt(disc)) / (2 * a);
            cyl(v, u) = float(z + noise_of(u, v, 4, 0.05));
        }
    out.push_back({"cylinder", cyl});
    cv::Mat_<float> rough = render(small, full, t[0], 60, 9);
    out.push_back({"noise", rough});
    return out;
}
void signature(const Found& f, std::string& s)
{
    for (const Plane& p: f.planes)
    {
        const matrix33 c = p.get_point_cloud_covariance();
        s += mc::fmt("plane %s %.17g cov %s", str(p.get_normal()).c_str(), p.get_d(), str(c).c_str());
        std::vector<std::string> pts;
        for (const vector3& b: p.get_boundary_polygon().get_unprojected_boundary())
            pts.push_back(str(b));
        std::sort(pts.begin(), pts.end());
        for (const auto& x: pts)
            s += " " + x;
        s += "\n";
    }
    for (const Cylinder& c: f.cylinders)
        s += mc::fmt("cylinder %s %.17g\n", str(c._normal).c_str(), c._radius);
}
void in_fresh_thread(const std::function<void()>& f)
{
    std::exception_ptr err;
    std::thread th([&] {
        try
        {
            f();
        }
        catch (...)
        {
            err = std::current_exception();
        }
    });
    th.join();
    if (err)
        std::rethrow_exception(err);
}
void run_history(mc::Ctx& ctx, const uint64_t idx)
{
    load_config(small);
    static const std::vector<Scene> sc = scenes();
    const std::vector<int> word = mc::word_upto(idx, sc.size());
    Detector det(W, H);
    Found f; // the containers are reused, as the application may do
    std::string h;
    for (const int k: word)
    {
        h += std::string(" ") + sc[size_t(k)].name;
        std::string a, b;
        // the random draws restart at each frame, so that only the memory of the detector is compared
        in_fresh_thread([&] {
            det.run(ctx, sc[size_t(k)].img, f);
            signature(f, a);
        });
        in_fresh_thread([&] {
            Detector other(W, H);
            Found g;
            other.run(ctx, sc[size_t(k)].img, g);
            signature(g, b);
        });
        ctx.note("frame %s: %d planes %d cylinders", sc[size_t(k)].name, int(f.planes.size()), int(f.cylinders.size()));
        ctx.check(a == b, "history", "after%s the last frame gives\n%s instead of\n%s", h.c_str(), a.c_str(), b.c_str());
        ctx.outcome(mc::fmt("%s: %d planes %d cylinders", sc[size_t(k)].name, int(f.planes.size()), int(f.cylinders.size())));
        ctx.state(mc::mixs(0, a));
    }
}

// ---- cells without enough depth do not take part
void run_holes(mc::Ctx& ctx, const uint64_t idx)
{
    mc::Dec d(idx);
    const int counts[] = {1, 60, 100, 119, 120, 121, 140, 200, 260, 400};
    const int missing = counts[d(10)];
    const int where = int(d(4)), which = int(d(6));
    load_config(small);
    Layout l(W, H);
    l.fill(2, 2, 13, 11, 0);
    const std::vector<Pl> planes = {plane_at(0.3, 0.7, 1400)};
    cv::Mat_<float> img = render(small, l, planes, 0.3, 11);
    const int holes[6][2] = {{2, 2}, {7, 5}, {12, 10}, {7, 2}, {2, 6}, {12, 3}};
    const int hx = holes[which][0], hy = holes[which][1];
    // pixels in the order of the four kinds of holes; the middle line and column stay filled as long as possible
    std::vector<std::pair<int, int>> order;
    for (int v = 0; v < cell; ++v)
        for (int u = 0; u < cell; ++u)
        {
            const int a = where & 1 ? cell - 1 - u : u, b = where & 2 ? cell - 1 - v : v;
            order.emplace_back(a, b);
        }
    std::stable_partition(order.begin(), order.end(), [](const auto& p) { return p.first != cell / 2 and p.second != cell / 2; });
    for (int i = 0; i < missing; ++i)
        img(hy * cell + order[size_t(i)].second, hx * cell + order[size_t(i)].first) = 0;
    const int k = hy * W + hx;
    const bool part = cell * cell - missing >= 280;
    Want w;
    for (int c = 0; c < W * H; ++c)
        if (l.cells[size_t(c)] == 0 and (c != k or part))
            w.cells.push_back(c);
    w.boundary = false;
    ctx.note("%d pixels without depth in the cell %d %d", missing, hx, hy);
    Detector det(W, H);
    Found f;
    det.run(ctx, img, f);
    compare(ctx, small, l, img, {w}, f);
    ctx.state(idx);
}

// ---- full size image, thresholds on the number of cells
void run_size(mc::Ctx& ctx, const uint64_t idx)
{
    mc::Dec d(idx);
    const int w = 1 + int(d(5)), h = 1 + int(d(5));
    const int px = int(d(3)), py = int(d(3));
    load_config(configs()[0]);
    const Cfg& c = configs()[0];
    Layout l(32, 24);
    const int x0 = px == 0 ? 0 : px == 1 ? 13 : 32 - w, y0 = py == 0 ? 0 : py == 1 ? 9 : 24 - h;
    l.fill(x0, y0, x0 + w, y0 + h, 0);
    const std::vector<Pl> planes = {plane_at(0.2, 0.7, 1400)};
    const cv::Mat_<float> img = render(c, l, planes, 0.2, 3);
    Detector det(32, 24);
    Found f;
    det.run(ctx, img, f);
    ctx.note("%d x %d cells at %d %d", w, h, x0, y0);
    if (w * h < 6)
        // 0.8% of the 768 cells: not enough for a plane
        ctx.check(f.planes.empty(), "plane-invented", "a plane of %d cells", w * h);
    else if (w >= 2 and h >= 2)
        compare(ctx, c, l, img, wants(l), f);
    ctx.check(f.cylinders.empty(), "cylinder-invented", "a cylinder in a flat scene");
    ctx.state(idx);
}

// ---- the histogram of directions, against a list of points
template<size_t N> void histogram_word(mc::Ctx& ctx, const uint64_t idx, const int points)
{
    // positions: two points of the same bin, one in the bin of the pole, the others in neighbour bins
    const double pole = 0.3 * M_PI / (N - 1), one = 1.4 * M_PI / (N - 1), two = 2.4 * M_PI / (N - 1);
    const double az[] = {-M_PI, -M_PI + 0.2 * 2 * M_PI / (N - 1), -M_PI + 1.5 * 2 * M_PI / (N - 1), M_PI - 1e-9};
    mc::Dec d(idx);
    std::vector<int> kind;
    for (int i = 0; i < points; ++i)
        kind.push_back(int(d(6)));
    Histogram<N> h;
    const std::vector<int> word = mc::word_upto(d.v, uint64_t(points + 2));
    std::vector<int> bin(size_t(points), -1);
    matrixd values(points, 2);
    const auto bins = [&](const int k) -> std::pair<double, double> {
        switch (k)
        {
            case 0: return {pole, az[2]}; // pole, whatever the azimuth
            case 1: return {pole, az[0]};
            case 2: return {one, az[0]};
            case 3: return {one, az[1]};
            case 4: return {one, az[2]};
            default: return {two, az[1]};
        }
    };
    const auto bin_of = [](const int k) { return k <= 1 ? 0 : k <= 3 ? 1 : k; };
    for (int i = 0; i < points; ++i)
    {
        values(i, 0) = bins(kind[size_t(i)]).first;
        values(i, 1) = bins(kind[size_t(i)]).second;
    }
    const auto init = [&](const bool all) {
        vectorb mask = vectorb::Constant(points, true);
        for (int i = 0; i < points; ++i)
            mask[i] = all or i != 0;
        h.reset();
        h.init_histogram(values, mask);
        for (int i = 0; i < points; ++i)
            bin[size_t(i)] = mask[i] ? bin_of(kind[size_t(i)]) : -1;
    };
    init(true);
    const auto look = [&] {
        std::map<int, int> count;
        for (const int b: bin)
            if (b >= 0)
                ++count[b];
        int best = 0;
        for (const auto& c: count)
            best = std::max(best, c.second);
        const auto got = h.get_points_from_most_frequent_bin();
        std::string s;
        for (const uint g: got)
            s += mc::fmt(" %u", g);
        ctx.check(int(got.size()) == best, "histogram", "the most frequent bin has %d points instead of %d (%s )", int(got.size()), best, s.c_str());
        for (const uint g: got)
            ctx.check(g < uint(points) and bin[g] >= 0 and bin[g] == bin[got[0]], "histogram", "the points of the most frequent bin (%s ) are removed or in different bins", s.c_str());
        for (size_t i = 1; i < got.size(); ++i)
            ctx.check(got[i] > got[i - 1], "histogram", "a point is given twice (%s )", s.c_str());
        uint64_t st = 0;
        for (const int b: bin)
            st = mc::mix(st, uint64_t(b + 1));
        ctx.state(st);
    };
    look();
    for (const int a: word)
    {
        ctx.step();
        if (a < points)
        {
            ctx.note("remove %d", a);
            h.remove_point(uint(a));
            bin[size_t(a)] = -1;
        }
        else
        {
            ctx.note("new frame, %s", a == points ? "every point" : "all but the first");
            init(a == points);
        }
        look();
    }
}
void run_histogram(mc::Ctx& ctx, const uint64_t idx)
{
    if (ctx.thorough)
        histogram_word<20>(ctx, idx, 5);
    else
        histogram_word<20>(ctx, idx, 4);
}

} // namespace

int main(int argc, char** argv)
{
    cv::setNumThreads(1);
    std::vector<mc::Family> f;
    f.push_back({"rectangle", [](bool t) { return uint64_t(rectangles(t).size()) * 4; }, run_rectangle, 60, 16});
    f.push_back({"blocks", [](bool t) { return uint64_t(4096 * (t ? 4 : 2)); }, run_blocks, 60, 16});
    f.push_back({"pairs", [](bool t) { return uint64_t(t ? 95 * 95 * 2 : 40 * 40 * 2); }, run_pairs, 60, 16});
    f.push_back({"steps", [](bool) { return uint64_t(7 * 2 * 2 * 16); }, run_steps, 60, 8});
    f.push_back({"merge", [](bool) { return uint64_t(6 * 4 * 2 * 3 * 2); }, run_merge, 60, 8});
    f.push_back({"holes", [](bool) { return uint64_t(240); }, run_holes, 60, 8});
    f.push_back({"size", [](bool) { return uint64_t(225); }, run_size, 60, 4});
    f.push_back({"history", [](bool t) { return mc::words_upto(7, t ? 4 : 3); }, run_history, 120, 4});
    f.push_back({"histogram", [](bool t) { return t ? uint64_t(7776) * mc::words_upto(7, 4) : uint64_t(1296) * mc::words_upto(6, 4); }, run_histogram, 60, 4096});
    return mc::main_(argc, argv, f);
}
