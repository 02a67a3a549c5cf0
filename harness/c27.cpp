// C27: plane segments: a cell is a plane exactly when its points are, and its parameters are those of the points
#include "scene.hpp"
#include "features/primitives/depth_map_transformation.hpp"
#include "features/primitives/plane_segment.hpp"

using namespace scene;
using namespace rgbd_slam::features::primitives;

namespace {

const double deg = M_PI / 180;
constexpr int W = 4, H = 3;
const Cfg cam = {80, 60, 275, 265, 41, 28, 80, 60, 275, 265, 41, 28, {0, 0, 0}, {0, 0, 0}};

matrixf cloud_of(mc::Ctx& ctx, const cv::Mat_<float>& img)
{
    Depth_Map_Transformation t(W * cell, H * cell, cell);
    matrixf c;
    ctx.check(t.get_organized_cloud_array(img, c), "cloud", "no cloud");
    return c;
}

void same_fit(mc::Ctx& ctx, const Plane_Segment& s, const Fit& ref, const char* what)
{
    ctx.check(s.get_point_count() == ref.count, "segment-count", "%s: %u points instead of %u", what, s.get_point_count(), ref.count);
    ctx.check(near(s.get_normal(), ref.n, 2e-5) and std::abs(s.get_plane_d() - ref.d) <= 2e-5 * (100 + ref.d), "segment-parameters", "%s: plane %s d=%.9g instead of %s d=%.9g", what,
              str(s.get_normal()).c_str(), s.get_plane_d(), str(ref.n).c_str(), ref.d);
    ctx.check(s.get_plane_d() > 0, "segment-side", "%s: the normal does not look at the camera", what);
    ctx.check(near(s.get_centroid(), ref.centroid, 1e-6 * (1 + amax(ref.centroid))), "segment-centroid", "%s: centroid %s instead of %s", what, str(s.get_centroid()).c_str(), str(ref.centroid).c_str());
    ctx.check(near(s.get_center(), vector3(-ref.n * ref.d), 4e-5 * (100 + ref.d)), "segment-parameters", "%s: closest point %s", what, str(s.get_center()).c_str());
    vector4 p;
    p << s.get_normal(), s.get_plane_d();
    ctx.check(near(s.get_parametrization(), p, 0), "segment-parameters", "%s: parametrisation", what);
    ctx.check(std::abs(s.get_MSE() - ref.mse) <= 1e-4 * ref.mse + 1e-7, "segment-error", "%s: mean squared error %g instead of %g", what, s.get_MSE(), ref.mse);
    ctx.check(std::abs(s.get_score() - ref.score) <= 1e-3 * ref.score, "segment-score", "%s: score %g instead of %g", what, s.get_score(), ref.score);
    const matrix33 inv = ref.second.inverse(), got = s.get_point_cloud_covariance();
    ctx.check((got - inv).cwiseAbs().maxCoeff() <= 1e-4 * inv.cwiseAbs().maxCoeff(), "segment-covariance", "%s: covariance %s instead of %s", what, str(got).c_str(), str(inv).c_str());
}

std::vector<Pl> directions()
{
    std::vector<Pl> out;
    for (const double z: {600.0, 1500.0, 3500.0})
        for (const double polar: {1.0, 15.0, 40.0})
            for (const double az: {-170.0, -80.0, 10.0, 100.0})
                out.push_back(plane_at(polar * deg, az * deg, z));
    return out;
}

// ---- one cell of the grid, with its defects
void run_cell(mc::Ctx& ctx, const uint64_t idx)
{
    mc::Dec d(idx);
    const auto dirs = directions();
    const Pl plane = dirs[d(dirs.size())];
    const int id = int(d(W * H));
    load_config(cam);
    Plane_Segment::set_static_members(cell, cell * cell);
    Layout l(W, H);
    l.fill(0, 0, W, H, 0);
    const int x0 = id % W * cell, y0 = id / W * cell;
    // a segment that is used again and again, as the detector does
    Plane_Segment s;
    const auto examine = [&](const cv::Mat_<float>& img, const bool wanted, const char* what) {
        const matrixf cloud = cloud_of(ctx, img);
        s.init_plane_segment(cloud, uint(id));
        ctx.step();
        ctx.check(s.is_planar() == wanted, wanted ? "cell-refused" : "cell-accepted", "%s: the cell is%s a plane", what, wanted ? " not" : "");
        if (wanted)
        {
            same_fit(ctx, s, fit_cells(cam, img, W, {id}), what);
            const Plane_Segment copy(s);
            ctx.check(copy.is_planar(), "segment-copy", "copy");
            same_fit(ctx, copy, fit_cells(cam, img, W, {id}), "copy");
        }
        ctx.outcome(wanted ? "plane" : "not a plane");
    };
    const cv::Mat_<float> base = render(cam, l, {plane}, 0.2, 5);
    const auto quant = [&](const int x, const int y) { return quantization(base(y0 + y, x0 + x)); };
    const int m = cell / 2;
    examine(base, true, "plain");

    // missing points: 70% of the points are needed
    for (const int missing: {1, 119, 120, 121, 150, 201, 320, 400})
        for (int kind = 0; kind < 3; ++kind)
        {
            cv::Mat_<float> img = base.clone();
            std::vector<int> order;
            for (int i = 0; i < cell * cell; ++i)
                order.push_back(kind == 0 ? i : kind == 1 ? cell * cell - 1 - i : (i * 37) % (cell * cell));
            std::stable_partition(order.begin(), order.end(), [&](const int i) { return i % cell != m and i / cell != m; });
            for (int i = 0; i < missing; ++i)
                img(y0 + order[size_t(i)] / cell, x0 + order[size_t(i)] % cell) = 0;
            examine(img, missing <= 120, mc::fmt("%d missing points (%d)", missing, kind).c_str());
        }

    // steps in the middle line and the middle column
    for (int j = 2; j < cell - 1; ++j)
        for (const int axis: {0, 1})
            for (const int sign: {-1, 1})
                for (const double f: {3.0, 5.5})
                {
                    // a step of one pixel wide, in the middle line or column only
                    cv::Mat_<float> img = base.clone();
                    const int u = axis ? m : j, v = axis ? j : m;
                    if (u == v)
                        continue;
                    // natural slope between neighbours, to stay clear of the limit
                    const double g = std::max({std::abs(base(y0 + v, x0 + u) - base(y0 + v - (axis ? 1 : 0), x0 + u - (axis ? 0 : 1))),
                                               std::abs(base(y0 + v, x0 + u) - base(y0 + v + (axis ? 1 : 0), x0 + u + (axis ? 0 : 1)))});
                    const double q = quant(u, v);
                    if (g > 0.8 * q)
                        continue;
                    img(y0 + v, x0 + u) += float(sign * f * q);
                    examine(img, f < 4, mc::fmt("a point moved by %g times the precision at %d %d", sign * f, u, v).c_str());
                    // the same away from the cross is not a step of the cross
                    cv::Mat_<float> off = base.clone();
                    const int ou = (u + 5) % cell, ov = (v + 5) % cell;
                    if (ou != m and ov != m and f > 4)
                    {
                        off(y0 + ov, x0 + ou) += float(sign * f * q);
                        examine(off, true, mc::fmt("a point moved outside of the cross at %d %d", ou, ov).c_str());
                    }
                    // missing points of the cross are no step
                    cv::Mat_<float> hole = base.clone();
                    hole(y0 + v, x0 + u) = 0;
                    examine(hole, true, mc::fmt("missing point of the cross at %d %d", u, v).c_str());
                }
    // whole half moved: the step is between two points of the cross
    for (const int axis: {0, 1})
        for (const int j: {3, 7, 11, 16})
            for (const double f: {20.0, -20.0})
            {
                cv::Mat_<float> img = base.clone();
                for (int v = 0; v < cell; ++v)
                    for (int u = 0; u < cell; ++u)
                        if ((axis ? v : u) >= j)
                            img(y0 + v, x0 + u) += float(f * quant(u, v));
                examine(img, false, mc::fmt("step of the cell at %d", j).c_str());
            }
    // thickness: the mean squared error has to be less than the precision squared, at the depth of the cell
    for (const double f: {0.2, 0.6, 0.9, 1.1, 1.5, 3.0})
    {
        cv::Mat_<float> img = base.clone();
        const double q = quantization(base(y0 + m, x0 + m));
        // waves away from the cross, so that it stays continuous
        for (int v = 0; v < cell; ++v)
            for (int u = 0; u < cell; ++u)
                if (u != m and v != m)
                    img(y0 + v, x0 + u) += float(((u + v) & 1 ? 1 : -1) * f * q / 0.95);
        const Fit ref = fit_cells(cam, img, W, {id});
        const double limit = quantization(ref.centroid.z()) * quantization(ref.centroid.z());
        if (std::abs(ref.mse / limit - 1) < 0.01)
            continue;
        examine(img, ref.mse <= limit, mc::fmt("noise of %g times the precision", f).c_str());
    }
    examine(base, true, "plain again");
    examine(cv::Mat_<float>(cv::Mat_<float>::zeros(H * cell, W * cell)), false, "empty");
    examine(base, true, "plain at the end");
    ctx.state(idx);
}

// ---- segments grow by their points
void run_expand(mc::Ctx& ctx, const uint64_t idx)
{
    mc::Dec d(idx);
    const int scene = int(d(4));
    const std::vector<int> word = mc::word_upto(d.v, W * H);
    load_config(cam);
    Plane_Segment::set_static_members(cell, cell * cell);
    Layout l(W, H);
    for (int k = 0; k < W * H; ++k)
        l.cells[size_t(k)] = scene == 0 ? 0 : k % 3;
    const auto dirs = directions();
    const std::vector<Pl> planes = {dirs[size_t(scene * 5 + 2)], dirs[size_t(scene * 7 + 3)], dirs[size_t(scene * 3 + 11)]};
    const cv::Mat_<float> img = render(cam, l, planes, 0.3, 3);
    const matrixf cloud = cloud_of(ctx, img);
    std::vector<Plane_Segment> cells;
    cells.reserve(W * H);
    for (int k = 0; k < W * H; ++k)
    {
        cells.emplace_back();
        cells.back().init_plane_segment(cloud, uint(k));
        ctx.check(cells.back().is_planar(), "cell-refused", "cell %d of a plane", k);
    }
    std::string w;
    Plane_Segment s;
    std::vector<int> ids;
    for (const int k: word)
    {
        w += mc::fmt(" %d", k);
        s.expand_segment(cells[size_t(k)]);
        ids.push_back(k);
        ctx.step();
        s.fit_plane();
        ctx.check(s.is_planar(), "segment-fit", "no plane from the cells%s", w.c_str());
        same_fit(ctx, s, fit_cells(cam, img, W, ids), w.c_str());
    }
    ctx.note("cells%s", w.c_str());
    if (not word.empty())
    {
        // a cleared segment starts again
        s.clear_plane_parameters();
        ctx.check(not s.is_planar() and s.get_point_count() == 0, "segment-clear", "a cleared segment is not empty");
        s.expand_segment(cells[size_t(word[0])]);
        s.fit_plane();
        same_fit(ctx, s, fit_cells(cam, img, W, {word[0]}), "cleared");
    }
    ctx.state(idx);
}

// ---- which segments are the same plane: less than 18 degrees, centre closer than the given distance
void run_merge(mc::Ctx& ctx, const uint64_t idx)
{
    mc::Dec d(idx);
    const auto dirs = directions();
    const Pl a = dirs[d(dirs.size())];
    const double angles[] = {0, 5, 17.5, 18.5, 30, 75, 105, 162.5, 179};
    const double angle = angles[d(9)] * deg;
    const double turn = double(d(6)) * M_PI / 3;
    const double offsets[] = {0, 3, 30, -30, -3, 200, -200};
    const double offset = offsets[d(7)];
    load_config(cam);
    Plane_Segment::set_static_members(cell, cell * cell);
    Layout l(W, H);
    l.fill(0, 0, 2, H, 0);
    l.fill(2, 0, W, H, 1);
    // second plane: the first one turned around an axis of its own, through the centre of the cell 6, then moved
    vector3 e = a.n.cross(vector3(0.3, 0.5, 0.1));
    e /= e.norm();
    e = rodrigues(a.n, turn) * e;
    Pl b;
    b.n = rodrigues(e, angle) * a.n;
    const vector3 r = ray(cam, 2 * cell + 10, cell + 10);
    const vector3 q = r * (-a.d / a.n.dot(r)) + offset * a.n;
    b.d = -b.n.dot(q);
    if (b.d < 0)
    {
        b.n = -b.n;
        b.d = -b.d;
    }
    const std::vector<Pl> planes = {a, b};
    if (not clearly_visible(cam, l, planes))
    {
        ctx.outcome("not visible");
        return;
    }
    const cv::Mat_<float> img = render(cam, l, planes, 0.1, 3);
    const matrixf cloud = cloud_of(ctx, img);
    Plane_Segment s, t;
    const int i = 5, j = 6;
    s.init_plane_segment(cloud, uint(i));
    t.init_plane_segment(cloud, uint(j));
    ctx.step();
    ctx.check(s.is_planar() and t.is_planar(), "cell-refused", "cell of a plane");
    const Fit fs = fit_cells(cam, img, W, {i}), ft = fit_cells(cam, img, W, {j});
    const double c = fs.n.dot(ft.n), dst = fs.n.dot(ft.centroid) + fs.d;
    ctx.check(std::abs(s.get_cos_angle(t) - c) < 1e-4 and std::abs(t.get_cos_angle(s) - c) < 1e-4, "segment-angle", "cosine of the angle %g instead of %g", s.get_cos_angle(t), c);
    ctx.check(std::abs(s.get_point_distance(ft.centroid) - dst) < 1e-2, "segment-distance", "distance %g instead of %g", s.get_point_distance(ft.centroid), dst);
    for (const double limit: {0.0, 1.0, 10.0, 50.0, 1000.0})
    {
        if (std::abs(std::abs(dst) - limit) < 0.05 or std::abs(std::acos(std::min(1.0, c)) / deg - 18) < 0.1)
            continue;
        const bool want = c > std::cos(18 * deg) and std::abs(dst) < limit;
        ctx.step();
        ctx.check(s.can_be_merged(t, limit) == want, "segment-merge", "angle %g degrees, distance %g, limit %g: merged %d", std::acos(std::min(1.0, c)) / deg, dst, limit, int(not want));
        ctx.outcome(want ? "same plane" : "another plane");
    }
    ctx.state(idx);
}

} // namespace

int main(int argc, char** argv)
{
    cv::setNumThreads(1);
    std::vector<mc::Family> f;
    f.push_back({"cell", [](bool) { return uint64_t(directions().size() * W * H); }, run_cell, 60, 2});
    f.push_back({"expand", [](bool t) { return 4 * mc::words_upto(W * H, t ? 4 : 3); }, run_expand, 60, 32});
    f.push_back({"merge", [](bool) { return uint64_t(directions().size() * 9 * 6 * 7); }, run_merge, 60, 64});
    return mc::main_(argc, argv, f);
}
