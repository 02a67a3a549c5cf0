// C15: closest points, distances and clamping of lines and segments, over all lines and segments of a lattice
#include "geo.hpp"
#include "utils/line.hpp"
#include "utils/distance_utils.hpp"

using namespace geo;
using utils::Line;
using utils::Segment;

namespace {

template<int D> using Vec = Eigen::Vector<double, D>;
template<int D> std::vector<Vec<D>> lattice(const int n)
{
    std::vector<Vec<D>> o;
    const int m = 2 * n + 1;
    for (int i = 0; i < int(mc::ipow(uint64_t(m), D)); ++i)
    {
        Vec<D> v;
        int k = i;
        for (int j = 0; j < D; ++j)
        {
            v(j) = k % m - n;
            k /= m;
        }
        o.push_back(v);
    }
    return o;
}

// one execution: one line (start, direction); all query points
template<int D> void run_line(mc::Ctx& ctx, const uint64_t idx)
{
    static const auto pts = lattice<D>(D == 3 ? 1 : 3), dirs = lattice<D>(2);
    mc::Dec d(idx);
    const Vec<D> p = pts[d(pts.size())] * 7.0, n = dirs[d(dirs.size())];
    ctx.note("line through %s along %s", str(p).c_str(), str(n).c_str());
    if (n.squaredNorm() == 0)
        return;
    const Line<D> line(p, n);
    Line<D> line2;
    line2.set_point_and_normal(p, n.normalized());
    const Segment<D> seg(p, p + n);
    Segment<D> seg2;
    seg2.set_points(p, p + n);
    const Segment<D> seg3(seg);
    const Line<D> line3(line);
    ctx.check(near(seg2.get_start_point(), p, 0) and near(seg2.get_end_point(), Vec<D>(p + n), 0) and near(seg3.get_end_point(), Vec<D>(p + n), 0) and near(line.get_start_point(), p, 0), "line-build", "ends of the segment");
    ctx.check(near(line.get_normal(), Vec<D>(n / std::sqrt(n.dot(n))), 1e-12) and near(seg.compute_normal(), line.compute_normal(), 1e-12), "line-build", "direction");
    for (const auto& q0: lattice<D>(3))
    {
        const Vec<D> q = q0 * 2.5;
        ctx.step();
        const Vec<D> foot = p + n * ((q - p).dot(n) / n.dot(n));
        const utils::ILine<D>* all[] = {&line, &line2, &seg, &seg2, &seg3, &line3};
        for (const auto* l: all)
        {
            ctx.check(near(l->get_closest_point_on_line(q), foot, 1e-9), "closest-point", "closest point of %s is %s instead of %s", str(q).c_str(), str(l->get_closest_point_on_line(q)).c_str(), str(foot).c_str());
            ctx.check(near(l->distance(q), Vec<D>(q - foot), 1e-9), "line-distance", "distance to %s", str(q).c_str());
        }
        ctx.state(hash(idx, q));
    }
}

void run_pairs(mc::Ctx& ctx, const uint64_t idx)
{
    static const auto dirs = lattice<3>(2);
    static const auto pts = lattice<3>(1);
    mc::Dec d(idx);
    const vector3 n1 = dirs[d(dirs.size())], n2 = dirs[d(dirs.size())];
    if (n1.squaredNorm() == 0 or n2.squaredNorm() == 0)
        return;
    for (const auto& p0: pts)
    {
        const vector3 p1(3, -2, 5), p2 = p1 + vector3(p0 * 4.0) + vector3(0.5, 0, 0);
        ctx.step();
        const vector3 cr = n1.cross(n2), w = p1 - p2;
        const vector3 u1 = n1.normalized(), u2 = n2.normalized();
        const bool parallel = cr.squaredNorm() == 0;
        vector3 a, b;
        const bool got = utils::compute_closest_points<3>(p1, n1, p2, n2, a, b);
        ctx.check(got != parallel, "line-pair", "lines along %s and %s are %s parallel", str(n1).c_str(), str(n2).c_str(), parallel ? "" : "not");
        const double dist = parallel ? w.cross(n1).norm() / n1.norm() : std::abs(w.dot(cr)) / cr.norm();
        if (got)
        {
            ctx.check((a - p1).cross(n1).norm() < 1e-9 and (b - p2).cross(n2).norm() < 1e-9, "line-pair", "the closest points are not on the lines");
            ctx.check(std::abs((a - b).dot(n1)) < 1e-9 and std::abs((a - b).dot(n2)) < 1e-9, "line-pair", "the closest points are not the closest");
        }
        for (const vector3& s: {utils::signed_line_distance<3>(p1, u1, p2, u2), utils::signed_line_distance<3>(p2, u2, p1, u1)})
            if (u1.cross(u2).squaredNorm() == 0 or not parallel)
                ctx.check(nearS(s.norm(), dist, 1e-9), "line-pair", "distance %g of two lines instead of %g", s.norm(), dist);
        ctx.state(hash(idx, p0));
    }
}

// Liang-Barsky on [lo, hi]
bool clip(const vector2& a, const vector2& b, const vector2& lo, const vector2& hi, vector2& c, vector2& d)
{
    double t0 = 0, t1 = 1;
    for (int k = 0; k < 2; ++k)
    {
        const double v = b(k) - a(k);
        if (v == 0)
        {
            if (a(k) < lo(k) or a(k) > hi(k))
                return false;
            continue;
        }
        double x = (lo(k) - a(k)) / v, y = (hi(k) - a(k)) / v;
        if (x > y)
            std::swap(x, y);
        t0 = std::max(t0, x);
        t1 = std::min(t1, y);
    }
    if (t0 > t1)
        return false;
    c = a + t0 * (b - a);
    d = a + t1 * (b - a);
    return true;
}

// all segments between points of a grid that covers the image and its surroundings
std::vector<vector2> screen_grid(const bool thorough)
{
    std::vector<double> xs = {-3000, -100.5, -0.5, 0.25, 1, 40.3, 320, 500.7, 638.75, 639.6, 640.5, 700, 9000};
    std::vector<double> ys = {-2000, -77.25, -0.5, 0.5, 1, 30.1, 240, 399.9, 478.75, 479.4, 480.5, 600, 5000};
    if (thorough)
        for (const double x: {-20000.0, 2.5, 111.1, 160.0, 222.25, 600.0, 645.0, 20000.0})
        {
            xs.push_back(x);
            ys.push_back(x * 0.75);
        }
    std::vector<vector2> o;
    for (const double x: xs)
        for (const double y: ys)
            o.push_back(vector2(x, y));
    return o;
}
void run_clamp(mc::Ctx& ctx, const uint64_t idx)
{
    static const auto grid = screen_grid(ctx.thorough);
    Parameters::load_defaut();
    const vector2 a = grid[idx];
    for (const vector2& b: grid)
    {
        if (near(a, b, 0))
            continue;
        ctx.step();
        vector2 c, d, e, f;
        // the image with a margin of two pixels removed, or added
        const bool surely = clip(a, b, vector2(2.5, 2.5), vector2(637.5, 477.5), c, d);
        const bool possibly = clip(a, b, vector2(-0.01, -0.01), vector2(640.01, 480.01), e, f);
        Segment<2> out;
        const bool got = utils::clamp_to_screen(Segment<2>(a, b), out);
        const std::string who = mc::fmt("segment %s - %s", str(a).c_str(), str(b).c_str());
        ctx.check(got or not surely, "clamp-lost", "%s crosses the image and was rejected", who.c_str());
        ctx.check(not got or possibly, "clamp-outside", "%s is out of the image and was accepted", who.c_str());
        if (not got)
        {
            ctx.outcome("rejected");
            continue;
        }
        const vector2 s = out.get_start_point(), t = out.get_end_point();
        for (const vector2& p: {s, t})
        {
            ctx.check(p.x() >= -0.01 and p.y() >= -0.01 and p.x() <= 640.01 and p.y() <= 480.01, "clamp-outside", "%s clamped to %s - %s, out of the image", who.c_str(), str(s).c_str(), str(t).c_str());
            const vector2 ab = b - a;
            const double off = std::abs((p - a).x() * ab.y() - (p - a).y() * ab.x()) / ab.norm();
            const double pos = (p - a).dot(ab) / ab.dot(ab);
            ctx.check(off < 1e-3 and pos > -1e-6 and pos < 1 + 1e-6, "clamp-off-line", "%s clamped to %s - %s, which is not a part of it", who.c_str(), str(s).c_str(), str(t).c_str());
        }
        if (surely)
        {
            // at least the part of the segment in the reduced image is kept
            const vector2 ab = (b - a) / (b - a).norm();
            const double lo = std::min((s - a).dot(ab), (t - a).dot(ab)), hi = std::max((s - a).dot(ab), (t - a).dot(ab));
            ctx.check(lo <= (c - a).dot(ab) + 1e-3 and hi >= (d - a).dot(ab) - 1e-3, "clamp-short", "%s clamped to %s - %s: a visible part is lost", who.c_str(), str(s).c_str(), str(t).c_str());
        }
        ctx.outcome(surely ? "visible" : "margin");
        ctx.state(hash(hash(1, a), b));
    }
}

// all pairs of segments of a small lattice
void run_intersections(mc::Ctx& ctx, const uint64_t idx)
{
    static const auto pts = lattice<2>(2);
    mc::Dec d(idx);
    const vector2 a = pts[d(pts.size())], b = pts[d(pts.size())];
    if (near(a, b, 0))
        return;
    auto cross = [](const vector2& u, const vector2& v) { return u.x() * v.y() - u.y() * v.x(); };
    for (const auto& c: pts)
        for (const auto& e: pts)
        {
            if (near(c, e, 0))
                continue;
            ctx.step();
            vector2 p(777, 777);
            const bool got = utils::intersects(Segment<2>(a, b), Segment<2>(c, e), p);
            const double den = cross(b - a, e - c);
            if (den == 0)
            {
                ctx.outcome("parallel");
                continue; // collinear overlaps have no single point
            }
            const double t = cross(c - a, e - c) / den, u = cross(c - a, b - a) / den;
            const bool hit = t >= 0 and t <= 1 and u >= 0 and u <= 1;
            // the function answers by a point: it may not invent one, and must find it
            if (hit)
            {
                ctx.check(got and near(p, vector2(a + t * (b - a)), 1e-9), "intersection", "segments %s-%s and %s-%s cross at %s, found %s", str(a).c_str(), str(b).c_str(), str(c).c_str(), str(e).c_str(), str(vector2(a + t * (b - a))).c_str(), str(p).c_str());
                ctx.outcome("crossing");
            }
            else
            {
                ctx.check(not got, "intersection-invented", "segments %s-%s and %s-%s do not cross, an intersection at %s was returned", str(a).c_str(), str(b).c_str(), str(c).c_str(), str(e).c_str(), str(p).c_str());
                ctx.outcome("apart");
            }
            ctx.state(hash(hash(idx, c), e));
        }
}

// all pairs of segments of a lattice in space (a point is a segment too)
void run_intersections_3d(mc::Ctx& ctx, const uint64_t idx)
{
    static const auto pts = lattice<3>(1);
    mc::Dec d(idx);
    // the second plane of ends is uneven: crossings do not lie on the lattice only
    auto at = [&](const size_t i) { return vector3(pts[i].x() * 3, pts[i].y() * 2 + pts[i].z(), pts[i].z() * 4); };
    const vector3 a = at(d(pts.size())), b = at(d(pts.size()));
    for (size_t i = 0; i < pts.size(); ++i)
        for (size_t j = 0; j < pts.size(); ++j)
        {
            ctx.step();
            const vector3 c = at(i), e = at(j);
            vector3 p(777, 777, 777);
            const bool got = utils::intersects(Segment<3>(a, b), Segment<3>(c, e), p);
            const vector3 u = b - a, v = e - c, r = c - a, n = u.cross(v);
            const std::string who = mc::fmt("segments %s-%s and %s-%s", str(a).c_str(), str(b).c_str(), str(c).c_str(), str(e).c_str());
            auto on = [](const vector3& s, const vector3& t, const vector3& q) {
                const double l = (t - s).norm();
                return l == 0 ? (q - s).norm() < 1e-9 : (t - s).cross(q - s).norm() < 1e-8 * l and (q - s).dot(t - s) > -1e-8 * l and (q - t).dot(s - t) > -1e-8 * l;
            };
            if (n.dot(n) == 0)
            {
                // parallel (or points): they meet if an end of one is on the other
                const bool meet = on(a, b, c) or on(a, b, e) or on(c, e, a) or on(c, e, b);
                ctx.check(got == meet, "intersection-parallel", "%s: %s", who.c_str(), got ? "an intersection was invented" : "the intersection was not found");
                if (got)
                    ctx.check(on(a, b, p) and on(c, e, p), "intersection-point", "%s: %s is not common to both", who.c_str(), str(p).c_str());
                ctx.outcome(meet ? "parallel that meet" : "parallel");
                continue;
            }
            const double t = r.cross(v).dot(n) / n.dot(n), w = r.cross(u).dot(n) / n.dot(n);
            const bool hit = std::abs(r.dot(n)) < 1e-9 and t >= -1e-12 and t <= 1 + 1e-12 and w >= -1e-12 and w <= 1 + 1e-12;
            ctx.check(got == hit, "intersection-3d", "%s: %s", who.c_str(), got ? "an intersection was invented" : "the intersection was not found");
            if (hit)
                ctx.check(near(p, vector3(a + t * u), 1e-9), "intersection-3d", "%s cross at %s, found %s", who.c_str(), str(vector3(a + t * u)).c_str(), str(p).c_str());
            ctx.outcome(hit ? "crossing" : "apart");
            ctx.state(hash(hash(idx, c), e));
        }
}

} // namespace

int main(int argc, char** argv)
{
    std::vector<mc::Family> f;
    f.push_back({"lines_2d", [](bool) { return uint64_t(49 * 25); }, run_line<2>, 5});
    f.push_back({"lines_3d", [](bool) { return uint64_t(27 * 125); }, run_line<3>, 5});
    f.push_back({"line_pairs_3d", [](bool) { return uint64_t(125 * 125); }, run_pairs, 5});
    f.push_back({"clamped_segments", [](bool t) { return uint64_t(screen_grid(t).size()); }, run_clamp, 20});
    f.push_back({"segment_pairs_2d", [](bool) { return uint64_t(25 * 25); }, run_intersections, 20});
    f.push_back({"segment_pairs_3d", [](bool) { return uint64_t(27 * 27); }, run_intersections_3d, 20});
    return mc::main_(argc, argv, f);
}
