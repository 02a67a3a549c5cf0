// C14: polygons behave as sets of points: every pair of small polyominoes, every small point set
#include "geo.hpp"
#include "utils/polygon.hpp"
#include "coordinates/polygon_coordinates.hpp"
#include <set>

using namespace geo;
using utils::Polygon;

namespace {

constexpr double cell = 1024; // mm

struct Poly
{
    unsigned mask;               // cells
    std::vector<vector2> ring;   // corners, in order (lattice units)
};

// boundary of a set of cells of a W x H grid; empty when it is not one simple ring
std::vector<vector2> boundary(const unsigned mask, const int W, const int H)
{
    auto in = [&](int x, int y) { return x >= 0 and y >= 0 and x < W and y < H and (mask >> (y * W + x) & 1); };
    std::map<std::pair<int, int>, std::vector<std::pair<int, int>>> next;
    size_t edges = 0;
    for (int y = 0; y < H; ++y)
        for (int x = 0; x < W; ++x)
            if (in(x, y))
            {
                // counter clockwise edges
                if (not in(x, y - 1))
                    next[{x, y}].push_back({x + 1, y}), ++edges;
                if (not in(x + 1, y))
                    next[{x + 1, y}].push_back({x + 1, y + 1}), ++edges;
                if (not in(x, y + 1))
                    next[{x + 1, y + 1}].push_back({x, y + 1}), ++edges;
                if (not in(x - 1, y))
                    next[{x, y + 1}].push_back({x, y}), ++edges;
            }
    std::vector<vector2> ring;
    if (edges == 0)
        return ring;
    auto p = next.begin()->first;
    const auto start = p;
    std::vector<std::pair<int, int>> path;
    do
    {
        if (next[p].size() != 1)
            return {};
        path.push_back(p);
        p = next[p][0];
    } while (p != start);
    if (path.size() != edges)
        return {};
    // corners only
    for (size_t i = 0; i < path.size(); ++i)
    {
        const auto &a = path[(i + path.size() - 1) % path.size()], &b = path[i], &c = path[(i + 1) % path.size()];
        if ((b.first - a.first) * (c.second - b.second) - (b.second - a.second) * (c.first - b.first) != 0)
            ring.emplace_back(b.first, b.second);
    }
    return ring;
}

const std::vector<Poly>& polyominoes(const int W, const int H)
{
    static std::map<std::pair<int, int>, std::vector<Poly>> cache;
    auto& v = cache[{W, H}];
    if (v.empty())
        for (unsigned m = 1; m < (1u << (W * H)); ++m)
        {
            auto r = boundary(m, W, H);
            if (not r.empty())
                v.push_back({m, r});
        }
    return v;
}

// Sets of points made of the cells of two lattices of the same pitch, the second shifted by (sx, sy) cells: the cells of
// both are unions of the rectangles of a finer grid, on which intersections, unions and connected parts are exact
struct Fine
{
    std::vector<double> xs, ys;
    Fine(const int W, const int H, const double sx, const double sy)
    {
        std::set<double> x, y;
        for (int i = 0; i <= W; ++i)
            x.insert(i), x.insert(i + sx);
        for (int i = 0; i <= H; ++i)
            y.insert(i), y.insert(i + sy);
        xs.assign(x.begin(), x.end());
        ys.assign(y.begin(), y.end());
    }
    int nx() const { return int(xs.size()) - 1; }
    int ny() const { return int(ys.size()) - 1; }
    double area(const int i) const { return (xs[i % nx() + 1] - xs[i % nx()]) * (ys[i / nx() + 1] - ys[i / nx()]); }
    double area(const uint64_t m) const
    {
        double s = 0;
        for (int i = 0; i < nx() * ny(); ++i)
            if (m >> i & 1)
                s += area(i);
        return s;
    }
    vector2 centre(const int i) const { return vector2((xs[i % nx() + 1] + xs[i % nx()]) / 2, (ys[i / nx() + 1] + ys[i / nx()]) / 2); }
    // the rectangles of the cells of a polyomino
    uint64_t cover(const unsigned mask, const int W, const int H, const double sx, const double sy) const
    {
        uint64_t m = 0;
        for (int i = 0; i < nx() * ny(); ++i)
        {
            const vector2 c = centre(i) - vector2(sx, sy);
            const int x = int(std::floor(c.x())), y = int(std::floor(c.y()));
            if (x >= 0 and y >= 0 and x < W and y < H and (mask >> (y * W + x) & 1))
                m |= uint64_t(1) << i;
        }
        return m;
    }
    // areas of the edge connected parts, biggest first
    std::vector<double> parts(uint64_t m) const
    {
        std::vector<double> out;
        const int W = nx(), N = nx() * ny();
        while (m)
        {
            uint64_t comp = m & -m, grown = 0;
            while (grown != comp)
            {
                grown = comp;
                for (int i = 0; i < N; ++i)
                    if (comp >> i & 1)
                    {
                        if (i % W > 0)
                            comp |= m & (uint64_t(1) << (i - 1));
                        if (i % W + 1 < W)
                            comp |= m & (uint64_t(1) << (i + 1));
                        if (i >= W)
                            comp |= m & (uint64_t(1) << (i - W));
                        if (i + W < N)
                            comp |= m & (uint64_t(1) << (i + W));
                    }
            }
            out.push_back(area(comp));
            m &= ~comp;
        }
        std::sort(out.rbegin(), out.rend());
        return out;
    }
    // two rectangles of the set touch by a corner only
    bool pinched(const uint64_t m) const
    {
        const int W = nx();
        for (int y = 0; y + 1 < ny(); ++y)
            for (int x = 0; x + 1 < W; ++x)
            {
                const bool a = m >> (y * W + x) & 1, b = m >> (y * W + x + 1) & 1, c = m >> (y * W + W + x) & 1, d = m >> (y * W + W + x + 1) & 1;
                if ((a and d and not b and not c) or (b and c and not a and not d))
                    return true;
            }
        return false;
    }
};

struct Frame
{
    vector3 x, y, c;
};
// frames of one plane: x, y and centre differ, the plane is the same. The first three are exact in floating point numbers
const std::vector<Frame>& frames()
{
    static const std::vector<Frame> f = [] {
        std::vector<Frame> o;
        const vector3 X(0, 0, 1), Y(-1, 0, 0), C(512, -256, 2048);
        o.push_back({X, Y, C});
        o.push_back({Y, vector3(-X), vector3(C + 768 * X - 256 * Y)});
        o.push_back({Y, X, vector3(C - 2048 * X)}); // other side of the plane
        o.push_back({vector3(0.6 * X + 0.8 * Y), vector3(-0.8 * X + 0.6 * Y), vector3(C + 13 * Y)});
        return o;
    }();
    return f;
}
vector3 lift(const vector2& p)
{
    const Frame& f = frames()[0];
    return f.c + cell * p.x() * f.x + cell * p.y() * f.y;
}
vector2 in_frame(const vector3& p, const Frame& f) { return vector2((p - f.c).dot(f.x), (p - f.c).dot(f.y)); }

Polygon make(const std::vector<vector2>& ring, const Frame& f, const bool reverse, const vector2& shift = vector2(0, 0))
{
    std::vector<Polygon::point_2d> b;
    for (size_t i = 0; i < ring.size(); ++i)
    {
        const vector2 q = in_frame(lift(vector2(ring[reverse ? ring.size() - 1 - i : i] + shift)), f);
        b.emplace_back(q.x(), q.y());
    }
    b.push_back(b.front());
    return Polygon(b, f.x, f.y, f.c);
}
bool cells_match(const Polygon& p, const Fine& fine, const uint64_t mask, std::string& why)
{
    const Frame f {p.get_x_axis(), p.get_y_axis(), p.get_center()};
    for (int i = 0; i < fine.nx() * fine.ny(); ++i)
        if (p.contains(in_frame(lift(fine.centre(i)), f)) != bool(mask >> i & 1))
        {
            why = mc::fmt("the point (%g %g) is %s", fine.centre(i).x(), fine.centre(i).y(), mask >> i & 1 ? "outside" : "inside");
            return false;
        }
    for (const vector2& q: {vector2(-0.5, 0.5), vector2(0.5, -0.5), vector2(4.5, 1.5), vector2(1.5, 4.5)})
        if (p.contains(in_frame(lift(q), f)))
        {
            why = mc::fmt("the point (%g %g) is inside", q.x(), q.y());
            return false;
        }
    return true;
}
constexpr double A = cell * cell;
bool area_is(const double got, const double cells) { return std::abs(got - cells * A) <= 1.0; }

// one execution = one polyomino, against all others. Same lattice: exact frames; shifted lattice: all frames
void run_pairs(mc::Ctx& ctx, const uint64_t idx, const bool shifted)
{
    const int W = 3, H = 3;
    const auto& all = polyominoes(W, H);
    mc::Dec d(idx);
    const Poly& a = all[d(all.size())];
    const Frame& fb = frames()[d(shifted ? 4 : 3)];
    const vector2 sh = shifted ? vector2(0.3125, 0.4375) : vector2(0, 0);
    static const Fine fine[2] = {Fine(W, H, 0, 0), Fine(W, H, 0.3125, 0.4375)};
    const Fine& fi = fine[shifted];
    const bool rev = d(2);
    const Polygon pa = make(a.ring, frames()[0], rev);
    const uint64_t ma = fi.cover(a.mask, W, H, 0, 0);
    const double na = fi.area(ma);
    std::string why;
    ctx.check(pa.is_valid() and area_is(pa.area(), na) and area_is(pa.get_area(), na), "area", "polygon %03x: area %g instead of %g", a.mask, pa.area(), na * A);
    ctx.check(cells_match(pa, fi, ma, why), "contains", "polygon %03x: %s", a.mask, why.c_str());
    ctx.check(pa.boundary_length() == a.ring.size(), "boundary", "polygon %03x has %zu sides instead of %zu", a.mask, pa.boundary_length(), a.ring.size());
    for (const Poly& b: all)
    {
        ctx.step();
        const Polygon pb = make(b.ring, fb, not rev, sh);
        const uint64_t mb = fi.cover(b.mask, W, H, sh.x(), sh.y());
        const uint64_t in = ma & mb, un = ma | mb;
        const double nb = fi.area(mb);
        const std::string who = mc::fmt("polygons %03x and %03x", a.mask, b.mask);
        ctx.check(area_is(pb.area(), nb), "area", "polygon %03x: area %g instead of %g", b.mask, pb.area(), nb * A);
        const double ia = pa.inter_area(pb), ib = pb.inter_area(pa), ua = pa.union_area(pb), ub = pb.union_area(pa);
        ctx.check(area_is(ia, fi.area(in)) and area_is(ib, fi.area(in)), "inter-area", "%s: intersection %g and %g instead of %g", who.c_str(), ia, ib, fi.area(in) * A);
        ctx.check(area_is(ua, fi.area(un)) and area_is(ub, fi.area(un)), "union-area", "%s: union %g and %g instead of %g", who.c_str(), ua, ub, fi.area(un) * A);
        const auto ci = fi.parts(in), cu = fi.parts(un);
        const double iou = pa.inter_over_union(pb), iou2 = pb.inter_over_union(pa);
        const bool pinch = fi.pinched(in) or fi.pinched(un);
        if (not pinch)
        {
            const double want = ci.empty() ? 0 : ci[0] / cu[0];
            ctx.check(nearS(iou, want, 1e-6) and nearS(iou2, want, 1e-6), "iou", "%s: intersection over union %g and %g instead of %g", who.c_str(), iou, iou2, want);
        }
        ctx.check(iou >= 0 and iou <= 1 + 1e-9 and nearS(iou, iou2, 1e-6), "iou-range", "%s: intersection over union %g one way and %g the other way", who.c_str(), iou, iou2);
        ctx.outcome(ci.empty() ? "apart" : ci.size() > 1 ? "several pieces" : in == mb or in == ma ? "nested" : "overlap");

        // merge: the union, or the biggest part of it when it is in several parts
        WorldPolygon m(pa);
        m.merge(WorldPolygon(pb));
        ctx.check(near(m.get_center(), pa.get_center(), 0) and near(m.get_x_axis(), pa.get_x_axis(), 0) and near(m.get_y_axis(), pa.get_y_axis(), 0), "merge", "%s: the frame changed", who.c_str());
        if (not pinch)
        {
            ctx.check(m.is_valid(why), "merge-valid", "%s: invalid after merge: %s", who.c_str(), why.c_str());
            ctx.check(area_is(m.area(), cu[0]) and area_is(m.get_area(), cu[0]), "merge", "%s: area %g after merge instead of %g", who.c_str(), m.area(), cu[0] * A);
            if (cu.size() == 1)
                ctx.check(cells_match(m, fi, un, why), "merge", "%s after merge: %s", who.c_str(), why.c_str());
        }
        ctx.state(mc::mix(mc::mix(idx, b.mask), in));
    }
}

// sequences of merges: the map polygon after any order of observations is the union
void run_merges(mc::Ctx& ctx, const uint64_t idx)
{
    const int W = 3, H = 2;
    const auto& all = polyominoes(W, H);
    mc::Dec d(idx);
    const int depth = ctx.thorough ? 4 : 3;
    static const Fine fi(W, H, 0, 0);
    uint64_t mask = 0;
    WorldPolygon m;
    std::string why;
    for (int i = 0; i < depth; ++i)
    {
        const Poly& p = all[d(all.size())];
        const WorldPolygon q(make(p.ring, frames()[i % 3], i & 1));
        ctx.step();
        if (i == 0)
            m = q;
        else
            m.merge(q);
        mask |= fi.cover(p.mask, W, H, 0, 0);
        if (fi.pinched(mask))
            return;
        const auto cu = fi.parts(mask);
        ctx.check(m.is_valid() and area_is(m.area(), cu[0]), "merge-area", "step %d: area %g after merge instead of %g", i, m.area(), cu[0] * A);
        if (cu.size() > 1)
        {
            ctx.outcome("apart");
            return;
        }
        ctx.check(cells_match(m, fi, mask, why), "merge-cells", "step %d: %s", i, why.c_str());
        ctx.state(mc::mix(mask, i));
    }
    ctx.outcome("merged");
}

// -------- fitting

double cross(const vector2& a, const vector2& b, const vector2& c) { return (b.x() - a.x()) * (c.y() - a.y()) - (b.y() - a.y()) * (c.x() - a.x()); }

std::vector<vector2> ref_hull(std::vector<vector2> p)
{
    std::sort(p.begin(), p.end(), [](const vector2& a, const vector2& b) { return a.x() < b.x() or (a.x() == b.x() and a.y() < b.y()); });
    std::vector<vector2> h;
    for (int pass = 0; pass < 2; ++pass)
    {
        const size_t base = h.size();
        for (const auto& q: p)
        {
            while (h.size() >= base + 2 and cross(h[h.size() - 2], h.back(), q) <= 0)
                h.pop_back();
            h.push_back(q);
        }
        h.pop_back();
        std::reverse(p.begin(), p.end());
    }
    return h;
}
double ref_area(const std::vector<vector2>& r)
{
    double s = 0;
    for (size_t i = 0; i < r.size(); ++i)
        s += r[i].x() * r[(i + 1) % r.size()].y() - r[i].y() * r[(i + 1) % r.size()].x();
    return std::abs(s) / 2;
}
bool inside_or_on(const std::vector<vector2>& r, const vector2& p)
{
    bool in = false;
    for (size_t i = 0, j = r.size() - 1; i < r.size(); j = i++)
    {
        const vector2 ab = r[i] - r[j];
        const double u = std::min(1.0, std::max(0.0, (p - r[j]).dot(ab) / std::max(1e-12, ab.dot(ab))));
        const vector2 q = r[j] + u * ab - p;
        if (q.dot(q) < 1e-3)
            return true;
        if ((r[i].y() > p.y()) != (r[j].y() > p.y()) and p.x() < (r[j].x() - r[i].x()) * (p.y() - r[i].y()) / (r[j].y() - r[i].y()) + r[i].x())
            in = not in;
    }
    return in;
}

// every subset of a W x H lattice of points
void run_fit(mc::Ctx& ctx, const uint64_t idx, const int W, const int H)
{
    std::vector<vector2> pts;
    for (int i = 0; i < W * H; ++i)
        if (idx >> i & 1)
            pts.emplace_back(300.0 * (i % W) + 7 * (i / W), 250.0 * (i / W)); // sheared: fewer exact ties
    if (pts.size() < 3)
    {
        bool threw = false;
        try
        {
            const Polygon p(std::vector<vector3>(pts.size(), vector3(0, 0, 1)), vector3(0, 0, 1), vector3(0, 0, 1));
        }
        catch (const std::invalid_argument&)
        {
            threw = true;
        }
        ctx.check(threw, "fit-few", "a polygon was made of %zu points", pts.size());
        return;
    }
    const auto hull = ref_hull(pts);
    if (hull.size() < 3)
        return;
    ctx.step();
    ctx.state(idx);
    const double ha = ref_area(hull);
    // convex hull
    {
        const auto b = Polygon::compute_convex_hull(pts);
        std::vector<vector2> ring;
        for (const auto& q: b.outer())
            ring.emplace_back(q.x(), q.y());
        ctx.check(ring.size() == hull.size() + 1, "convex-hull", "%zu corners instead of %zu", ring.size() - 1, hull.size());
        ring.pop_back();
        ctx.check(nearR(ref_area(ring), ha, 1e-9), "convex-hull", "area %g instead of %g", ref_area(ring), ha);
    }
    // fit of a boundary around the points, on a tilted plane
    const Frame& f = frames()[3];
    std::vector<vector3> p3;
    for (const auto& q: pts)
        p3.push_back(f.c + q.x() * f.x + q.y() * f.y);
    const vector3 n = f.x.cross(f.y);
    const Polygon p(p3, vector3(n / std::sqrt(n.dot(n))), f.c);
    ctx.check(near(p.get_center(), f.c, 0) and std::abs(p.get_normal().dot(n)) > 1 - 1e-9, "fit-frame", "frame of the fitted polygon");
    const auto bound = p.get_unprojected_boundary();
    if (not p.is_valid() or bound.size() < 4)
    {
        ctx.check(hull.size() != pts.size(), "fit-convex", "no boundary was found around %zu points in convex position", pts.size());
        ctx.outcome("no fit");
        return;
    }
    std::vector<vector2> ring;
    for (size_t i = 0; i + 1 < bound.size(); ++i)
    {
        const vector2 q = in_frame(bound[i], f);
        double best = 1e9;
        for (const auto& r: pts)
            best = std::min(best, amax(vector2(r - q)));
        ctx.check(std::abs((bound[i] - f.c).dot(n)) < 1e-6 and inside_or_on(hull, q), "fit-boundary", "the boundary has a corner (%g %g) that is out of the convex hull of the points", q.x(), q.y());
        if (best > 1e-3)
            ctx.count("corners made by the correction of a crossing boundary");
        ring.push_back(q);
    }
    ctx.check(nearR(ref_area(ring), p.area(), 1e-6) and nearR(p.area(), p.get_area(), 1e-9), "fit-area", "area %g / %g / %g", ref_area(ring), p.area(), p.get_area());
    ctx.check(p.area() > 0 and p.area() <= ha * (1 + 1e-9), "fit-area", "area %g, the convex hull has %g", p.area(), ha);
    size_t lost = 0;
    for (const auto& r: pts)
        lost += not inside_or_on(ring, r);
    ctx.count("lost points", lost);
    if (hull.size() == pts.size())
    {
        ctx.check(lost == 0 and nearR(p.area(), ha, 1e-6), "fit-convex", "%zu of %zu points in convex position are out of the boundary, area %g instead of %g", lost, pts.size(), p.area(), ha);
        ctx.outcome("convex");
    }
    else
        ctx.outcome(lost ? "some points outside" : "all points covered");
}

} // namespace

int main(int argc, char** argv)
{
    std::vector<mc::Family> f;
    f.push_back({"polyomino_pairs", [](bool) { return polyominoes(3, 3).size() * 3 * 2; }, [](mc::Ctx& c, uint64_t i) { run_pairs(c, i, false); }, 60});
    f.push_back({"shifted_polyomino_pairs", [](bool) { return polyominoes(3, 3).size() * 4 * 2; }, [](mc::Ctx& c, uint64_t i) { run_pairs(c, i, true); }, 60});
    f.push_back({"merge_sequences", [](bool t) { return mc::ipow(polyominoes(3, 2).size(), t ? 4 : 3); }, run_merges, 20});
    f.push_back({"fits_4x3", [](bool) { return uint64_t(1) << 12; }, [](mc::Ctx& c, uint64_t i) { run_fit(c, i, 4, 3); }, 20});
    f.push_back({"fits_5x3", [](bool t) { return t ? uint64_t(1) << 15 : 0; }, [](mc::Ctx& c, uint64_t i) { run_fit(c, i, 5, 3); }, 20});
    f.push_back({"fits_4x4", [](bool t) { return t ? uint64_t(1) << 16 : 0; }, [](mc::Ctx& c, uint64_t i) { run_fit(c, i, 4, 4); }, 20});
    return mc::main_(argc, argv, f);
}
