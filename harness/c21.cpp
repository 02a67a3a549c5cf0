// C21: the search of a keypoint match gives what a brute force search over all the detected keypoints gives, for every small
// arrangement of keypoints; the container keeps nothing of the previous frames
#include "geo.hpp"
#include <set>
#include "features/keypoints/keypoint_handler.hpp"

using namespace geo;
using features::keypoints::Keypoint_Handler;
using features::keypoints::KeypointsWithIdStruct;

namespace {

struct Size
{
    int cols, rows;
};
const std::vector<Size>& sizes()
{
    static const std::vector<Size> s = {{640, 480}, {480, 640}, {62, 61}, {33, 310}, {1280, 100}};
    return s;
}
constexpr double radius = parameters::matching::matchSearchRadius_px;

// descriptors: `bits` bits away from the descriptor of the map point
cv::Mat descriptor(const int bits)
{
    cv::Mat d = cv::Mat::zeros(1, 32, CV_8U);
    for (int i = 0; i < bits; ++i)
        d.at<uchar>(0, i / 8) |= uchar(1 << (i % 8));
    return d;
}
float depth_at(const int x, const int y) { return 500.0f + float(x) * 3 + float(y) * 0.25f; }
const cv::Mat_<float>& depth_image(const Size& s)
{
    static std::map<std::pair<int, int>, cv::Mat_<float>> m;
    auto& d = m[{s.cols, s.rows}];
    if (d.empty())
    {
        d = cv::Mat_<float>(s.rows, s.cols);
        for (int y = 0; y < s.rows; ++y)
            for (int x = 0; x < s.cols; ++x)
                d(y, x) = depth_at(x, y);
    }
    return d;
}

struct Kp
{
    vector2 at;
    int bits;
    bool matched;
};
// brute force: the answer of the documentation
std::set<size_t> brute(const std::vector<Kp>& kps, const vector2& query, const double r)
{
    int best = -1, bestBits = 0, second = -1;
    for (int i = 0; i < int(kps.size()); ++i)
    {
        if (kps[i].matched)
            continue;
        const vector2 d = kps[i].at - query;
        if (d.dot(d) > r * r)
            continue;
        if (best < 0 or kps[i].bits < bestBits)
        {
            second = best < 0 ? -1 : bestBits;
            best = i;
            bestBits = kps[i].bits;
        }
        else if (second < 0 or kps[i].bits < second)
            second = kps[i].bits;
    }
    if (best < 0)
        return {};
    if (second >= 0 and not(bestBits < 0.7 * second))
        return {};
    return {size_t(best)};
}
void fill(Keypoint_Handler& h, const Size& s, const std::vector<Kp>& kps, const KeypointsWithIdStruct& tracked = KeypointsWithIdStruct())
{
    std::vector<cv::Point2f> pts;
    cv::Mat des;
    for (const Kp& k: kps)
    {
        pts.push_back(cv::Point2f(float(k.at.x()), float(k.at.y())));
        des.push_back(descriptor(k.bits));
    }
    h.set(pts, des, tracked, depth_image(s));
}
std::string str_of(const std::vector<Kp>& kps)
{
    std::string r;
    for (const Kp& k: kps)
        r += mc::fmt(" (%g %g)%s bits %d", k.at.x(), k.at.y(), k.matched ? " matched" : "", k.bits);
    return r;
}
void compare(mc::Ctx& ctx, const Keypoint_Handler& h, const std::vector<Kp>& kps, const vector2& query, const double r, const size_t tracked = 0)
{
    ctx.step();
    vectorb flags = vectorb::Zero(kps.size() + tracked);
    for (size_t i = 0; i < kps.size(); ++i)
        flags[i] = kps[i].matched;
    const auto got = h.get_match_indexes(ScreenCoordinate2D(query.x(), query.y()), descriptor(0), flags, r);
    const std::set<size_t> g(got.begin(), got.end()), w = brute(kps, query, r);
    ctx.outcome(w.empty() ? "no match" : "match");
    ctx.check(g == w, "match", "query (%g %g) radius %g keypoints%s: found %d, a search over all keypoints finds %d", query.x(), query.y(), r, str_of(kps).c_str(), g.empty() ? -1 : int(*g.begin()), w.empty() ? -1 : int(*w.begin()));
}

const std::vector<vector2>& offsets()
{
    const double r = radius, e = 0.5;
    static const std::vector<vector2> o = {vector2(0, 0), vector2(r - e, 0), vector2(-r - e, 0), vector2(0, -r + e), vector2(0, r + e), vector2(2 * r - e, 0), vector2(0, -2 * r + e), vector2(0, 2 * r + e), vector2(-2 * r - e, 0), vector2(20, -20), vector2(25, 25), vector2(-40, -40), vector2(-45, 40)};
    return o;
}
vector2 query_of(const Size& s, const int k)
{
    const double w = s.cols, h = s.rows;
    const vector2 q[] = {vector2(w / 2, h / 2), vector2(3, 4), vector2(w - 2, h - 2), vector2(w - 5, 7), vector2(10, h - 6), vector2(radius + 1, radius + 1), vector2(w / 3 + 0.25, 2), vector2(1, h / 3), vector2(-20, h / 2), vector2(w + 10, h + 15)};
    return q[k];
}
constexpr int queries = 10;

// pairs (thorough: triples) of keypoints around a query
void run_search(mc::Ctx& ctx, const uint64_t idx, const int n)
{
    mc::Dec d(idx);
    const Size s = sizes()[d(sizes().size())];
    const vector2 q = query_of(s, int(d(queries)));
    Keypoint_Handler h(s.cols, s.rows, 0.7);
    const int bits[] = {0, 7, 10, 200};
    const int per = int(offsets().size()) * 4 * 2;
    // keypoints are inside the image
    auto kp = [&](const uint64_t v, Kp& k) {
        mc::Dec e(v);
        k.at = q + offsets()[e(offsets().size())];
        k.bits = bits[e(4)];
        k.matched = e(2);
        return k.at.x() >= 0 and k.at.y() >= 0 and k.at.x() < s.cols and k.at.y() < s.rows;
    };
    const uint64_t first = d(per);
    std::vector<Kp> kps(1);
    if (not kp(first, kps[0]))
        return;
    auto both = [&] {
        fill(h, s, kps);
        for (const double r: {radius, 2 * radius})
            compare(ctx, h, kps, q, r);
        ctx.state(mc::mix(idx, mc::mixs(kps.size(), str_of(kps))));
    };
    both();
    kps.resize(2);
    for (int b = 0; b < per; ++b)
    {
        kps.resize(2);
        if (not kp(b, kps[1]))
            continue;
        both();
        if (n < 3)
            continue;
        kps.resize(3);
        for (int c = 0; c < per; c += 1)
            if (kp(c, kps[2]) and not kps[2].matched)
                both();
    }
}

// many keypoints: a grid over the whole image, every query on a finer grid (cell borders of the search space included)
void run_grid(mc::Ctx& ctx, const uint64_t idx)
{
    mc::Dec d(idx);
    const Size s = sizes()[d(sizes().size())];
    const int pitch = int(d(2)) ? 17 : 29;
    const int pattern = int(d(3));
    const int row = int(d.v); // one row of queries
    std::vector<Kp> kps;
    int n = 0;
    for (int y = 0; y < s.rows; y += pitch)
        for (int x = 0; x < s.cols; x += pitch, ++n)
            kps.push_back({vector2(x, y), pattern == 0 ? (n * 37) % 200 : pattern == 1 ? (n % 5 ? 100 : 20) : (n * 11) % 64, pattern == 2 and n % 3 == 0});
    Keypoint_Handler h(s.cols, s.rows, 0.7);
    fill(h, s, kps);
    const double y = row * s.rows / 24.0 + 0.3;
    for (int i = 0; i <= 40; ++i)
        for (const double r: {radius, 2 * radius})
            compare(ctx, h, kps, vector2(i * s.cols / 40.0 + 0.2, y), r);
}

// histories: sequences of frames given to the same container
constexpr int frames = 6;
void run_history(mc::Ctx& ctx, const uint64_t idx)
{
    mc::Dec d(idx);
    const Size s = sizes()[d(2)];
    const auto word = mc::word_upto(d.v, frames);
    Keypoint_Handler h(s.cols, s.rows, 0.7);
    for (const int l: word)
    {
        std::vector<Kp> kps;
        KeypointsWithIdStruct tracked;
        std::vector<std::pair<size_t, vector2>> tr;
        if (l == 1 or l == 3)
            for (int i = 0; i < 3; ++i)
                kps.push_back({vector2(100 + 5 * i, 50.5), 10 + 20 * i, false});
        if (l == 2)
            for (int i = 0; i < 6; ++i)
                kps.push_back({vector2(110 - 20 * i, 60 + 3 * i), 90 - 15 * i, i == 1});
        if (l == 3 or l == 4)
            tr = {{7, vector2(105, 52)}, {3, vector2(200.4, 100.6)}, {9, vector2(s.cols - 0.5, 10)}};
        if (l == 5)
        {
            kps.push_back({vector2(0, 0), 3, false});
            kps.push_back({vector2(s.cols - 1, s.rows - 1), 5, false});
            tr = {{3, vector2(103, 51)}};
        }
        for (const auto& [id, p]: tr)
            tracked.add(id, p.x(), p.y());
        fill(h, s, kps, tracked);
        ctx.step();
        ctx.check(h.size() == kps.size() + tr.size() and h.get_keypoint_count() == h.size(), "size", "%d keypoints, %d were given", int(h.size()), int(kps.size() + tr.size()));
        auto want_depth = [&](const vector2& p) {
            return p.x() >= 1 and p.y() >= 1 and p.x() < s.cols - 1 and p.y() < s.rows - 1 ? double(depth_at(int(std::round(float(p.x()))), int(std::round(float(p.y()))))) : 0.0;
        };
        for (size_t i = 0; i < h.size(); ++i)
        {
            const vector2 p = i < kps.size() ? kps[i].at : tr[i - kps.size()].second;
            const auto k = h.at(i);
            ctx.check(near(h.get_keypoint(i), vector3(p.x(), p.y(), want_depth(p)), 1e-3) and near(k._coordinates, h.get_keypoint(i), 0), "keypoint", "keypoint %d is %s", int(i), str(h.get_keypoint(i)).c_str());
            const bool has = i < kps.size();
            ctx.check(h.is_descriptor_computed(i) == has and k._descriptor.empty() == (not has), "descriptor", "keypoint %d: descriptor", int(i));
            if (has)
                ctx.check(cv::norm(k._descriptor, descriptor(kps[i].bits), cv::NORM_HAMMING) == 0, "descriptor", "keypoint %d: wrong descriptor", int(i));
        }
        for (size_t id = 0; id < 12; ++id)
        {
            int want = -1;
            for (size_t i = 0; i < tr.size(); ++i)
                if (tr[i].first == id)
                    want = int(kps.size() + i);
            ctx.check(h.get_tracking_match_index(id) == want, "tracked", "tracked point %d is keypoint %d, expected %d", int(id), h.get_tracking_match_index(id), want);
            for (int m = 0; m < 2; ++m)
            {
                vectorb flags = vectorb::Constant(h.size(), false);
                if (want >= 0)
                    flags[want] = m;
                ctx.check(h.get_tracking_match_index(id, flags) == (m ? -1 : want), "tracked", "tracked point %d with flags", int(id));
            }
        }
        for (const vector2& q: {vector2(100, 50), vector2(110, 60), vector2(2, 2), vector2(s.cols - 3, s.rows - 3)})
            for (const double r: {radius, 2 * radius})
                if (not kps.empty() or not tr.empty())
                    compare(ctx, h, kps, q, r, tr.size());
        ctx.state(mc::mix(l, h.size()));
    }
}

} // namespace

int main(int argc, char** argv)
{
    std::vector<mc::Family> f;
    const uint64_t per = offsets().size() * 8;
    f.push_back({"histories", [](bool th) { return 2 * mc::words_upto(frames, th ? 6 : 4); }, run_history});
    f.push_back({"grid", [](bool) { return uint64_t(5 * 2 * 3 * 25); }, run_grid});
    f.push_back({"pairs", [=](bool) { return 5 * queries * per; }, [](mc::Ctx& c, uint64_t i) { run_search(c, i, 2); }});
    f.push_back({"triples", [=](bool th) { return th ? 5 * queries * per : 0; }, [](mc::Ctx& c, uint64_t i) { run_search(c, i, 3); }});
    return mc::main_(argc, argv, f);
}
