// C18: the keypoints of a frame: tracked points keep their identity, new points are the best ones of each part of the image
#include "geo.hpp"
#include "features/keypoints/keypoint_detection.hpp"
#include <algorithm>
#include <map>

using namespace geo;
using namespace rgbd_slam::features::keypoints;

namespace {

constexpr int W = 480, H = 360, cols = 3, rows = 3, maxFrame = 100, perWindow = maxFrame / (cols * rows), maskRadius = 15, border = 31;
constexpr int background = 60;

const Cfg& cfg()
{
    static const Cfg c = {W, H, 500, 500, W / 2.0, H / 2.0, W, H, 500, 500, W / 2.0, H / 2.0, {0, 0, 0}, {0, 0, 0}};
    return c;
}

// a round spot: exactly one corner, at its centre, that scores higher when it is brighter
struct Spot
{
    int x, y, bright;
    size_t id = 0; // tracked with this identifier
};
using Scene = std::vector<Spot>;
cv::Mat image_of(const Scene& s, const cv::Point& shift = {0, 0})
{
    cv::Mat_<uchar> img(H, W, uchar(background));
    for (const Spot& p: s)
        for (int dy = -5; dy <= 5; ++dy)
            for (int dx = -5; dx <= 5; ++dx)
            {
                const int x = p.x + shift.x + dx, y = p.y + shift.y + dy;
                if (x < 0 or y < 0 or x >= W or y >= H)
                    continue;
                const int v = background + int(std::lround(p.bright * std::exp(-(dx * dx + dy * dy) / 4.5)));
                img(y, x) = uchar(std::max<int>(img(y, x), v));
            }
    return img;
}
cv::Mat_<float> depth_of()
{
    cv::Mat_<float> d(H, W);
    for (int y = 0; y < H; ++y)
        for (int x = 0; x < W; ++x)
            d(y, x) = float(500 + 2 * x + 3 * y);
    return d;
}

struct Expected
{
    std::vector<std::pair<size_t, cv::Point2f>> tracked;
    std::vector<cv::Point2f> found;
};
// what the frame must give: tracked spots at their place, and the brightest other spots of each window
Expected expect(const Scene& s, const cv::Point& shift, const bool canTrack, const bool force)
{
    Expected e;
    std::map<int, int> inWindow;
    auto window = [](const int x, const int y) { return y / (H / rows) * cols + x / (W / cols); };
    if (canTrack)
        for (const Spot& p: s)
            if (p.id)
            {
                e.tracked.push_back({p.id, cv::Point2f(float(p.x + shift.x), float(p.y + shift.y))});
                inWindow[window(p.x + shift.x, p.y + shift.y)] += 1;
            }
    if (not force and int(e.tracked.size()) >= maxFrame)
        return e;
    std::map<int, std::vector<Spot>> best;
    for (Spot p: s)
    {
        p.x += shift.x;
        p.y += shift.y;
        if (p.bright < 8)
            continue;
        bool masked = false;
        for (const auto& [id, t]: e.tracked)
            masked |= std::hypot(t.x - p.x, t.y - p.y) <= maskRadius;
        if (not masked)
            best[window(p.x, p.y)].push_back(p);
    }
    for (auto& [w, v]: best)
    {
        std::sort(v.begin(), v.end(), [](const Spot& a, const Spot& b) { return a.bright > b.bright; });
        const int room = std::max(0, perWindow - inWindow[w]);
        for (int i = 0; i < int(v.size()) and i < room; ++i)
            // the descriptor cannot be computed next to the limits of the image
            if (v[size_t(i)].x >= border and v[size_t(i)].y >= border and v[size_t(i)].x < W - border and v[size_t(i)].y < H - border)
                e.found.push_back(cv::Point2f(float(v[size_t(i)].x), float(v[size_t(i)].y)));
    }
    return e;
}
std::string describe(const Keypoint_Handler& h)
{
    std::string s;
    for (uint i = 0; i < h.size(); ++i)
        s += mc::fmt("(%.1f %.1f%s) ", h.get_keypoint(i).x(), h.get_keypoint(i).y(), h.is_descriptor_computed(i) ? "" : " tracked");
    return s;
}
// values of a result, to see that it does not change afterwards
std::string content(const Keypoint_Handler& h)
{
    std::string s;
    for (uint i = 0; i < h.size(); ++i)
    {
        const auto k = h.get_keypoint(i);
        s += mc::fmt("%.17g %.17g %.17g;", k.x(), k.y(), k.z());
        if (h.is_descriptor_computed(i))
        {
            const cv::Mat d = h.get_descriptor(i);
            for (int j = 0; j < d.cols; ++j)
                s += mc::fmt("%02x", d.at<uchar>(0, j));
        }
    }
    for (size_t id = 1; id < 130; ++id)
        s += mc::fmt(",%d", h.get_tracking_match_index(id));
    return s;
}
void check_frame(mc::Ctx& c, const Keypoint_Handler& h, const Expected& e, const cv::Mat& img, const cv::Mat_<float>& depth, const char* what)
{
    std::vector<bool> isTracked(h.size(), false);
    for (const auto& [id, at]: e.tracked)
    {
        const int i = h.get_tracking_match_index(id);
        c.check(i >= 0 and i < int(h.size()), "tracked-lost", "%s: point %zu at (%g %g) is not tracked", what, id, at.x, at.y);
        const auto k = h.get_keypoint(uint(i));
        c.check(std::hypot(k.x() - at.x, k.y() - at.y) < 1.0, "tracked-place", "%s: point %zu is tracked at (%g %g), it is at (%g %g)", what, id, k.x(), k.y(), at.x, at.y);
        c.check(not isTracked[size_t(i)], "tracked-twice", "%s: two points are tracked as the same keypoint", what);
        isTracked[size_t(i)] = true;
    }
    for (size_t id = 1; id < 130; ++id)
        if (std::none_of(e.tracked.begin(), e.tracked.end(), [&](const auto& t) { return t.first == id; }))
            c.check(h.get_tracking_match_index(id) < 0, "tracked-ghost", "%s: point %zu is tracked, it was not in the last frame", what, id);
    std::vector<int> hit(e.found.size(), 0);
    for (uint i = 0; i < h.size(); ++i)
    {
        const auto k = h.get_keypoint(i);
        const int x = int(std::round(k.x())), y = int(std::round(k.y()));
        c.check(x >= 0 and y >= 0 and x < W and y < H, "outside", "%s: a keypoint at (%g %g)", what, k.x(), k.y());
        if (x >= 1 and y >= 1 and x < W - 1 and y < H - 1)
            c.check(k.z() == double(depth(y, x)), "depth", "%s: keypoint (%g %g) has depth %g, the image has %g", what, k.x(), k.y(), k.z(), double(depth(y, x)));
        if (isTracked[i])
        {
            c.check(not h.is_descriptor_computed(i), "tracked-descriptor", "%s: a tracked point has the descriptor of another point", what);
            continue;
        }
        int which = -1;
        for (size_t j = 0; j < e.found.size(); ++j)
            if (std::hypot(k.x() - e.found[j].x, k.y() - e.found[j].y) < 1.0)
                which = int(j);
        c.check(which >= 0, "unexpected", "%s: a keypoint at (%g %g), expected %zu others: %s", what, k.x(), k.y(), e.found.size(), describe(h).c_str());
        c.check(++hit[size_t(which)] == 1, "twice", "%s: the keypoint at (%g %g) is there twice", what, k.x(), k.y());
        c.check(h.is_descriptor_computed(i), "descriptor", "%s: no descriptor", what);
        std::vector<cv::KeyPoint> one;
        cv::KeyPoint::convert(std::vector<cv::Point2f> {cv::Point2f(float(k.x()), float(k.y()))}, one);
        cv::Mat want;
        static const auto extractor = cv::xfeatures2d::BriefDescriptorExtractor::create();
        extractor->compute(img, one, want);
        c.check(want.rows == 1 and cv::norm(want, h.get_descriptor(i), cv::NORM_HAMMING) == 0, "descriptor", "%s: the keypoint at (%g %g) has the descriptor of another point", what, k.x(), k.y());
    }
    for (size_t j = 0; j < hit.size(); ++j)
        c.check(hit[j] == 1, "missing", "%s: no keypoint at (%g %g): %s", what, e.found[j].x, e.found[j].y, describe(h).c_str());
}
KeypointsWithIdStruct known(const Scene& s, const cv::Point& shift)
{
    KeypointsWithIdStruct k;
    for (const Spot& p: s)
        if (p.id)
            k.add(p.id, double(p.x + shift.x), double(p.y + shift.y));
    return k;
}

// ---- one window of the image, with more or less spots than it can give, some of them tracked
constexpr int spotCounts[] = {0, 1, 3, 10, 11, 12, 16}, trackedCounts[] = {0, 1, 4, 10, 11, 13};
void run_windows(mc::Ctx& c, const uint64_t idx)
{
    mc::Dec d(idx);
    const int w = int(d(cols * rows)), n = spotCounts[d(7)], t = trackedCounts[d(6)], style = int(d(4));
    const bool force = d(2);
    if (t > n)
        return;
    const int x0 = w % cols * (W / cols), y0 = w / cols * (H / rows);
    Scene s;
    for (int i = 0; i < n; ++i)
    {
        // styles: all strong, strong and weak, weak only (but the tracked ones), some that cannot be seen
        int bright = 60 + 8 * ((i * 7) % 16);
        if (style == 1 and i % 2)
            bright = 12 + 3 * (i / 2);
        else if (style == 2)
            bright = 12 + 6 * ((i * 5) % 16);
        else if (style == 3 and i % 4 == 3)
            bright = 5;
        s.push_back({x0 + 20 + 38 * (i % 4), y0 + 20 + 26 * (i / 4), bright});
    }
    // the tracked ones are spread over the scores; they must be visible to be tracked
    for (int i = 0, k = 0; i < n and k < t; ++i)
    {
        s[size_t((i * 7) % n)].id = size_t(++k);
        s[size_t((i * 7) % n)].bright = std::max(s[size_t((i * 7) % n)].bright, 61 + 2 * k);
    }
    // a spot in each other window
    for (int k = 0; k < cols * rows; ++k)
        if (k != w)
            s.push_back({k % cols * (W / cols) + 70, k / cols * (H / rows) + 60, 40 + 5 * k});
    const cv::Mat img = image_of(s);
    const auto depth = depth_of();
    Key_Point_Extraction x;
    c.step(2);
    const auto first = x.compute_keypoints(img, depth, known(s, {0, 0}), force);
    const std::string before = content(first);
    check_frame(c, first, expect(s, {0, 0}, false, force), img, depth, "first frame");
    const auto second = x.compute_keypoints(img, depth, known(s, {0, 0}), force);
    check_frame(c, second, expect(s, {0, 0}, true, force), img, depth, "second frame");
    c.check(content(first) == before, "changed", "the keypoints of the first frame changed when the second one was processed");
    c.outcome(mc::fmt("tracked %d found %zu", t, second.size() - size_t(t)));
    c.state(mc::mixs(mc::mix(1, idx), describe(second)));
}

// ---- a spot next to a tracked point: found when it is far enough
void run_mask(mc::Ctx& c, const uint64_t idx)
{
    mc::Dec d(idx);
    const int where = int(d(6)), angle = int(d(8)), dist = std::vector<int> {9, 12, 14, 17, 19, 24}[d(6)];
    const bool strong = d(2);
    static const std::vector<cv::Point> at = {{80, 60}, {240, 180}, {160, 120}, {320, 230}, {240, 240}, {400, 300}};
    const cv::Point p = at[size_t(where)];
    const cv::Point q(p.x + int(std::lround(dist * std::cos(angle * M_PI / 4))), p.y + int(std::lround(dist * std::sin(angle * M_PI / 4))));
    const double real = std::hypot(p.x - q.x, p.y - q.y);
    // across the limit of two windows the corner is not looked for: keep away from it
    if ((real > 14.6 and real < 16.4) or std::min({q.x % 160, 160 - q.x % 160, q.y % 120, 120 - q.y % 120}) < 8 or q.x < border or q.y < border)
        return;
    Scene s = {{p.x, p.y, 150, 3}, {q.x, q.y, strong ? 180 : 20}, {p.x + 45, p.y + 5, 100}, {p.x - 40, p.y + 22, 70, 4}};
    for (auto& k: s)
        if (std::min({k.x % 160, 160 - k.x % 160, k.y % 120, 120 - k.y % 120}) < 8 and k.id == 0)
            k.x += 12;
    const cv::Mat img = image_of(s);
    const auto depth = depth_of();
    Key_Point_Extraction x;
    c.step(2);
    std::ignore = x.compute_keypoints(img, depth, KeypointsWithIdStruct(), false);
    const auto h = x.compute_keypoints(img, depth, known(s, {0, 0}), false);
    check_frame(c, h, expect(s, {0, 0}, true, false), img, depth, mc::fmt("spot at %g pixels of a tracked point", real).c_str());
    c.outcome(mc::fmt("%zu keypoints", h.size()));
    c.state(mc::mixs(mc::mix(2, idx), describe(h)));
}

// ---- the most points that a frame can have
void run_maximum(mc::Ctx& c, const uint64_t idx)
{
    mc::Dec d(idx);
    const int t = std::vector<int> {1, 50, 98, 99, 100, 101, 104}[d(7)];
    const bool force = d(2);
    Scene s;
    for (int i = 0; i < t; ++i)
        s.push_back({12 + 20 * (i % 23), 12 + 20 * (i / 23), 60 + (i * 37) % 101, size_t(i + 1)});
    for (int k = 3; k < cols * rows; ++k)
        for (int j = 0; j < 3; ++j)
            s.push_back({k % cols * (W / cols) + 40 + 40 * j, k / cols * (H / rows) + 60 + 10 * j, 40 + 9 * k + 3 * j});
    const cv::Mat img = image_of(s);
    const auto depth = depth_of();
    Key_Point_Extraction x;
    c.step(2);
    std::ignore = x.compute_keypoints(img, depth, KeypointsWithIdStruct(), false);
    const auto h = x.compute_keypoints(img, depth, known(s, {0, 0}), force);
    check_frame(c, h, expect(s, {0, 0}, true, force), img, depth, mc::fmt("%d tracked points, detection %s", t, force ? "asked" : "not asked").c_str());
    c.outcome(mc::fmt("%zu keypoints", h.size()));
    c.state(mc::mixs(mc::mix(3, idx), describe(h)));
}

// ---- sequences of frames: the camera moves, loses sight, and tracked points come and go
constexpr int letters = 9;
struct Film
{
    Scene scene;
    cv::Point shift {0, 0}, last {0, 0};
    bool blank = true, lastBlank = true;
    Key_Point_Extraction x;
};
void run_film(mc::Ctx& c, const uint64_t idx)
{
    mc::Dec d(idx);
    const bool two = d(2); // a second sequence of frames is processed by another extractor in turn
    const auto word = mc::word_upto(d.v, letters);
    Film films[2];
    for (int k = 0; k < 2; ++k)
        for (int i = 0; i < 12; ++i)
        {
            // far enough from the limits of the windows for the whole film
            const int w = i % 9;
            films[k].scene.push_back({w % cols * (W / cols) + (i < 9 ? 62 : 106) + (i * 3 + 5 * k) % 8, w / cols * (H / rows) + 55 + (i * 7 + k * 3) % 11, 80 + 9 * ((i * 5 + k) % 12)});
        }
    const auto depth = depth_of();
    static const cv::Point moves[] = {{0, 0}, {5, 0}, {-3, 6}, {4, -7}};
    std::vector<std::pair<Keypoint_Handler, std::string>> kept;
    int frame = 0;
    auto step = [&](Film& f, const int l) {
        c.step();
        ++frame;
        f.last = f.shift;
        const bool hadFrame = not f.blank;
        // 0-3: all points of the last frame are given back; 4: none; 5: a part of them; 6: the view is hidden; 7: nothing is given and detection is asked; 8: a point without any texture around is given first
        f.blank = l == 6;
        const cv::Point m = l < 4 ? moves[l] : l == 5 ? cv::Point(-4, -2) : l == 4 ? cv::Point(6, 3) : l == 8 ? cv::Point(-5, 1) : cv::Point(0, 0);
        f.shift += m;
        Scene s = f.scene;
        for (size_t i = 0; i < s.size(); ++i)
            s[i].id = (l == 4 or l == 7) ? 0 : (l == 5 and i % 3 == 0) ? 0 : i + 1;
        const cv::Mat img = f.blank ? image_of({}) : image_of(s, f.shift);
        KeypointsWithIdStruct given;
        if (l == 8)
            given.add(99, 12.0, 120.0);
        const auto all = known(s, f.last);
        for (size_t i = 0; i < all.size(); ++i)
            given.add(all.at(i)._id, all.at(i)._point);
        const auto h = f.x.compute_keypoints(img, depth, given, l == 7);
        Expected e = expect(f.blank ? Scene {} : s, f.shift, hadFrame, l == 7);
        check_frame(c, h, e, img, depth, mc::fmt("frame %d (%d)", frame, l).c_str());
        for (const auto& [k, before]: kept)
            c.check(content(k) == before, "changed", "the keypoints of an older frame changed at frame %d", frame);
        kept.emplace_back(h, content(h));
    };
    for (size_t i = 0; i < word.size(); ++i)
    {
        step(films[0], word[i]);
        if (two)
            step(films[1], word[word.size() - 1 - i]);
    }
    c.outcome(mc::fmt("%d frames", frame));
    c.state(mc::mixs(4, kept.empty() ? "" : kept.back().second));
}

} // namespace

int main(int argc, char** argv)
{
    if (not load_config(cfg()))
        return 2;
    cv::setNumThreads(1);
    std::vector<mc::Family> f;
    f.push_back({"windows", [](const bool) { return uint64_t(cols * rows * 7 * 6 * 4 * 2); }, run_windows, 60, 32});
    f.push_back({"mask", [](const bool) { return uint64_t(6 * 8 * 6 * 2); }, run_mask, 60, 32});
    f.push_back({"maximum", [](const bool) { return uint64_t(14); }, run_maximum, 60, 2});
    f.push_back({"film", [](const bool t) { return 2 * mc::words_upto(letters, t ? 5 : 4); }, run_film, 60, 32});
    return mc::main_(argc, argv, f);
}
