// C01: the real map of points, points of unknown depth and planes follows the life of the landmarks, for every bounded history of frames
#include "geo.hpp"
#include "map_management/local_map.hpp"
#include "map_management/map_features/map_point.hpp"
#include "map_management/map_features/map_point2d.hpp"
#include "map_management/map_features/map_primitive.hpp"
#include "utils/camera_transformation.hpp"
#include <filesystem>
#include <fstream>
#include <set>
#include <unistd.h>

using namespace geo;
using features::keypoints::Keypoint_Handler;
using features::keypoints::KeypointsWithIdStruct;
using map_management::DetectedFeatureContainer;
using map_management::localPlaneMap;
using map_management::localPoint2DMap;
using map_management::localPointMap;
using map_management::TrackedFeaturesContainer;
using matches_containers::match_container;

namespace {
const Cfg& cfg() { return configs()[1]; }
vector2 project(const vector3& cam) { return vector2(cfg().fx1 * cam.x() / cam.z() + cfg().cx1, cfg().fy1 * cam.y() / cam.z() + cfg().cy1); }

struct Writer : outputs::IMap_Writer
{
    Writer() : outputs::IMap_Writer("./c01-unused") {}
    std::vector<vector3> points;
    std::vector<std::vector<vector3>> polygons;
    int lines = 0;
    void add_point(const vector3& p) noexcept override { points.push_back(p); }
    void add_line(const std::vector<vector3>&) noexcept override { ++lines; }
    void add_polygon(const std::vector<vector3>& c, const vector3&) noexcept override { polygons.push_back(c); }
};

cv::Mat descriptor(const int kind)
{
    cv::Mat d = cv::Mat::zeros(1, 32, CV_8U);
    for (int i = 0; i < 32; ++i)
        d.at<uchar>(0, i) = uchar(kind == 0 ? 0x0f : kind == 1 ? 0xf0 : 0xaa);
    return d;
}

// poses of the camera, used in turn
struct View
{
    matrix44 ref_c2w, ref_w2c;
    CameraToWorldMatrix c2w;
    WorldToCameraMatrix w2c;
};
const std::vector<View>& views()
{
    static const std::vector<View> v = [] {
        std::vector<View> o;
        const std::vector<std::pair<vector3, matrix33>> p = {{vector3(0, 0, 0), matrix33::Identity()}, {vector3(20, -30, 10), rodrigues(vector3(0, 0, 1), 0.02)}, {vector3(-25, 15, -5), rodrigues(vector3(1, 1, 0), -0.03)}};
        for (const auto& [t, R]: p)
        {
            View w;
            w.ref_c2w = ref_c2w(R, t);
            w.ref_w2c = rigid_inverse(w.ref_c2w);
            w.c2w = utils::compute_camera_to_world_transform(quat(R), t);
            w.w2c = utils::compute_world_to_camera_transform(quat(R), t);
            o.push_back(w);
        }
        return o;
    }();
    return v;
}

// landmarks in the world (seen from the first view): two with other descriptors, a third one with the descriptor of the first
const vector3& landmark(const int i)
{
    static const std::vector<vector3> w = [] {
        std::vector<vector3> o;
        for (const vector3& cam: {vector3(-200, -100, 1200), vector3(250, 150, 1600), vector3(150, -250, 1000)})
            o.push_back((views()[0].ref_c2w * cam.homogeneous()).head<3>());
        return o;
    }();
    return w[size_t(i)];
}

struct Seen
{
    int who;
    bool moved = false, noDepth = false, tracked = false;
    bool given = false; // given as a tracked keypoint
};

// a feature of the model
struct Feat
{
    int who;
    bool local = false, moving = false, matched = false;
    bool elsewhere = false; // first seen at the displaced position of its landmark
    int count = 0, failed = 0;
    size_t id = 0;
};

// letters of the histories of points
enum : int
{
    NONE,
    A,
    B,
    AB,
    BA,
    A_NO_DEPTH,
    A_MOVED,
    AC,
    A_TRACKED,
    NO_POSE,
    RESET,
    OUTLIER,
    LONG_GAP, // nine frames without detections
    LETTERS
};
std::vector<Seen> seen_of(const int l)
{
    switch (l)
    {
        case A:
        case OUTLIER:
            return {{0}};
        case B:
            return {{1}};
        case AB:
            return {{0}, {1}};
        case BA:
            return {{1}, {0}};
        case A_NO_DEPTH:
            return {{0, false, true}};
        case A_MOVED:
            return {{0, true}};
        case AC:
            return {{2}, {0}};
        case A_TRACKED:
            return {{0, false, false, true}};
        default:
            return {};
    }
}

template<class Map> struct Run
{
    mc::Ctx& c;
    const bool flat;   // points of unknown depth
    const bool travel; // the camera uses its views in turn
    Map map;
    std::shared_ptr<Writer> writer = std::make_shared<Writer>();
    std::vector<Feat> model;
    std::set<size_t> usedIds;
    size_t frame = 0, written = 0;
    bool unspecified = false;

    Run(mc::Ctx& ctx, const bool f, const bool t) : c(ctx), flat(f), travel(t) {}

    std::string show() const
    {
        std::string s;
        for (const Feat& f: model)
            s += mc::fmt("%s%c%s(%d,%d) ", f.local ? "L" : "s", 'A' + f.who, f.moving ? "!" : "", f.count, f.failed);
        return s;
    }

    void step(const int letter)
    {
        if (letter == LONG_GAP)
        {
            for (int i = 0; i < 9; ++i)
                one(NONE);
            return;
        }
        one(letter);
    }
    void sizes(const char* when)
    {
        size_t loc = 0, st = 0;
        for (const Feat& f: model)
            (f.local ? loc : st) += 1;
        c.note("%s: %s| local %zu staged %zu", when, show().c_str(), map.get_local_map_size(), map.get_staged_map_size());
        c.check(map.get_local_map_size() == loc and map.get_staged_map_size() == st, "sizes", "%s: %zu map features and %zu candidates, expected %zu and %zu", when, map.get_local_map_size(), map.get_staged_map_size(), loc, st);
    }
    void one(const int letter)
    {
        if (unspecified)
            return;
        c.step();
        const View& v = views()[travel ? frame % 3 : 0];
        ++frame;
        if (letter == RESET)
        {
            map.reset();
            model.clear();
            sizes("reset");
            return;
        }
        if (letter == NO_POSE)
        {
            map.update_with_no_tracking(writer);
            update({}, false);
            sizes("no pose");
            return;
        }
        // detections
        const auto seen = seen_of(letter);
        cv::Mat_<float> depth(480, 640, 0.0f);
        std::vector<cv::Point2f> pts;
        cv::Mat des;
        KeypointsWithIdStruct tracked;
        std::vector<Seen> index; // detections in the order of the container
        std::vector<vector2> at;
        for (const bool pass: {false, true})
            for (const Seen& s: seen)
            {
                const vector3 cam = (v.ref_w2c * landmark(s.who).homogeneous()).head<3>();
                vector2 px = project(cam);
                if (s.moved)
                    px += vector2(14, -9);
                const Feat* target = nullptr;
                if (s.tracked)
                    for (const Feat& f: model)
                        if (f.who == s.who and f.local and f.matched and f.id != 0 and not f.moving)
                            target = &f;
                if ((target != nullptr) != pass)
                    continue;
                if (not flat and not s.noDepth)
                    cv::rectangle(depth, cv::Rect(int(px.x()) - 3, int(px.y()) - 3, 7, 7), cv::Scalar(cam.z()), -1);
                if (target)
                    tracked.add(target->id, px.x(), px.y());
                else
                {
                    pts.push_back(cv::Point2f(float(px.x()), float(px.y())));
                    des.push_back(descriptor(s.who == 1 ? 1 : 0));
                }
                index.push_back(s);
                index.back().given = target != nullptr;
                at.push_back(px);
            }
        Keypoint_Handler handler(640, 480, 0.7);
        handler.set(pts, des, tracked, depth);
        const DetectedFeatureContainer frameFeatures(handler, {}, {});
        match_container matches;
        map.get_matches(frameFeatures, v.w2c, uint(map.minimum_features_for_opti()), matches);

        // expected matches: a feature that does not move matches the detection of its landmark
        std::map<size_t, size_t> found; // id in the map -> detection
        for (const auto& m: matches)
        {
            c.check(not found.contains(m->_idInMap), "twice", "map feature %zu is matched twice", m->_idInMap);
            found[m->_idInMap] = m->_detectedFeatureId;
            c.check(m->_detectedFeatureId < index.size(), "index", "match with detection %zu of %zu", m->_detectedFeatureId, index.size());
            c.check(m->is_valid() and m->get_feature_type() == (flat ? FeatureType::Point2d : FeatureType::Point), "match-kind", "match of another kind");
            // observed and estimated at the same place
            bool displaced = false;
            for (const Feat& f: model)
                displaced |= f.who == index[m->_detectedFeatureId].who and f.elsewhere != index[m->_detectedFeatureId].moved;
            const double limit = displaced ? 60 : 3;
            const double e = m->get_distance(v.w2c).norm();
            c.check(e < limit, "match-place", "the match of map feature %zu has an error of %g pixels", m->_idInMap, e);
        }
        size_t expected = 0;
        for (Feat& f: model)
            f.matched = false;
        for (size_t i = 0; i < index.size(); ++i)
        {
            // the still features of this landmark: an established one is preferred to a candidate (there are two when a match was rejected)
            std::vector<Feat*> claim;
            for (Feat& f: model)
                if (not f.moving and f.who == index[i].who and f.local)
                    claim.push_back(&f);
            if (claim.empty())
                for (Feat& f: model)
                    if (not f.moving and f.who == index[i].who)
                        claim.push_back(&f);
            if (claim.empty())
                continue;
            ++expected;
            size_t id = 0;
            for (const auto& [mapId, k]: found)
                if (k == i)
                    id = mapId;
            c.check(id != 0, "unmatched", "landmark %c is seen (detection %zu) and its map feature has no match", 'A' + index[i].who, i);
            Feat* winner = nullptr;
            for (Feat* f: claim)
                if (f->id == id)
                    winner = f;
            if (winner == nullptr)
                for (Feat* f: claim)
                    if (f->id == 0 and winner == nullptr)
                    {
                        c.check(not usedIds.contains(id), "id", "identifier %zu was already used by another landmark", id);
                        usedIds.insert(id);
                        f->id = id;
                        winner = f;
                    }
            c.check(winner != nullptr, "other-match", "landmark %c is seen (detection %zu) and matched with map feature %zu, which is not the one of this landmark", 'A' + index[i].who, i, id);
            winner->matched = true;
        }
        c.check(found.size() == expected, "extra-match", "%zu matches, expected %zu", found.size(), expected);

        if (letter == OUTLIER)
        {
            map.mark_outliers_as_unmatched(matches);
            for (Feat& f: model)
                f.matched = false;
        }
        const matrix33 cov = matrix33::Identity() * 0.01;
        const auto used = map.update_map(v.c2w, cov, frameFeatures, writer);
        std::set<size_t> usedModel;
        for (const Feat& f: model)
            if (f.matched)
                for (size_t i = 0; i < index.size(); ++i)
                    if (index[i].who == f.who)
                        usedModel.insert(i);
        c.check(std::set<size_t>(used.begin(), used.end()) == usedModel, "used", "%zu detections used, expected %zu", used.size(), usedModel.size());
        map.add_features_to_staged_map(cov, v.c2w, frameFeatures, used);
        update(index, true);
        // the rest become candidates, when they have what this kind of map needs
        for (size_t i = 0; i < index.size(); ++i)
            if (not usedModel.contains(i) and not index[i].given and not index[i].noDepth)
            {
                Feat f;
                f.who = index[i].who;
                f.elsewhere = index[i].moved;
                model.push_back(f);
            }
        c.check(writer->points.size() == written and writer->lines == 0, "written", "%zu landmarks are written, expected %zu", writer->points.size(), written);
        sizes(mc::fmt("frame %zu (%d)", frame, letter).c_str());
        // what is tracked next
        TrackedFeaturesContainer next;
        map.get_tracked_features(v.w2c, next, 0);
        std::set<size_t> ids, wanted;
        for (size_t i = 0; i < next.trackedPoints->size(); ++i)
        {
            const auto k = next.trackedPoints->at(i);
            ids.insert(k._id);
            for (const Feat& f: model)
                if (f.id == k._id and not f.moving and not f.elsewhere)
                {
                    const vector2 px = project((v.ref_w2c * landmark(f.who).homogeneous()).head<3>());
                    c.check(std::abs(px.x() - k._point.x) < 3 and std::abs(px.y() - k._point.y) < 3, "tracked-place", "landmark %c is tracked at (%g %g) instead of (%g %g)", 'A' + f.who, k._point.x, k._point.y, px.x(), px.y());
                }
        }
        if (not flat)
            for (const Feat& f: model)
                if (f.local and f.matched)
                    wanted.insert(f.id);
        c.check(ids == wanted and next.trackedPoints->size() == wanted.size(), "tracked", "%zu landmarks to track, expected %zu", ids.size(), wanted.size());
        c.outcome(mc::fmt("%zu local %zu candidates", map.get_local_map_size(), map.get_staged_map_size()));
    }
    bool known(const size_t id) const
    {
        for (const Feat& f: model)
            if (f.id == id)
                return true;
        return false;
    }
    // life of the features after a frame
    void update(const std::vector<Seen>& index, const bool pose)
    {
        std::vector<Feat> keep;
        for (Feat f: model)
        {
            if (not pose)
                f.matched = false;
            if (f.matched)
            {
                f.failed = 0;
                ++f.count;
                for (const Seen& s: index)
                    if (s.who == f.who)
                    {
                        f.moving = s.moved != f.elsewhere;
                        // an observation without depth is not precise enough to tell
                        unspecified |= f.moving and s.noDepth;
                        // the displacement is in pixels: it is not the same place for another view
                        unspecified |= travel and s.moved and f.elsewhere;
                    }
            }
            else
            {
                ++f.failed;
                --f.count;
            }
            if (f.local)
            {
                if (f.failed > 10)
                {
                    if (not flat and not f.moving)
                        ++written;
                    continue;
                }
            }
            else if (f.count >= 3 and pose)
            {
                f.local = true;
                // the established feature forgets that its last observation was elsewhere: what it does next is not specified
                unspecified |= f.moving;
            }
            else if (f.count <= 0)
                continue;
            keep.push_back(f);
        }
        model = keep;
    }
    void finish()
    {
        if (unspecified)
        {
            c.count("unspecified");
            return;
        }
        size_t locals = 0;
        for (const Feat& f: model)
            locals += f.local and not f.moving;
        const size_t before = writer->points.size();
        map.destroy(writer);
        c.check(writer->points.size() == before + (flat ? 0 : locals) and writer->polygons.empty(), "destroy", "%zu landmarks written at the end, expected %zu", writer->points.size() - before, locals);
        for (size_t i = before; i < writer->points.size(); ++i)
        {
            double e = 1e9;
            for (const Feat& f: model)
                if (f.local)
                    e = std::min(e, (writer->points[i] - landmark(f.who)).norm());
            c.check(e < 60, "destroy-place", "a landmark is written %g mm away from the closest one", e);
        }
        c.state(mc::mixs(1, show()));
    }
};

const std::vector<std::vector<int>>& prefixes()
{
    static const std::vector<std::vector<int>> p = {{}, {A, A, A, A}, {AB, AB, AB, AB}, {AC, AC, AC, AC, LONG_GAP}, {A, A, A, A, A_MOVED}, {A, AB, AB}};
    return p;
}
// points of unknown depth do not use their depth, their moves are the subject of C08, and they are not tracked
const std::vector<int> flatLetters = {NONE, A, B, AB, BA, AC, NO_POSE, RESET, OUTLIER, LONG_GAP};
template<class Map> void run_points(mc::Ctx& c, const uint64_t idx, const bool flat)
{
    mc::Dec d(idx);
    const auto& pre = prefixes()[d(prefixes().size())];
    const bool travel = d(2);
    auto word = mc::word_upto(d.v, flat ? int(flatLetters.size()) : int(LETTERS));
    if (flat)
        for (int& l: word)
            l = flatLetters[size_t(l)];
    // a point of unknown depth is expected elsewhere when the camera moves: only the still camera
    if (flat and travel)
        return;
    Run<Map> r(c, flat, travel);
    if (flat and std::find(pre.begin(), pre.end(), int(A_MOVED)) != pre.end())
        return;
    for (const int l: pre)
        r.step(l);
    for (const int l: word)
        r.step(l);
    r.finish();
}

/** ---- planes ---- **/
// landmarks: a wall, a far patch of the same wall, a wall of another direction
struct Patch
{
    vector3 normal, center; // seen from the first view
    double size;
};
const std::vector<Patch>& patches()
{
    static const std::vector<Patch> p = [] {
        const vector3 tilted = rodrigues(vector3(0, 1, 0), 0.7) * vector3(0, 0, -1);
        return std::vector<Patch> {{vector3(0, 0, -1), vector3(-300, 0, 1500), 400}, {vector3(0, 0, -1), vector3(400, 50, 1500), 250}, {tilted, vector3(100, -150, 1300), 300}};
    }();
    return p;
}
features::primitives::Plane seen_patch(const int who, const View& v)
{
    const Patch& p = patches()[size_t(who)];
    const matrix44 T = v.ref_w2c * views()[0].ref_c2w;
    const matrix33 R = T.block<3, 3>(0, 0);
    const vector3 n = R * p.normal;
    const vector3 center = (T * p.center.homogeneous()).head<3>();
    const vector3 ax = (vector3(1, 0, 0) - p.normal.x() * p.normal).normalized();
    const vector3 ay = p.normal.cross(ax);
    constexpr int w = 20;
    matrixf cloud(w * w, 3);
    for (int i = 0; i < w; ++i)
        for (int j = 0; j < w; ++j)
        {
            const vector3 q = p.center + ax * p.size * (i / double(w - 1) - 0.5) + ay * p.size * (j / double(w - 1) - 0.5) + p.normal * (((i * 7 + j * 3) % 5) - 2) * 0.5;
            cloud.row(i * w + j) = vector3((T * q.homogeneous()).head<3>()).cast<float>();
        }
    features::primitives::Plane_Segment::set_static_members(w, w * w);
    features::primitives::Plane_Segment seg;
    seg.init_plane_segment(cloud, 0);
    std::vector<vector3> corners;
    for (const auto& [a, b]: std::vector<std::pair<double, double>> {{-1, -1}, {1, -1}, {1, 1}, {-1, 1}})
        corners.push_back((T * (p.center + ax * a * p.size / 2 + ay * b * p.size / 2).homogeneous()).head<3>());
    return features::primitives::Plane(seg, CameraPolygon(corners, n, center));
}
enum : int
{
    P_NONE,
    P_P,
    P_Q,
    P_PQ,
    P_QP,
    P_PR,
    P_RQP,
    P_NO_POSE,
    P_RESET,
    P_OUTLIER,
    P_GAP, // eight frames without detections
    P_LETTERS
};
std::vector<int> patches_of(const int l)
{
    switch (l)
    {
        case P_P:
        case P_OUTLIER:
            return {0};
        case P_Q:
            return {2};
        case P_PQ:
            return {0, 2};
        case P_QP:
            return {2, 0};
        case P_PR:
            return {0, 1};
        case P_RQP:
            return {1, 2, 0};
        default:
            return {};
    }
}
struct PlaneRun
{
    mc::Ctx& c;
    const bool travel;
    localPlaneMap map;
    std::shared_ptr<Writer> writer = std::make_shared<Writer>();
    std::vector<Feat> model;
    std::set<size_t> usedIds;
    std::vector<int> written; // landmarks in the order of their writing
    bool unspecified = false;
    size_t frame = 0;

    PlaneRun(mc::Ctx& ctx, const bool t) : c(ctx), travel(t) {}
    std::string show() const
    {
        std::string s;
        for (const Feat& f: model)
            s += mc::fmt("%s%d(%d,%d) ", f.local ? "L" : "s", f.who, f.count, f.failed);
        return s;
    }
    void sizes(const char* when)
    {
        size_t loc = 0, st = 0;
        for (const Feat& f: model)
            (f.local ? loc : st) += 1;
        c.note("%s: %s| local %zu staged %zu", when, show().c_str(), map.get_local_map_size(), map.get_staged_map_size());
        c.check(map.get_local_map_size() == loc and map.get_staged_map_size() == st, "plane-sizes", "%s: %zu map planes and %zu candidates, expected %zu and %zu", when, map.get_local_map_size(), map.get_staged_map_size(), loc, st);
        c.outcome(mc::fmt("%zu local %zu candidates", loc, st));
    }
    void update(const bool pose)
    {
        std::vector<Feat> keep;
        for (Feat f: model)
        {
            if (f.matched and pose)
            {
                f.failed = 0;
                ++f.count;
            }
            else
            {
                ++f.failed;
                --f.count;
            }
            if (f.local)
            {
                if (f.failed >= 10)
                {
                    written.push_back(f.who);
                    continue;
                }
            }
            else if (f.count >= 4 and pose)
                f.local = true;
            else if (f.failed >= 2)
                continue;
            keep.push_back(f);
        }
        model = keep;
    }
    void step(const int letter)
    {
        for (int i = 0; i < (letter == P_GAP ? 8 : 1); ++i)
            one(letter == P_GAP ? int(P_NONE) : letter);
    }
    void one(const int letter)
    {
        if (unspecified)
            return;
        c.step();
        const View& v = views()[travel ? frame % 3 : 0];
        ++frame;
        if (letter == P_RESET)
        {
            map.reset();
            model.clear();
            sizes("reset");
            return;
        }
        if (letter == P_NO_POSE)
        {
            map.update_with_no_tracking(writer);
            update(false);
            check_written(0);
            sizes("no pose");
            return;
        }
        const auto who = patches_of(letter);
        features::primitives::plane_container planes;
        for (const int w: who)
            planes.push_back(seen_patch(w, v));
        Keypoint_Handler handler(640, 480, 0.7);
        const DetectedFeatureContainer detected(handler, {}, planes);
        match_container matches;
        map.get_matches(detected, v.w2c, uint(map.minimum_features_for_opti()), matches);
        std::map<size_t, size_t> found;
        for (const auto& m: matches)
        {
            c.check(not found.contains(m->_idInMap) and m->_detectedFeatureId < who.size(), "plane-match", "map plane %zu with detection %zu", m->_idInMap, m->_detectedFeatureId);
            found[m->_idInMap] = m->_detectedFeatureId;
            c.check(m->is_valid() and m->get_feature_type() == FeatureType::Plane and m->is_inlier(v.w2c), "plane-match-place", "the match of map plane %zu is not at its place (%s)", m->_idInMap, str(m->get_distance(v.w2c)).c_str());
        }
        size_t expected = 0;
        std::set<size_t> usedModel;
        for (Feat& f: model)
            f.matched = false;
        for (size_t i = 0; i < who.size(); ++i)
        {
            std::vector<Feat*> claim;
            for (const bool local: {true, false})
                if (claim.empty())
                    for (Feat& f: model)
                        if (f.who == who[i] and f.local == local)
                            claim.push_back(&f);
            if (claim.empty())
                continue;
            ++expected;
            size_t id = 0;
            for (const auto& [mapId, k]: found)
                if (k == i)
                    id = mapId;
            c.check(id != 0, "plane-unmatched", "plane %d is seen (detection %zu) and its map plane has no match", who[i], i);
            Feat* winner = nullptr;
            for (Feat* f: claim)
                if (f->id == id)
                    winner = f;
            if (winner == nullptr)
                for (Feat* f: claim)
                    if (f->id == 0 and winner == nullptr)
                    {
                        c.check(not usedIds.contains(id), "plane-id", "identifier %zu was already used", id);
                        usedIds.insert(id);
                        f->id = id;
                        winner = f;
                    }
            // two candidates of the same plane whose identifiers are not known yet: either can be the one
            size_t unknown = 0;
            for (const Feat* f: claim)
                unknown += f->id == 0 or f == winner;
            if (unknown > 1)
            {
                unspecified = true;
                return;
            }
            c.check(winner != nullptr, "plane-other-match", "plane %d is seen (detection %zu) and matched with map plane %zu, which is not its own", who[i], i, id);
            winner->matched = true;
            usedModel.insert(i);
        }
        c.check(found.size() == expected, "plane-extra-match", "%zu matches, expected %zu", found.size(), expected);
        if (letter == P_OUTLIER)
        {
            map.mark_outliers_as_unmatched(matches);
            for (Feat& f: model)
                f.matched = false;
            usedModel.clear();
        }
        const matrix33 cov = matrix33::Identity() * 0.01;
        const auto used = map.update_map(v.c2w, cov, detected, writer);
        c.check(std::set<size_t>(used.begin(), used.end()) == usedModel, "plane-used", "%zu detections used, expected %zu", used.size(), usedModel.size());
        map.add_features_to_staged_map(cov, v.c2w, detected, used);
        update(true);
        for (size_t i = 0; i < who.size(); ++i)
            if (not usedModel.contains(i))
            {
                Feat f;
                f.who = who[i];
                model.push_back(f);
            }
        check_written(0);
        sizes(mc::fmt("frame %zu (%d)", frame, letter).c_str());
    }
    void check_written(const size_t)
    {
        c.check(writer->polygons.size() == written.size() and writer->points.empty() and writer->lines == 0, "plane-written", "%zu planes are written, expected %zu", writer->polygons.size(), written.size());
        // as a set: several planes can be lost in the same frame
        std::multiset<int> want(written.begin(), written.end()), got;
        for (const auto& poly: writer->polygons)
        {
            vector3 center = vector3::Zero();
            for (const vector3& q: poly)
                center += q / double(poly.size());
            int best = -1;
            for (int k = 0; k < 3; ++k)
            {
                const vector3 w = (views()[0].ref_c2w * patches()[size_t(k)].center.homogeneous()).head<3>();
                if ((w - center).norm() < 100)
                    best = k;
            }
            c.check(poly.size() >= 3 and best >= 0, "plane-written-place", "a plane is written around %s", str(center).c_str());
            got.insert(best);
        }
        c.check(got == want, "plane-written", "other planes are written than the ones that were lost");
    }
    void finish()
    {
        if (unspecified)
        {
            c.count("unspecified");
            return;
        }
        for (const Feat& f: model)
            if (f.local)
                written.push_back(f.who);
        map.destroy(writer);
        check_written(0);
        c.state(mc::mixs(2, show()));
    }
};
const std::vector<std::vector<int>>& plane_prefixes()
{
    static const std::vector<std::vector<int>> p = {{}, {P_P, P_P, P_P, P_P}, {P_RQP, P_RQP, P_RQP, P_RQP, P_RQP}, {P_PR, P_PR, P_PR, P_PR, P_PR, P_GAP}};
    return p;
}
void run_planes(mc::Ctx& c, const uint64_t idx)
{
    mc::Dec d(idx);
    const auto& pre = plane_prefixes()[d(plane_prefixes().size())];
    const bool travel = d(2);
    PlaneRun r(c, travel);
    for (const int l: pre)
        r.step(l);
    for (const int l: mc::word_upto(d.v, P_LETTERS))
        r.step(l);
    r.finish();
}

/** ---- the whole map: landmarks of unknown depth get their position when the camera moves ---- **/
using WholeMap = map_management::Local_Map<localPoint2DMap, localPointMap, localPlaneMap>;
struct Scratch
{
    std::string dir;
    Scratch()
    {
        char t[] = "/tmp/verif-c01-XXXXXX";
        dir = mkdtemp(t);
        if (chdir(dir.c_str()) != 0)
            std::abort();
    }
    ~Scratch()
    {
        if (chdir("/") != 0)
            std::abort();
        std::filesystem::remove_all(dir);
    }
};
std::vector<vector3> written_points()
{
    std::vector<vector3> o;
    std::ifstream f("out.obj");
    std::string line;
    while (std::getline(f, line))
    {
        std::istringstream s(line);
        std::string k;
        vector3 p;
        if (s >> k >> p.x() >> p.y() >> p.z() and k == "v")
            o.push_back(p);
    }
    return o;
}
// letters: direction of the move of the camera (or none), and what is seen
constexpr int wholeLetters = 8;
void run_whole(mc::Ctx& c, const uint64_t idx)
{
    mc::Dec d(idx);
    const int who = int(d(3));
    const double stepSize = d(2) ? 30 : 10;
    const auto word = mc::word_upto(d.v, wholeLetters);
    const Scratch scratch;
    vector3 t = vector3::Zero();
    matrix33 R = matrix33::Identity();
    bool everPoint = false;
    int frames = 0, seenFrames = 0, missed = 0;
    bool wasRay = false, wasTracked = false;
    std::vector<vector3> pts;
    {
        WholeMap map;
        auto frame = [&](const bool visible, const bool pose) {
            c.step();
            ++frames;
            const matrix44 c2w = ref_c2w(R, t), w2c = rigid_inverse(c2w);
            const utils::Pose at(t, quat(R), matrix66(matrix66::Identity() * 0.01));
            std::vector<cv::Point2f> kp;
            cv::Mat des;
            if (visible)
            {
                const vector2 px = project((w2c * landmark(who).homogeneous()).head<3>());
                kp.push_back(cv::Point2f(float(px.x()), float(px.y())));
                des.push_back(descriptor(who));
            }
            cv::Mat_<float> depth(480, 640, 0.0f);
            Keypoint_Handler handler(640, 480, 0.7);
            KeypointsWithIdStruct none;
            handler.set(kp, des, none, depth);
            const DetectedFeatureContainer detected(handler, {}, {});
            const auto matches = map.find_feature_matches(at, detected);
            const auto world = utils::compute_world_to_camera_transform(quat(R), t);
            int points = 0, rays = 0;
            for (const auto& m: matches)
            {
                c.check(visible and m->_detectedFeatureId == 0, "whole-match", "a match with a landmark that is not seen");
                if (m->get_feature_type() == FeatureType::Point)
                    ++points;
                else if (m->get_feature_type() == FeatureType::Point2d)
                    ++rays;
                if (m->get_feature_type() == FeatureType::Point)
                    c.check(m->get_distance(world).norm() < 8, "whole-place", "the landmark that got its position is seen %g pixels away", m->get_distance(world).norm());
            }
            c.check(points <= 1 and rays <= 1, "whole-twice", "the landmark is matched %d times as a point and %d times as a ray", points, rays);
            if (everPoint and visible and missed <= 8)
                c.check(points == 1, "whole-point-lost", "frame %d: the landmark had a position and is not matched as a point", frames);
            if (points)
                everPoint = true;
            // it got its position at the end of the last frame, where it was matched: a tracked point since then
            if (points and wasRay)
                c.check(wasTracked, "whole-tracked", "frame %d: the landmark that got its position was not tracked, although it was matched", frames);
            if (pose)
                map.update(at, detected, {});
            else
                map.update_no_pose();
            if (visible and pose)
            {
                ++seenFrames;
                missed = 0;
            }
            else
                ++missed;
            wasRay = pose and rays == 1 and points == 0;
            // some tracked points are dropped at random, to renew them: ask again
            wasTracked = false;
            for (int k = 0; k < 40 and not wasTracked; ++k)
                wasTracked = map.get_tracked_features(at).trackedPoints->size() > 0;
            if (not visible or not pose)
                c.check(not wasTracked, "whole-tracked", "frame %d: the landmark was not seen, or the pose is unknown, yet it is tracked", frames);
            c.note("frame %d at %s: visible %d pose %d: %d points %d rays", frames, str(t).c_str(), int(visible), int(pose), points, rays);
        };
        frame(true, true);
        frame(true, true);
        for (const int l: word)
        {
            if (l < 5)
            {
                static const std::vector<vector3> dirs = {vector3(0, 0, 0), vector3(0, 1, 0), vector3(0, 0, 1), vector3(0, -1, 0), vector3(1, 0, 0)};
                t += dirs[size_t(l)] * stepSize;
                frame(true, true);
            }
            else if (l == 5)
                frame(false, true);
            else if (l == 6)
                frame(true, false);
            else
            {
                // a long sideways walk
                for (int i = 0; i < 8; ++i)
                {
                    t += vector3(0, 1, 0) * stepSize;
                    frame(true, true);
                }
            }
        }
        frame(true, true);
    }
    pts = written_points();
    c.outcome(mc::fmt("point %d written %zu", int(everPoint), pts.size()));
    for (const vector3& p: pts)
        c.check((p - landmark(who)).norm() < 250, "whole-written", "the landmark is written at %s, it is at %s", str(p).c_str(), str(landmark(who)).c_str());
    c.check(pts.size() <= 1 and (not everPoint or missed > 0 or pts.size() == 1), "whole-written-count", "%zu points written", pts.size());
    c.state(mc::mixs(3, mc::fmt("%d %d %zu", int(everPoint), missed, pts.size())));
}

/** ---- the whole map: each kind of landmark keeps its own life ---- **/
enum : int
{
    M_ALL,
    M_POINTS,
    M_PLANE,
    M_NONE,
    M_NO_POSE,
    M_RESET,
    M_OUT_FIRST, // all is seen, the match of the first point is wrong
    M_OUT_PLANE, // all is seen, the match of the plane is wrong
    M_BAD_COVARIANCE, // all is seen from a pose without valid covariance: the map does not change
    M_LETTERS
};
template<class PointMap> void run_mixed(mc::Ctx& c, const uint64_t idx, const bool flat)
{
    mc::Dec d(idx);
    const int prefix = int(d(2));
    auto word = mc::word_upto(d.v, M_LETTERS);
    word.insert(word.begin(), size_t(prefix * 5), int(M_ALL));
    const Scratch scratch;
    const View& v = views()[0];
    const FeatureType kind = flat ? FeatureType::Point2d : FeatureType::Point;
    std::vector<Feat> model; // who: 0, 1 are points and 2 is the plane
    size_t written = 0, writtenPlanes = 0;
    bool unspecified = false;
    {
        map_management::Local_Map<PointMap, localPlaneMap> map;
        for (const int l: word)
        {
            c.step();
            if (l == M_RESET)
            {
                map.reset();
                model.clear();
                continue;
            }
            const bool points = l != M_PLANE and l != M_NONE and l != M_NO_POSE, plane = l != M_POINTS and l != M_NONE and l != M_NO_POSE;
            const utils::Pose at(vector3::Zero(), quat(matrix33::Identity()), matrix66(matrix66::Identity() * (l == M_BAD_COVARIANCE ? -1.0 : 0.01)));
            cv::Mat_<float> depth(480, 640, 0.0f);
            std::vector<cv::Point2f> pts;
            cv::Mat des;
            if (points)
                for (const int w: {0, 1})
                {
                    const vector3 cam = (v.ref_w2c * landmark(w).homogeneous()).head<3>();
                    const vector2 px = project(cam);
                    if (not flat)
                        cv::rectangle(depth, cv::Rect(int(px.x()) - 3, int(px.y()) - 3, 7, 7), cv::Scalar(cam.z()), -1);
                    pts.push_back(cv::Point2f(float(px.x()), float(px.y())));
                    des.push_back(descriptor(w));
                }
            features::primitives::plane_container planes;
            if (plane)
                planes.push_back(seen_patch(0, v));
            Keypoint_Handler handler(640, 480, 0.7);
            KeypointsWithIdStruct none;
            handler.set(pts, des, none, depth);
            const DetectedFeatureContainer detected(handler, {}, planes);
            const auto matches = map.find_feature_matches(at, detected);
            // every landmark that is in the map and seen has one match of its kind
            match_container wrong;
            for (const int w: {0, 1, 2})
            {
                size_t count = 0, known = 0;
                for (const auto& m: matches)
                    if (m->get_feature_type() == (w == 2 ? FeatureType::Plane : kind) and m->_detectedFeatureId == size_t(w == 2 ? 0 : w))
                    {
                        ++count;
                        if ((l == M_OUT_FIRST and w == 0) or (l == M_OUT_PLANE and w == 2))
                            wrong.push_back(m);
                    }
                for (Feat& f: model)
                    if (f.who == w)
                    {
                        f.matched = false;
                        ++known;
                    }
                const bool seen = w == 2 ? plane : points;
                c.check(count == (known > 0 and seen ? 1u : 0u), "mixed-matches", "landmark %d: %zu matches, in the map %zu times, seen %d", w, count, known, int(seen));
                if (known > 0 and seen)
                {
                    Feat* winner = nullptr;
                    size_t same = 0;
                    for (Feat& f: model)
                        if (f.who == w and (winner == nullptr or (f.local and not winner->local)))
                            winner = &f;
                    for (Feat& f: model)
                        same += f.who == w and f.local == winner->local;
                    unspecified |= same > 1;
                    winner->matched = not((l == M_OUT_FIRST and w == 0) or (l == M_OUT_PLANE and w == 2));
                }
            }
            if (unspecified)
                break;
            c.check(matches.size() <= 3, "mixed-matches", "%zu matches", matches.size());
            if (l == M_BAD_COVARIANCE)
            {
                bool refused = false;
                try
                {
                    map.update(at, detected, wrong);
                }
                catch (const std::exception&)
                {
                    refused = true;
                }
                c.check(refused, "mixed-covariance", "the map was updated with a pose of negative variance");
                continue;
            }
            const bool pose = l != M_NO_POSE;
            if (pose)
                map.update(at, detected, wrong);
            else
                map.update_no_pose();
            std::vector<Feat> keep;
            std::set<int> usedNow;
            for (Feat f: model)
            {
                const bool isPlane = f.who == 2;
                if (f.matched)
                    usedNow.insert(f.who);
                f.failed = f.matched ? 0 : f.failed + 1;
                f.count += f.matched ? 1 : -1;
                if (f.local)
                {
                    if (isPlane ? f.failed >= 10 : f.failed > 10)
                    {
                        (isPlane ? writtenPlanes : written) += isPlane or not flat;
                        continue;
                    }
                }
                else if (pose and f.count >= (isPlane ? 4 : 3))
                    f.local = true;
                else if (isPlane ? f.failed >= 2 : f.count <= 0)
                    continue;
                keep.push_back(f);
            }
            model = keep;
            if (pose)
                for (const int w: {0, 1, 2})
                    if ((w == 2 ? plane : points) and not usedNow.contains(w))
                    {
                        Feat f;
                        f.who = w;
                        model.push_back(f);
                    }
            std::string st;
            for (const Feat& f: model)
                st += mc::fmt("%s%d(%d,%d) ", f.local ? "L" : "s", f.who, f.count, f.failed);
            c.note("letter %d: %s", l, st.c_str());
            c.state(mc::mixs(flat ? 5 : 4, st));
            // what is tracked is what was just matched, and nothing else (a part of it is left out on purpose)
            const auto tracked = map.get_tracked_features(at);
            size_t locals = 0;
            for (const Feat& f: model)
                locals += f.local and f.matched and f.who != 2;
            c.check(tracked.trackedPoints->size() <= (flat ? 0 : locals), "mixed-tracked", "%zu points to track, at most %zu", tracked.trackedPoints->size(), locals);
        }
        if (unspecified)
        {
            c.count("unspecified");
            return;
        }
        for (const Feat& f: model)
            if (f.local)
                (f.who == 2 ? writtenPlanes : written) += f.who == 2 or not flat;
    }
    size_t gotPoints = 0, gotPlanes = 0;
    std::ifstream file("out.obj");
    for (std::string line; std::getline(file, line);)
    {
        gotPoints += line.starts_with("p ");
        gotPlanes += line.starts_with("f ");
    }
    c.outcome(mc::fmt("%zu points %zu planes written", gotPoints, gotPlanes));
    c.check(gotPoints == written and gotPlanes == writtenPlanes, "mixed-written", "%zu points and %zu planes in the saved map, expected %zu and %zu", gotPoints, gotPlanes, written, writtenPlanes);
}

/** ---- from where a landmark can be matched and tracked ---- **/
template<class Map> void run_views(mc::Ctx& c, const uint64_t idx, const bool flat)
{
    mc::Dec d(idx);
    const int who = int(d(2));
    const matrix33 R = rotations()[d(rotations().size())];
    const vector3 t = std::vector<vector3> {vector3(0, 0, 0), vector3(2500, 300, -100), vector3(-400, 700, 200)}[d(3)];
    Map map;
    auto writer = std::make_shared<Writer>();
    const matrix33 cov = matrix33::Identity() * 0.01;
    auto frame = [&](const CameraToWorldMatrix& c2w, const WorldToCameraMatrix& w2c, const vector2& px, const double z, const bool update) {
        cv::Mat_<float> depth(480, 640, 0.0f);
        if (not flat and px.x() > 4 and px.y() > 4 and px.x() < 635 and px.y() < 475)
            cv::rectangle(depth, cv::Rect(int(px.x()) - 3, int(px.y()) - 3, 7, 7), cv::Scalar(z), -1);
        std::vector<cv::Point2f> pts {cv::Point2f(float(px.x()), float(px.y()))};
        cv::Mat des = descriptor(who);
        Keypoint_Handler handler(640, 480, 0.7);
        KeypointsWithIdStruct none;
        handler.set(pts, des, none, depth);
        const DetectedFeatureContainer detected(handler, {}, {});
        match_container matches;
        map.get_matches(detected, w2c, uint(map.minimum_features_for_opti()), matches);
        if (update)
        {
            const auto used = map.update_map(c2w, cov, detected, writer);
            map.add_features_to_staged_map(cov, c2w, detected, used);
        }
        return matches.size();
    };
    const View& v = views()[0];
    const vector3 first = (v.ref_w2c * landmark(who).homogeneous()).head<3>();
    for (int i = 0; i < 4; ++i)
        frame(v.c2w, v.w2c, project(first), first.z(), true);
    c.check(map.get_local_map_size() == 1, "view-start", "the landmark is not in the map");
    const matrix44 ref = ref_c2w(R, t);
    const vector3 cam = (rigid_inverse(ref) * landmark(who).homogeneous()).head<3>();
    const auto c2w = utils::compute_camera_to_world_transform(quat(R), t);
    const auto w2c = utils::compute_world_to_camera_transform(quat(R), t);
    const vector2 px = project(cam);
    const bool inside = px.x() > 2 and px.x() < 637 and px.y() > 2 and px.y() < 477, outside = px.x() < -2 or px.x() > 642 or px.y() < -2 or px.y() > 482;
    const bool front = cam.z() > 1;
    if (std::abs(cam.z()) < 1 or (not inside and not outside))
        return;
    TrackedFeaturesContainer next;
    map.get_tracked_features(w2c, next, 0);
    if (not flat)
        c.check((next.trackedPoints->size() == 1) == (front and inside), "view-tracked", "a landmark at %s from the camera is %s", str(cam).c_str(), next.trackedPoints->size() ? "tracked" : "not tracked");
    else
        c.check(next.trackedPoints->size() == 0, "view-tracked", "a point of unknown depth is tracked");
    for (const auto& [off, near]: std::vector<std::pair<vector2, bool>> {{vector2(0, 0), true}, {vector2(-18, 12), true}, {vector2(20, 10), true}, {vector2(110, 0), false}, {vector2(0, -105), false}, {vector2(-110, 20), false}})
    {
        const vector2 at = px + off;
        if (at.x() < 1 or at.y() < 1 or at.x() > 638 or at.y() > 478)
            continue;
        c.step();
        const size_t n = frame(c2w, w2c, at, std::abs(cam.z()), false);
        // where a point of unknown depth is expected from another view depends on its estimated depth
        if (flat and t.norm() > 0)
        {
            if (not front)
                c.check(n == 0, "view-match", "a landmark behind the camera is matched");
            continue;
        }
        c.outcome(mc::fmt("front %d inside %d near %d", int(front), int(inside), int(near)));
        c.check((n == 1) == (front and inside and near), "view-match", "a landmark at %s from the camera, detected (%g %g) pixels away: %zu matches", str(cam).c_str(), off.x(), off.y(), n);
    }
    c.state(mc::mixs(6, mc::fmt("%d %g %g", who, px.x(), cam.z())));
}

/** ---- one landmark and the detections of a frame ---- **/
// detections: the tracked keypoint of this landmark, one with its descriptor close to it, one with another descriptor, one with its descriptor far away
template<class Feature> void run_single(mc::Ctx& c, const uint64_t idx, const bool flat)
{
    mc::Dec d(idx);
    const unsigned present = unsigned(d(16)), mask = unsigned(d(16));
    const bool advanced = d(2), add = d(2);
    const double close = std::vector<double> {0, 20, 40, 70}[d(4)];
    const View& v = views()[0];
    const vector3 cam = (v.ref_w2c * landmark(0).homogeneous()).head<3>();
    const vector2 px = project(cam);
    auto make = [&](std::vector<cv::Point2f> pts, const cv::Mat& des, const KeypointsWithIdStruct& tracked) {
        cv::Mat_<float> depth(480, 640, float(cam.z()));
        Keypoint_Handler h(640, 480, 0.7);
        h.set(pts, des, tracked, depth);
        return h;
    };
    const auto start = make({cv::Point2f(float(px.x()), float(px.y()))}, descriptor(0), KeypointsWithIdStruct());
    const Feature feature(matrix33(matrix33::Identity() * 0.01), v.c2w, start.at(0));
    std::vector<cv::Point2f> pts;
    cv::Mat des;
    std::vector<int> kinds;
    KeypointsWithIdStruct tracked;
    auto put = [&](const int kind, const vector2& at, const int descr) {
        if (not(present >> kind & 1))
            return;
        kinds.push_back(kind);
        if (kind == 0)
            tracked.add(feature._id, at.x(), at.y());
        else
        {
            pts.push_back(cv::Point2f(float(at.x()), float(at.y())));
            des.push_back(descriptor(descr));
        }
    };
    put(1, px + vector2(close, 0), 0);
    put(2, px + vector2(0, 8), 1);
    put(3, px + vector2(0, 150), 0);
    put(0, px + vector2(3, -3), 0);
    const auto handler = make(pts, des, tracked);
    vectorb flags = vectorb::Zero(Eigen::Index(kinds.size()));
    std::set<size_t> want;
    bool usedTracking = false;
    for (size_t i = 0; i < kinds.size(); ++i)
    {
        flags[Eigen::Index(i)] = mask >> kinds[i] & 1;
        if (kinds[i] == 0 and not flags[Eigen::Index(i)])
        {
            want = {i};
            usedTracking = true;
        }
    }
    if (not usedTracking)
        for (size_t i = 0; i < kinds.size(); ++i)
            if (kinds[i] == 1 and not flags[Eigen::Index(i)] and close < (advanced ? 60 : 30))
                want = {i};
    match_container matches;
    c.step();
    const auto got = feature.find_matches(handler, v.w2c, flags, matches, add, advanced);
    const std::set<size_t> have(got.begin(), got.end());
    c.outcome(mc::fmt("%zu matches, tracking %d", want.size(), int(usedTracking)));
    c.note("present %u matched already %u advanced %d close %g", present, mask, int(advanced), close);
    // a descriptor that is alone in the search radius may be matched even if it differs, within the distance of descriptors: the subject of C21
    const bool other = want.empty() and have.size() == 1 and kinds[*have.begin()] == 2 and not flags[Eigen::Index(*have.begin())];
    c.check(have == want or other, "single", "detections %u (already matched %u), search %s, closest %g pixels away: %zu matches (first %d), expected %zu", present, mask, advanced ? "far" : "near", close, have.size(), have.empty() ? -1 : kinds[*have.begin()], want.size());
    c.check(matches.size() == (add ? have.size() : 0), "single-added", "%zu matches are added, expected %zu", matches.size(), add ? have.size() : 0);
    for (const auto& m: matches)
        c.check(m->_idInMap == feature._id and have.contains(m->_detectedFeatureId) and m->get_feature_type() == (flat ? FeatureType::Point2d : FeatureType::Point), "single-added", "another match is added");
    c.state(mc::mixs(7, mc::fmt("%u %u %d %g", present, mask, int(advanced), close)));
}

// a map plane and two detected planes that differ from it
void run_single_plane(mc::Ctx& c, const uint64_t idx)
{
    mc::Dec d(idx);
    struct Kind
    {
        double angle, offset, shift;
        bool other; // the difference is around or along another axis
        double size = 400;
    };
    static const std::vector<Kind> kinds = {{0, 0, 0, false}, {0, 0, 100, false}, {0, 0, 200, true}, {0, 0, 270, false}, {0, 0, 270, true}, {0, 0, 420, false}, {0.3, 0, 0, false}, {0.3, 0, 0, true}, {-0.3, 0, 0, false}, {0.4, 0, 0, false}, {-0.4, 0, 0, true}, {0, 80, 0, false}, {0, -80, 0, false}, {0, 130, 0, false}, {0, -130, 0, false}, {0, 95, 100, true}, {0, 0, 0, false, 200}, {0, 0, 200, true, 200}, {0, 0, 280, false, 200}, {0, 0, 0, false, 600}, {0, 0, 0, false, 800}, {0, 0, 120, false, 800}, {0, 0, 0, false, 1200}};
    const Kind k[2] = {kinds[d(kinds.size())], kinds[d(kinds.size())]};
    const unsigned count = 1 + unsigned(d(2)), mask = unsigned(d(4));
    const bool advanced = d(2), add = d(2);
    const View& v = views()[0];
    auto plane = [&](const Kind& q) {
        const vector3 n = rodrigues(q.other ? vector3(1, 0, 0) : vector3(0, 1, 0), q.angle) * vector3(0, 0, -1);
        const vector3 base(0, 0, 1500 + q.offset);
        const vector3 center = base + (q.other ? vector3(0, q.shift, 0) : vector3(q.shift, 0, 0));
        const vector3 ax = (vector3(1, 0, 0) - n.x() * n).normalized(), ay = n.cross(ax);
        constexpr int w = 20;
        matrixf cloud(w * w, 3);
        std::vector<vector3> corners;
        for (int i = 0; i < w; ++i)
            for (int j = 0; j < w; ++j)
                cloud.row(i * w + j) = vector3(center + ax * q.size * (i / double(w - 1) - 0.5) + ay * q.size * (j / double(w - 1) - 0.5) + n * (((i * 7 + j * 3) % 5) - 2) * 0.5).cast<float>();
        features::primitives::Plane_Segment::set_static_members(w, w * w);
        features::primitives::Plane_Segment seg;
        seg.init_plane_segment(cloud, 0);
        for (const auto& [a, b]: std::vector<std::pair<double, double>> {{-1, -1}, {1, -1}, {1, 1}, {-1, 1}})
            corners.push_back(center + ax * a * q.size / 2 + ay * b * q.size / 2);
        return features::primitives::Plane(seg, CameraPolygon(corners, n, center));
    };
    const map_management::StagedMapPlane feature(matrix33(matrix33::Identity() * 0.01), v.c2w, plane(kinds[0]));
    features::primitives::plane_container detected;
    vectorb flags = vectorb::Zero(count);
    std::set<size_t> want;
    double best = 0;
    bool unsure = false;
    for (unsigned i = 0; i < count; ++i)
    {
        detected.push_back(plane(k[i]));
        flags[i] = mask >> i & 1;
        if (flags[i] or std::abs(k[i].angle) > 0.35 or std::abs(k[i].offset) > 100)
            continue;
        // share of the detected plane that is in the map plane (turned planes only overlap through their projection)
        const double along = std::max(0.0, std::min(200.0, k[i].shift + k[i].size / 2) - std::max(-200.0, k[i].shift - k[i].size / 2)), across = std::min(400.0, k[i].size);
        const double share = k[i].angle != 0.0 ? 1.0 : along * across / (k[i].size * k[i].size);
        const double area = along * across / 160000.0 * (k[i].angle != 0.0 ? std::cos(k[i].angle) : 1.0);
        if (share < (advanced ? 0.2 : 0.4))
            continue;
        // two detections that overlap alike: not specified
        unsure |= not want.empty() and std::abs(area - best) < 0.06;
        if (area > best)
        {
            best = area;
            want = {i};
        }
    }
    if (unsure)
    {
        c.count("unspecified");
        return;
    }
    match_container matches;
    c.step();
    const auto got = feature.find_matches(detected, v.w2c, flags, matches, add, advanced);
    const std::set<size_t> have(got.begin(), got.end());
    c.outcome(mc::fmt("match %d", want.empty() ? -1 : int(*want.begin())));
    c.check(have == want, "single-plane", "map plane with detections (%g rad %g mm shifted %g%s)%s, search %s, mask %u: match %d, expected %d", k[0].angle, k[0].offset, k[0].shift, count == 2 ? mc::fmt(" | %g rad %g mm shifted %g", k[1].angle, k[1].offset, k[1].shift).c_str() : "", "", advanced ? "far" : "near", mask, have.empty() ? -1 : int(*have.begin()), want.empty() ? -1 : int(*want.begin()));
    c.check(matches.size() == (add ? have.size() : 0), "single-plane-added", "%zu matches are added", matches.size());
    for (const auto& m: matches)
        c.check(m->_idInMap == feature._id and have.contains(m->_detectedFeatureId) and m->get_feature_type() == FeatureType::Plane, "single-plane-added", "another match is added");
    c.state(idx);
}
} // namespace

int main(int argc, char** argv)
{
    if (not load_config(cfg()))
        return 2;
    std::vector<mc::Family> f;
    f.push_back({"points", [](const bool t) { return prefixes().size() * 2 * mc::words_upto(LETTERS, t ? 4 : 3); }, [](mc::Ctx& c, const uint64_t i) { run_points<localPointMap>(c, i, false); }, 60, 16});
    f.push_back({"points-2d", [](const bool t) { return prefixes().size() * 2 * mc::words_upto(int(flatLetters.size()), t ? 4 : 3); }, [](mc::Ctx& c, const uint64_t i) { run_points<localPoint2DMap>(c, i, true); }, 60, 16});
    f.push_back({"planes", [](const bool t) { return plane_prefixes().size() * 2 * mc::words_upto(P_LETTERS, t ? 4 : 3); }, run_planes, 60, 16});
    f.push_back({"whole", [](const bool t) { return 3 * 2 * mc::words_upto(wholeLetters, t ? 5 : 3); }, run_whole, 60, 16});
    f.push_back({"mixed-points", [](const bool t) { return 2 * mc::words_upto(M_LETTERS, t ? 5 : 4); }, [](mc::Ctx& c, const uint64_t i) { run_mixed<localPointMap>(c, i, false); }, 60, 16});
    f.push_back({"mixed-points-2d", [](const bool t) { return 2 * mc::words_upto(M_LETTERS, t ? 5 : 3); }, [](mc::Ctx& c, const uint64_t i) { run_mixed<localPoint2DMap>(c, i, true); }, 60, 16});
    f.push_back({"views", [](const bool) { return uint64_t(2 * 3 * rotations().size()); }, [](mc::Ctx& c, const uint64_t i) { run_views<localPointMap>(c, i, false); }, 60, 16});
    f.push_back({"views-2d", [](const bool) { return uint64_t(2 * 3 * rotations().size()); }, [](mc::Ctx& c, const uint64_t i) { run_views<localPoint2DMap>(c, i, true); }, 60, 16});
    f.push_back({"single", [](const bool) { return uint64_t(16 * 16 * 4 * 4); }, [](mc::Ctx& c, const uint64_t i) { run_single<map_management::StagedMapPoint>(c, i, false); }, 60, 64});
    f.push_back({"single-2d", [](const bool) { return uint64_t(16 * 16 * 4 * 4); }, [](mc::Ctx& c, const uint64_t i) { run_single<map_management::StagedMapPoint2D>(c, i, true); }, 60, 64});
    f.push_back({"single-plane", [](const bool) { return uint64_t(23 * 23 * 2 * 4 * 4); }, run_single_plane, 60, 64});
    return mc::main_(argc, argv, f);
}
