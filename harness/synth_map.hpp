// Synthetic features plugged into the repository's own map templates (the extension point that the real point / 2D point
// / plane maps use).  The synthetic features only record how the map drives them; every decision that belongs to a
// feature (does it match, is it visible, does the update succeed, ...) is an environment choice that the explorer
// enumerates.
#ifndef VERIF_SYNTH_MAP_HPP
#define VERIF_SYNTH_MAP_HPP

#include "mc.hpp"

#include "map_management/feature_map.hpp"
#include "map_management/local_map.hpp"

#include <map>
#include <set>

namespace synth {

using namespace rgbd_slam;
using namespace rgbd_slam::map_management;

struct Det
{
    int key = 0;         // what it looks like: a feature matches the detections of its own key
    int seq = 0;         // unique number of this detection
    bool ok = true;      // will the update of a feature with this detection succeed
    bool addable = true; // may it become a candidate
    bool far = false;    // found only by the enlarged search
    bool moving = false; // a feature updated with it is found to be moving
};
using Dets = std::vector<Det>;

struct FindLog
{
    size_t id;
    FeatureType type;
    bool local;
    std::vector<bool> flags;
    bool shouldAdd;
    bool advanced;
    std::set<size_t> claimed;
};
struct UpdLog
{
    size_t id;
    int seq;
    bool ok;
};
struct NewLog
{
    size_t id;
    int seq;
    FeatureType type;
};

struct Env
{
    std::map<FeatureType, Dets> dets;
    int invisibleKey = -1;
    bool promotionThrows = false;
    size_t minimum = 1; // number of matches that the map asks for
    int upgradeKey = -1; // candidates and features of the 2D map with this key can be upgraded
    bool upgradeNull = false;

    std::vector<FindLog> finds;
    std::vector<UpdLog> updates;
    std::vector<NewLog> created;
    std::vector<size_t> promoted;
    std::vector<size_t> written;
    std::vector<std::pair<size_t, size_t>> upgraded; // source id, new id
    std::vector<size_t> drawn;

    void clear_logs()
    {
        finds.clear();
        updates.clear();
        created.clear();
        promoted.clear();
        written.clear();
        upgraded.clear();
        drawn.clear();
    }
};
inline Env* E = nullptr;

struct SynthMatch : matches_containers::IOptimizationFeature
{
    SynthMatch(const size_t id, const size_t det, const FeatureType t) : IOptimizationFeature(id, det), type(t) {}
    size_t get_feature_part_count() const noexcept override { return 1; }
    double get_score() const noexcept override { return 1.0; }
    bool is_inlier(const WorldToCameraMatrix&) const noexcept override { return true; }
    vectorxd get_distance(const WorldToCameraMatrix&) const noexcept override { return vectorxd::Zero(1); }
    double get_alpha_reduction() const noexcept override { return 1.0; }
    matches_containers::feat_ptr compute_random_variation() const noexcept override { return nullptr; }
    bool is_valid() const noexcept override { return true; }
    FeatureType get_feature_type() const noexcept override { return type; }
    FeatureType type;
};

struct SynthUpgrade : IUpgradedFeature
{
    SynthUpgrade(const int k, const size_t src, const matchIndexSet& m) : IUpgradedFeature(m), key(k), source(src) {}
    FeatureType get_type() const override { return FeatureType::Point; }
    int key;
    size_t source;
};

using Tracked = features::keypoints::KeypointsWithIdStruct;

// key 2 is a feature that claims every free detection of its kind
constexpr int wideKey = 2;

template<FeatureType T> class SFeature : public IMapFeature<Dets, Det, Tracked>
{
  public:
    SFeature(const int k, const bool isLocal) : key(k), local(isLocal) {}
    SFeature(const int k, const bool isLocal, const size_t id) :
        IMapFeature<Dets, Det, Tracked>(id),
        key(k),
        local(isLocal)
    {
    }

    matchIndexSet find_matches(const Dets& d,
                               const WorldToCameraMatrix&,
                               const vectorb& flags,
                               matches_containers::match_container& matches,
                               const bool shouldAdd,
                               const bool advanced) const noexcept override
    {
        FindLog l {_id, T, local, {}, shouldAdd, advanced, {}};
        for (Eigen::Index i = 0; i < flags.size(); ++i)
            l.flags.push_back(flags[i]);
        matchIndexSet res;
        for (size_t i = 0; i < d.size(); ++i)
        {
            if (d[i].key != key or (i < l.flags.size() and l.flags[i]) or (d[i].far and not advanced))
                continue;
            res.emplace(i);
            l.claimed.insert(i);
            if (shouldAdd)
                matches.push_back(std::make_shared<SynthMatch>(_id, i, T));
            if (key != wideKey)
                break;
        }
        E->finds.push_back(l);
        return res;
    }
    bool compute_upgraded(const CameraToWorldMatrix&, UpgradedFeature_ptr& up) const noexcept override
    {
        if (T != FeatureType::Point2d or key != E->upgradeKey)
            return false;
        if (not E->upgradeNull)
            up = std::make_shared<SynthUpgrade>(key, _id, _matchIndexes);
        return true;
    }
    bool is_moving() const noexcept override { return moving; }
    bool update_with_match(const Det& d, const matrix33&, const CameraToWorldMatrix&) noexcept override
    {
        E->updates.push_back({_id, d.seq, d.ok});
        if (d.ok and d.moving)
            moving = true;
        return d.ok;
    }
    void write_to_file(std::shared_ptr<outputs::IMap_Writer> w) const noexcept override
    {
        E->written.push_back(_id);
        w->add_point(vector3(double(_id), double(key), double(int(T))));
    }
    bool add_to_tracked(const WorldToCameraMatrix&, Tracked& t, const uint) const noexcept override
    {
        t.add(_id, 0.0, 0.0);
        return true;
    }
    void draw(const WorldToCameraMatrix&, cv::Mat&, const cv::Scalar&) const noexcept override
    {
        E->drawn.push_back(_id);
    }
    bool is_visible(const WorldToCameraMatrix&) const noexcept override { return key != E->invisibleKey; }

    int key;
    bool local;
    bool moving = false;

  protected:
    void update_no_match() noexcept override {}
};

constexpr int promoteAt = 2; // net matches for a candidate to enter the map
constexpr size_t dropAt = 2; // consecutive misses for a candidate to be dropped
constexpr size_t lostAt = 2; // consecutive misses for a map feature to be lost

template<FeatureType T> class SStaged : public SFeature<T>, public IStagedMapFeature<Det>
{
  public:
    SStaged(const matrix33&, const CameraToWorldMatrix&, const Det& d) : SFeature<T>(d.key, false)
    {
        E->created.push_back({this->_id, d.seq, T});
    }
    bool should_remove_from_staged() const noexcept override { return this->_failedTrackingCount >= dropAt; }
    bool should_add_to_local_map() const noexcept override { return this->_successivMatchedCount >= promoteAt; }
    static bool can_add_to_map(const Det& d) noexcept { return d.addable; }
};

template<FeatureType T> class SLocal : public SFeature<T>, public ILocalMapFeature<SStaged<T>>
{
  public:
    explicit SLocal(const SStaged<T>& s) : SFeature<T>(s.key, true, s._id)
    {
        if (E->promotionThrows)
            throw std::invalid_argument("promotion refused");
        E->promoted.push_back(s._id);
        this->_matchIndexes = s._matchIndexes;
        this->_successivMatchedCount = s._successivMatchedCount;
        this->moving = s.moving;
    }
    SLocal(const int k, const size_t source, const matchIndexSet& m) : SFeature<T>(k, true)
    {
        E->upgraded.push_back({source, this->_id});
        this->_matchIndexes = m;
        this->_successivMatchedCount = 1;
    }
    bool is_lost() const noexcept override { return this->_failedTrackingCount >= lostAt; }
};

template<FeatureType T> class SMap : public Feature_Map<SLocal<T>, SStaged<T>, Dets, Det, Tracked>
{
  public:
    FeatureType get_feature_type() const override { return T; }
    std::string get_display_name() const override { return "S"; }
    Dets get_detected_feature(const DetectedFeatureContainer&) const override { return E->dets[T]; }
    std::shared_ptr<Tracked> get_tracked_features_container(const TrackedFeaturesContainer& t) const override
    {
        return t.trackedPoints;
    }
    size_t minimum_features_for_opti() const override { return E->minimum; }

  protected:
    void add_upgraded_to_local_map(const UpgradedFeature_ptr up) override
    {
        if (T != FeatureType::Point)
            return;
        const auto& u = dynamic_cast<SynthUpgrade&>(*up);
        this->add_to_local_map(SLocal<T>(u.key, u.source, u._matchIndexes));
    }
};

class RecWriter : public outputs::IMap_Writer
{
  public:
    RecWriter() : IMap_Writer("/dev/null") {}
    void add_point(const vector3& p) noexcept override { points.push_back(p); }
    void add_line(const std::vector<vector3>&) noexcept override {}
    void add_polygon(const std::vector<vector3>&, const vector3&) noexcept override {}
    std::vector<vector3> points;
};

// Reference model: what a user of the map may rely on, keyed by feature id
struct MFeature
{
    FeatureType type;
    int key;
    bool local;
    size_t failed = 0;
    int succ = 0;
    bool moving = false;
    std::set<size_t> claimed; // detections of this frame
};

struct Model
{
    std::map<size_t, MFeature> f;
    std::set<size_t> everSeen;            // every id ever handed out
    std::map<size_t, unsigned> exported;  // id -> number of times written
    std::map<size_t, bool> exportAllowed; // id -> static feature that must be written when it leaves the map

    size_t count(const FeatureType t, const bool local) const
    {
        size_t n = 0;
        for (const auto& [id, x]: f)
            n += (x.type == t and x.local == local);
        return n;
    }
    uint64_t hash() const
    {
        std::vector<std::string> v;
        for (const auto& [id, x]: f)
            v.push_back(mc::fmt("%d/%d/%d/%zu/%d/%d/%zu",
                                int(x.type),
                                x.key,
                                int(x.local),
                                x.failed,
                                std::min(x.succ, promoteAt),
                                int(x.moving),
                                x.claimed.size()));
        std::sort(v.begin(), v.end());
        uint64_t h = 1;
        for (const auto& s: v)
            h = mc::mixs(mc::mix(h, 17), s);
        return h;
    }
};

inline const DetectedFeatureContainer& dummy_container()
{
    static const features::keypoints::Keypoint_Handler handler(64, 48);
    static std::unique_ptr<DetectedFeatureContainer> c;
    c = std::make_unique<DetectedFeatureContainer>(handler, features::lines::line_container(), features::primitives::plane_container());
    return *c;
}

// The oracle for one call to "find the matches of this frame" on the map of type T
inline void check_matching(mc::Ctx& ctx,
                           Model& m,
                           const FeatureType T,
                           const Dets& dets,
                           const matches_containers::match_container& got,
                           const size_t minimum)
{
    // split the log of this type in passes: normal, then enlarged
    std::vector<const FindLog*> pass[2];
    bool sawAdvanced = false;
    for (const auto& l: E->finds)
    {
        if (l.type != T)
            continue;
        ctx.check(not(sawAdvanced and not l.advanced), "pass-order", "normal search after the enlarged search");
        sawAdvanced = sawAdvanced or l.advanced;
        pass[l.advanced].push_back(&l);
    }
    size_t askable = 0;
    for (const auto& [id, x]: m.f)
        askable += (x.type == T and not x.moving and x.key != E->invisibleKey);

    std::map<size_t, std::set<size_t>> claims;
    std::multiset<std::pair<size_t, size_t>> expected;
    for (int p = 0; p < 2; ++p)
    {
        if (p == 1)
        {
            const bool second = expected.size() < minimum;
            if (not second)
            {
                ctx.check(pass[1].empty(), "needless-advanced", "enlarged search although enough matches were found");
                break;
            }
        }
        claims.clear();
        expected.clear();
        std::vector<bool> flags(dets.size(), false);
        std::set<size_t> asked;
        bool sawStaged = false;
        size_t localEntries = 0;
        for (const FindLog* l: pass[p])
        {
            ctx.check(m.f.contains(l->id), "ghost-feature", "feature %zu is searched but is not in the map", l->id);
            const MFeature& x = m.f.at(l->id);
            ctx.check(asked.insert(l->id).second, "asked-twice", "feature %zu searched twice in one pass", l->id);
            ctx.check(x.local == l->local, "wrong-map", "feature %zu is in the wrong map", l->id);
            ctx.check(not x.moving, "moving-matched", "feature %zu is moving, yet it is matched", l->id);
            ctx.check(x.key != E->invisibleKey, "invisible-matched", "feature %zu is not visible, yet it is matched", l->id);
            ctx.check(not(sawStaged and l->local), "priority", "candidate searched before map feature %zu", l->id);
            sawStaged = sawStaged or not l->local;
            ctx.check(l->flags == flags,
                      "stale-match-flags",
                      "feature %zu was given a wrong set of already matched detections",
                      l->id);
            if (l->local)
                ctx.check(l->shouldAdd, "local-not-used", "matches of map feature %zu are not used", l->id);
            else
                ctx.check(l->shouldAdd == (localEntries < 3 * minimum),
                          l->shouldAdd ? "staged-used" : "staged-not-used",
                          "the map gives %zu matches for a minimum of %zu, candidate %zu is %s",
                          localEntries,
                          minimum,
                          l->id,
                          l->shouldAdd ? "used" : "not used");
            for (const size_t i: l->claimed)
            {
                flags[i] = true;
                claims[l->id].insert(i);
                if (l->shouldAdd)
                    expected.insert({l->id, i});
                localEntries += l->local;
            }
        }
        ctx.check(asked.size() == askable,
                  "feature-not-searched",
                  "%zu features can be matched, %zu were searched (pass %d)",
                  askable,
                  asked.size(),
                  p);
        if (askable == 0)
            break;
    }
    std::multiset<std::pair<size_t, size_t>> gotSet;
    for (const auto& g: got)
    {
        ctx.check(g != nullptr, "null-match", "null match returned");
        if (g->get_feature_type() == T)
            gotSet.insert({g->_idInMap, g->_detectedFeatureId});
    }
    ctx.check(gotSet == expected,
              "match-set",
              "the returned matches (%zu) are not the matches found (%zu)",
              gotSet.size(),
              expected.size());
    for (auto& [id, x]: m.f)
        if (x.type == T)
            x.claimed = claims.contains(id) ? claims[id] : std::set<size_t> {};
}

// The oracle for the update of the map of type T after a successful pose estimation.
inline void check_update(mc::Ctx& ctx, Model& m, const FeatureType T, const Dets& dets)
{
    std::multiset<std::pair<size_t, int>> expUpd, gotUpd;
    for (const auto& u: E->updates)
        if (m.f.contains(u.id) and m.f.at(u.id).type == T)
            gotUpd.insert({u.id, u.seq});
    std::vector<bool> absorbed(dets.size(), false), attached(dets.size(), false);
    std::set<size_t> gone;
    for (auto& [id, x]: m.f)
    {
        if (x.type != T)
            continue;
        bool success = false;
        for (const size_t i: x.claimed)
        {
            expUpd.insert({id, dets[i].seq});
            if (dets[i].ok)
            {
                success = true;
                absorbed[i] = true;
                x.moving = x.moving or dets[i].moving;
            }
            if (not x.local)
                attached[i] = true;
        }
        if (success)
        {
            x.failed = 0;
            x.succ += 1;
        }
        else
        {
            x.claimed.clear();
            x.failed += 1;
            x.succ -= 1;
        }
        const bool wasWritten = std::count(E->written.begin(), E->written.end(), id) > 0;
        if (x.local)
        {
            if (x.failed >= lostAt)
            {
                gone.insert(id);
                m.exportAllowed[id] = not x.moving;
            }
            else
                ctx.check(not wasWritten, "early-export", "feature %zu exported while still in the map", id);
        }
        else
        {
            ctx.check(not wasWritten, "candidate-exported", "candidate %zu was exported", id);
            const bool wasPromoted = std::count(E->promoted.begin(), E->promoted.end(), id) > 0;
            if (x.succ >= promoteAt)
            {
                if (not E->promotionThrows)
                {
                    ctx.check(std::count(E->promoted.begin(), E->promoted.end(), id) == 1,
                              "not-promoted",
                              "candidate %zu is validated but was not moved to the map",
                              id);
                    x.local = true;
                    x.failed = 0;
                }
            }
            else
            {
                ctx.check(not wasPromoted, "early-promotion", "candidate %zu promoted too early", id);
                if (x.failed >= dropAt)
                    gone.insert(id);
            }
        }
    }
    ctx.check(expUpd == gotUpd, "update-calls", "features updated with the wrong detections (%zu expected, %zu done)", expUpd.size(), gotUpd.size());
    for (const size_t id: E->written)
        if (m.f.contains(id) and m.f.at(id).type == T)
            m.exported[id] += 1;
    for (const size_t id: gone)
    {
        const MFeature x = m.f.at(id);
        if (x.local and not x.moving)
            ctx.check(m.exported[id] == 1, "export-once", "lost feature %zu was exported %u times", id, m.exported[id]);
        ctx.check(m.exported[id] <= 1, "export-once", "feature %zu was exported %u times", id, m.exported[id]);
        ctx.check(not x.moving or m.exported[id] == 0, "moving-exported", "feature %zu is moving and was exported", id);
        m.f.erase(id);
    }
    // new candidates
    std::map<int, unsigned> created;
    for (const auto& c: E->created)
        if (c.type == T)
        {
            created[c.seq] += 1;
            ctx.check(c.id != 0 and m.everSeen.insert(c.id).second, "id-reuse", "id %zu is used twice", c.id);
        }
    for (size_t i = 0; i < dets.size(); ++i)
    {
        const unsigned n = created[dets[i].seq];
        if (absorbed[i] or not dets[i].addable)
            ctx.check(n == 0, "restaged", "detection %d must not become a candidate, it did %u times", dets[i].seq, n);
        else if (attached[i])
            ctx.check(n <= 1, "restaged", "detection %d became a candidate %u times", dets[i].seq, n);
        else
            ctx.check(n == 1, "not-staged", "unmatched detection %d became a candidate %u times", dets[i].seq, n);
        for (const auto& c: E->created)
            if (c.type == T and c.seq == dets[i].seq)
                m.f[c.id] = MFeature {T, dets[i].key, false, 0, 0, false, {}};
    }
}

// The features reported as tracked: exactly the matched and visible features of the validated maps
inline void check_tracked(mc::Ctx& ctx, const Model& m, const TrackedFeaturesContainer& tr, const char* when)
{
    std::multiset<size_t> got, expected;
    for (size_t i = 0; i < tr.trackedPoints->size(); ++i)
        got.insert(tr.trackedPoints->at(i)._id);
    for (const auto& [id, x]: m.f)
        if (x.local and not x.claimed.empty() and x.key != E->invisibleKey)
            expected.insert(id);
    ctx.check(got == expected, "tracked-set", "%zu features tracked %s, %zu expected", got.size(), when, expected.size());
}

inline void check_no_pose(mc::Ctx& ctx, Model& m, const FeatureType T)
{
    std::set<size_t> gone;
    for (auto& [id, x]: m.f)
    {
        if (x.type != T)
            continue;
        x.claimed.clear();
        x.failed += 1;
        x.succ -= 1;
        const unsigned w = unsigned(std::count(E->written.begin(), E->written.end(), id));
        m.exported[id] += w;
        if (x.local and x.failed >= lostAt)
        {
            if (not x.moving)
                ctx.check(m.exported[id] == 1, "export-once", "lost feature %zu was exported %u times", id, m.exported[id]);
            ctx.check(not x.moving or m.exported[id] == 0, "moving-exported", "feature %zu is moving and was exported", id);
            ctx.check(m.exported[id] <= 1, "export-once", "feature %zu was exported %u times", id, m.exported[id]);
            gone.insert(id);
        }
        else
            ctx.check(w == 0, "early-export", "feature %zu exported while still in the map or not validated", id);
        if (not x.local and x.failed >= dropAt)
            gone.insert(id);
    }
    for (const size_t id: gone)
        m.f.erase(id);
}

template<class Map> void check_sizes(mc::Ctx& ctx, const Model& m, const FeatureType T, const Map& map)
{
    ctx.check(map.get_local_map_size() == m.count(T, true),
              "local-size",
              "the map holds %zu features, %zu expected",
              map.get_local_map_size(),
              m.count(T, true));
    ctx.check(map.get_staged_map_size() == m.count(T, false),
              "staged-size",
              "there are %zu candidates, %zu expected",
              map.get_staged_map_size(),
              m.count(T, false));
    ctx.check(map.size() == map.get_local_map_size() + map.get_staged_map_size(), "size", "inconsistent map size");
}

} // namespace synth

#endif
