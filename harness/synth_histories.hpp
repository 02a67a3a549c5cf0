// Histories of a feature map and of a composed local map, shared by the checks C02 (bookkeeping) and C03 (export).
#ifndef VERIF_SYNTH_HISTORIES_HPP
#define VERIF_SYNTH_HISTORIES_HPP

#include "synth_map.hpp"
#include "utils/pose.hpp"
#include <fstream>
#include <sstream>

namespace synth {

inline const matrix33& good_cov()
{
    static const matrix33 c = matrix33::Identity() * 0.1;
    return c;
}
inline const matrix33& bad_cov()
{
    static const matrix33 c = -matrix33::Identity();
    return c;
}
inline WorldToCameraMatrix w2c_id()
{
    WorldToCameraMatrix m;
    m << matrix44::Identity();
    return m;
}
inline CameraToWorldMatrix c2w_id()
{
    CameraToWorldMatrix m;
    m << matrix44::Identity();
    return m;
}

enum Letter
{
    FRAME_NONE,     // a frame with no detection
    FRAME_A,        // one detection
    FRAME_AB,       // two different detections
    FRAME_AA,       // two detections that look the same
    FRAME_A_FAILS,  // the update with the detection fails
    FRAME_A_OUT_B,  // the match of the first detection is declared an outlier
    FRAME_A_MOVING, // the feature is found to be moving
    NO_POSE,        // tracking failed
    FRAME_WW,       // a feature that claims two detections at once
    FRAME_A_FAR,    // found only by the enlarged search
    FRAME_HIDDEN_A, // features a are out of sight, a detection a is there
    FRAME_AB_NOADD, // b cannot become a candidate
    PROMO_THROWS,   // promotion of candidates is refused by the feature
    ADD_ALL,        // first frame / relocalisation: all detections become candidates
    BAD_COV,        // the pose has an invalid covariance: refused
    RESET,
    WW_ONE_OUT,  // one of the two matches of a wide feature is an outlier
    UNKNOWN_OUT, // outlier with an unknown id
    LETTERS
};
inline const char* letterName(const int l)
{
    static const char* n[] = {"none",     "a",      "ab",     "aa",       "a-fails",      "ab(a outlier)",
                              "a-moving", "no-pose", "ww",    "a-far",    "a(a hidden)",  "ab(b not addable)",
                              "a(promotion throws)", "add-all a b", "bad-covariance a", "reset", "ww(one outlier)", "a(unknown outlier)"};
    return n[l];
}

inline Dets dets_of(const int l, int& seq)
{
    auto d = [&](const int key) {
        Det x;
        x.key = key;
        x.seq = ++seq;
        return x;
    };
    Dets r;
    switch (l)
    {
        case FRAME_NONE:
        case NO_POSE:
        case RESET:
            break;
        case FRAME_AB:
        case FRAME_A_OUT_B:
        case FRAME_AB_NOADD:
        case ADD_ALL:
            r.push_back(d(0));
            r.push_back(d(1));
            if (l == FRAME_AB_NOADD)
                r.back().addable = false;
            break;
        case FRAME_AA:
            r.push_back(d(0));
            r.push_back(d(0));
            break;
        case FRAME_WW:
        case WW_ONE_OUT:
            r.push_back(d(wideKey));
            r.push_back(d(wideKey));
            break;
        default:
            r.push_back(d(0));
            if (l == FRAME_A_FAILS)
                r.back().ok = false;
            if (l == FRAME_A_MOVING)
                r.back().moving = true;
            if (l == FRAME_A_FAR)
                r.back().far = true;
    }
    return r;
}

// one history on a single feature map
inline void run_single(mc::Ctx& ctx, const std::vector<int>& word, const size_t minimum = 1)
{
    constexpr FeatureType T = FeatureType::Plane;
    Env env;
    E = &env;
    env.minimum = minimum;
    Model m;
    SMap<T> map;
    auto writer = std::make_shared<RecWriter>();
    int seq = 0;
    const auto w2c = w2c_id();
    const auto c2w = c2w_id();
    for (const int l: word)
    {
        ctx.note("%s", letterName(l));
        ctx.step();
        env.clear_logs();
        env.dets[T] = dets_of(l, seq);
        env.invisibleKey = l == FRAME_HIDDEN_A ? 0 : -1;
        env.promotionThrows = l == PROMO_THROWS;
        const Dets dets = env.dets[T];
        const auto& cont = dummy_container();
        if (l == NO_POSE)
        {
            map.update_with_no_tracking(writer);
            check_no_pose(ctx, m, T);
        }
        else if (l == RESET)
        {
            map.reset();
            m.f.clear();
            ctx.check(env.written.empty(), "reset-export", "a reset exported features");
        }
        else
        {
            matches_containers::match_container got;
            // matches of other maps already in the container must be kept
            const auto other = std::make_shared<SynthMatch>(7777, 0, FeatureType::Point);
            got.push_back(other);
            map.get_matches(cont, w2c, uint(minimum), got);
            ctx.check(std::count(got.begin(), got.end(), matches_containers::feat_ptr(other)) == 1, "lost-foreign-match", "the matches of another map were dropped");
            check_matching(ctx, m, T, dets, got, minimum);

            TrackedFeaturesContainer tr;
            map.get_tracked_features(w2c, tr, 0);
            check_tracked(ctx, m, tr, "after the search");

            if (l == ADD_ALL)
            {
                map.add_all_features_to_staged_map(good_cov(), c2w, cont);
                std::map<int, unsigned> created;
                for (const auto& c: env.created)
                {
                    created[c.seq] += 1;
                    ctx.check(c.id != 0 and m.everSeen.insert(c.id).second, "id-reuse", "id %zu is used twice", c.id);
                    for (const auto& d: dets)
                        if (d.seq == c.seq)
                            m.f[c.id] = MFeature {T, d.key, false, 0, 0, false, {}};
                }
                for (const auto& d: dets)
                    ctx.check(created[d.seq] == 1, "not-staged", "detection %d became a candidate %u times", d.seq, created[d.seq]);
                ctx.check(env.written.empty() and env.updates.empty(), "side-effect", "adding detections changed other features");
            }
            else
            {
                // outliers
                matches_containers::match_container outliers;
                if (l == FRAME_A_OUT_B or l == WW_ONE_OUT)
                {
                    for (auto& [id, x]: m.f)
                        if (x.claimed.contains(0))
                        {
                            outliers.push_back(std::make_shared<SynthMatch>(id, 0, T));
                            x.claimed.erase(0);
                        }
                    // the outliers of another feature type do not concern this map
                    for (auto& [id, x]: m.f)
                        if (x.claimed.contains(1))
                            outliers.push_back(std::make_shared<SynthMatch>(id, 1, FeatureType::Point));
                }
                if (l == UNKNOWN_OUT)
                {
                    outliers.push_back(std::make_shared<SynthMatch>(999999999, 0, T));
                    outliers.push_back(std::make_shared<SynthMatch>(0, 0, T));
                }
                map.mark_outliers_as_unmatched(outliers);
                if (l == BAD_COV)
                {
                    bool threw = false;
                    try
                    {
                        map.update_map(c2w, bad_cov(), cont, writer);
                    }
                    catch (const std::exception&)
                    {
                        threw = true;
                    }
                    ctx.check(threw, "bad-covariance-accepted", "an invalid pose covariance was accepted");
                    threw = false;
                    try
                    {
                        map.add_features_to_staged_map(bad_cov(), c2w, cont, {});
                    }
                    catch (const std::exception&)
                    {
                        threw = true;
                    }
                    ctx.check(threw, "bad-covariance-accepted", "an invalid pose covariance was accepted");
                    ctx.check(env.updates.empty() and env.written.empty() and env.created.empty(), "side-effect", "a refused update changed the map");
                }
                else
                {
                    const auto used = map.update_map(c2w, good_cov(), cont, writer);
                    map.add_features_to_staged_map(good_cov(), c2w, cont, used);
                    check_update(ctx, m, T, dets);
                }
            }
        }
        check_sizes(ctx, m, T, map);
        TrackedFeaturesContainer after;
        map.get_tracked_features(w2c, after, 0);
        check_tracked(ctx, m, after, "after the frame");
        ctx.state(m.hash());
    }
    // drawing: all features of the map, candidates only on demand
    cv::Mat img(4, 4, CV_8UC3);
    env.clear_logs();
    map.draw_on_image(w2c, img, false);
    ctx.check(env.drawn.size() == m.count(T, true), "drawn", "%zu features drawn, %zu expected", env.drawn.size(), m.count(T, true));
    env.clear_logs();
    map.draw_on_image(w2c, img, true);
    ctx.check(env.drawn.size() == m.f.size(), "drawn", "%zu features drawn, %zu expected", env.drawn.size(), m.f.size());

    env.clear_logs();
    map.destroy(writer);
    for (const size_t id: env.written)
        m.exported[id] += 1;
    for (const auto& [id, x]: m.f)
    {
        if (x.local and not x.moving)
            ctx.check(m.exported[id] == 1, "export-once", "remaining feature %zu was exported %u times", id, m.exported[id]);
        if (x.moving)
            ctx.check(m.exported[id] == 0, "moving-exported", "feature %zu is moving and was exported", id);
        if (not x.local)
            ctx.check(m.exported[id] == 0, "candidate-exported", "candidate %zu was exported", id);
    }
    for (const auto& [id, n]: m.exported)
        ctx.check(n <= 1, "export-once", "feature %zu was exported %u times", id, n);
    std::map<size_t, unsigned> pts;
    for (const vector3& p: writer->points)
        pts[size_t(p.x())] += 1;
    for (const auto& [id, n]: m.exported)
        ctx.check(pts[id] == n, "export-count", "feature %zu was written %u times", id, pts[id]);
    ctx.outcome(mc::fmt("local=%zu staged=%zu exported=%zu", m.count(T, true), m.count(T, false), writer->points.size()));
    E = nullptr;
}

// ---- two maps composed in one local map, the export file is a real one ----
enum Letter2
{
    L_BOTH_A,     // both maps see a
    L_2D_A,       // only the first map sees a
    L_PT_A,       // only the second map sees a
    L_NONE,       // no detection
    L_NOPOSE,     // tracking failed
    L_UPGRADE,    // both see a, features a of the first map can be upgraded
    L_OUT_PT,     // both see a, the match of the second map is an outlier
    L_BADCOV,     // both see a, invalid pose covariance
    L_ADDALL,     // both see a and b, all added
    L_RESET,      //
    L_UPNULL,     // both see a, the upgrade yields nothing
    L_B_AND_UPG,  // both see b, features a of the first map can be upgraded
    LETTERS2
};
inline const char* letterName2(const int l)
{
    static const char* n[] = {"both a", "2d a", "pt a", "none", "no-pose", "both a, a upgradable", "both a, pt outlier", "bad covariance", "add all a b", "reset", "both a, null upgrade", "both b, a upgradable"};
    return n[l];
}

// populated starting points
static const std::vector<std::vector<int>> prefixes2 = {
        {},
        {L_ADDALL, L_BOTH_A, L_BOTH_A},
        {L_BOTH_A, L_BOTH_A, L_BOTH_A, L_NONE},
};

inline std::string scratch_dir()
{
    static std::string dir;
    static pid_t owner = 0;
    if (dir.empty() or owner != getpid())
    {
        char t[] = "./scratch-XXXXXX";
        dir = mkdtemp(t);
        owner = getpid();
    }
    return dir;
}

inline void run_composed(mc::Ctx& ctx, const std::vector<int>& word, const size_t minimum = 1)
{
    constexpr FeatureType A = FeatureType::Point2d, B = FeatureType::Point;
    using LM = Local_Map<SMap<A>, SMap<B>>;
    Env env;
    E = &env;
    env.minimum = minimum;
    Model m;
    const std::string dir = scratch_dir();
    char cwd[4096];
    if (not getcwd(cwd, sizeof cwd) or chdir(dir.c_str()) != 0)
        ctx.fail("harness", "no scratch directory");
    std::multiset<size_t> expectedExport; // ids that must be in the file at the end
    std::set<size_t> mayExport;
    struct Back
    {
        std::string d;
        ~Back()
        {
            if (chdir(d.c_str()) != 0)
                abort();
        }
    } back {cwd};
    int seq = 0;
    auto lm = std::make_unique<LM>();
    matrix66 goodPose = matrix66::Identity() * 0.1, badPose = -matrix66::Identity();
    const utils::Pose pose(vector3::Zero(), quaternion::Identity(), goodPose);
    const utils::Pose poseBad(vector3::Zero(), quaternion::Identity(), badPose);
    for (const int l: word)
    {
        ctx.note("%s", letterName2(l));
        ctx.step();
        env.clear_logs();
        env.dets[A].clear();
        env.dets[B].clear();
        auto d = [&](const int key) {
            Det x;
            x.key = key;
            x.seq = ++seq;
            return x;
        };
        const int k = l == L_B_AND_UPG ? 1 : 0;
        if (l != L_PT_A and l != L_NONE and l != L_NOPOSE and l != L_RESET)
            env.dets[A].push_back(d(k));
        if (l != L_2D_A and l != L_NONE and l != L_NOPOSE and l != L_RESET)
            env.dets[B].push_back(d(k));
        if (l == L_ADDALL)
        {
            env.dets[A].push_back(d(1));
            env.dets[B].push_back(d(1));
        }
        env.upgradeKey = (l == L_UPGRADE or l == L_B_AND_UPG or l == L_UPNULL) ? 0 : -1;
        env.upgradeNull = l == L_UPNULL;
        const auto& cont = dummy_container();
        if (l == L_NOPOSE)
        {
            lm->update_no_pose();
            check_no_pose(ctx, m, A);
            check_no_pose(ctx, m, B);
        }
        else if (l == L_RESET)
        {
            lm->reset();
            m.f.clear();
        }
        else
        {
            const auto got = lm->find_feature_matches(pose, cont);
            check_matching(ctx, m, A, env.dets[A], got, minimum);
            check_matching(ctx, m, B, env.dets[B], got, minimum);
            check_tracked(ctx, m, lm->get_tracked_features(pose), "after the search");

            matches_containers::match_container outliers;
            if (l == L_OUT_PT)
                for (const auto& g: got)
                    if (g->get_feature_type() == B)
                    {
                        outliers.push_back(g);
                        m.f.at(g->_idInMap).claimed.erase(g->_detectedFeatureId);
                    }
            if (l == L_BADCOV)
            {
                bool threw = false;
                try
                {
                    lm->update(poseBad, cont, outliers);
                }
                catch (const std::exception&)
                {
                    threw = true;
                }
                ctx.check(threw, "bad-covariance-accepted", "an invalid pose covariance was accepted");
                ctx.check(env.updates.empty() and env.written.empty() and env.created.empty(), "side-effect", "a refused update changed the map");
            }
            else if (l == L_ADDALL)
            {
                lm->add_all_features_to_map(good_cov(), c2w_id(), cont);
                ctx.check(env.created.size() == 4, "not-staged", "%zu candidates created for 4 detections", env.created.size());
                for (const auto& c: env.created)
                {
                    ctx.check(c.id != 0 and m.everSeen.insert(c.id).second, "id-reuse", "id %zu is used twice", c.id);
                    for (const auto& x: env.dets[c.type])
                        if (x.seq == c.seq)
                            m.f[c.id] = MFeature {c.type, x.key, false, 0, 0, false, {}};
                }
            }
            else
            {
                lm->update(pose, cont, outliers);
                check_update(ctx, m, A, env.dets[A]);
                check_update(ctx, m, B, env.dets[B]);
                // upgrades: each upgradable feature of the first map leaves it and enters the second map once
                std::map<size_t, unsigned> up;
                for (const auto& [src, id]: env.upgraded)
                {
                    up[src] += 1;
                    ctx.check(id != 0 and m.everSeen.insert(id).second, "id-reuse", "id %zu is used twice", id);
                }
                std::vector<size_t> ups;
                for (const auto& [id, x]: m.f)
                    if (x.type == A and x.key == env.upgradeKey and not env.upgradeNull)
                        ups.push_back(id);
                ctx.check(up.size() == ups.size(), "upgrade", "%zu features upgraded, %zu expected", up.size(), ups.size());
                for (const size_t id: ups)
                {
                    ctx.check(up[id] == 1, "upgrade", "feature %zu upgraded %u times", id, up[id]);
                    MFeature x = m.f.at(id);
                    m.f.erase(id);
                    x.type = B;
                    x.local = true;
                    x.failed = 0;
                    x.succ = 1;
                    for (const auto& [src, nid]: env.upgraded)
                        if (src == id)
                            m.f[nid] = x;
                }
                ctx.check(env.upgradeNull or std::none_of(m.f.begin(), m.f.end(), [&](const auto& p) { return p.second.type == A and p.second.key == env.upgradeKey; }), "upgrade", "upgraded feature remains");
            }
        }
        check_tracked(ctx, m, lm->get_tracked_features(pose), "after the frame");
        ctx.state(m.hash());
    }
    env.clear_logs();
    lm.reset();
    for (const size_t id: env.written)
        m.exported[id] += 1;
    // the file, as a user would read it
    std::map<size_t, unsigned> inFile;
    {
        std::ifstream in("out.obj");
        ctx.check(in.good(), "no-map-file", "no map file was written");
        std::string line;
        while (std::getline(in, line))
        {
            std::istringstream ls(line);
            std::string tag;
            double x = 0;
            ls >> tag >> x;
            if (tag == "v")
                inFile[size_t(x)] += 1;
        }
        unlink("out.obj");
    }
    for (const auto& [id, x]: m.f)
        if (x.local)
            ctx.check(m.exported[id] == 1, "export-once", "remaining feature %zu was exported %u times", id, m.exported[id]);
        else
            ctx.check(m.exported[id] == 0, "candidate-exported", "candidate %zu was exported", id);
    for (const auto& [id, n]: m.exported)
    {
        ctx.check(n <= 1, "export-once", "feature %zu was exported %u times", id, n);
        if (id < 100000)
            ctx.check(inFile[id] == n, "export-count", "feature %zu is %u times in the file, %u expected", id, inFile[id], n);
    }
    ctx.outcome(mc::fmt("maps %zu+%zu candidates %zu+%zu exported %zu", m.count(A, true), m.count(B, true), m.count(A, false), m.count(B, false), size_t(std::count_if(inFile.begin(), inFile.end(), [](const auto& p) { return p.second > 0; }))));
    E = nullptr;
}

} // namespace synth

#endif
