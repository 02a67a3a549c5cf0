// C05: the consensus pose search and the pose covariance do not depend on the schedule of their parallel loops.
#include "geo.hpp"
#include "mc.hpp"
#include "pose_optimization.hpp"
#include "sched.hpp"
#include "utils/camera_transformation.hpp"
#include <set>
#include <sstream>

using namespace rgbd_slam;
using matches_containers::feat_ptr;
using matches_containers::IOptimizationFeature;
using matches_containers::match_container;
using matches_containers::match_sets;
using pose_optimization::Pose_Optimization;

namespace {

struct Evaluation
{
    WorldToCameraMatrix w2c;
    std::set<size_t> in, seen;
};
std::vector<Evaluation> g_eval; // one per candidate, in the order in which they were evaluated
uint64_t g_variation = 0;
std::vector<vector6> g_solutions; // change of position and rotation of the variations that can be optimised
bool g_record = false;
bool g_shift = false;

// number of candidates that the documented RANSAC formula asks for, with some margin
size_t minimumIterations() { return 20; }

// A match that votes for a camera position (the orientation has to be the identity)
struct Vote : IOptimizationFeature
{
    vector3 at;
    quaternion turn = quaternion::Identity();
    double score;
    size_t id;
    int failMask = 0;

    Vote(const size_t i, const vector3& p, const double s, const int mask = 0, const quaternion& q = quaternion::Identity()) : IOptimizationFeature(i, i), at(p), turn(q), score(s), id(i), failMask(mask) {}
    size_t get_feature_part_count() const noexcept override { return 6; }
    double get_score() const noexcept override { return score; }
    // pose of the camera for which this is the transformation
    static void pose_of(const WorldToCameraMatrix& w, vector3& c, matrix33& r)
    {
        static const matrix33 axes = [] {
            const CameraToWorldMatrix m = utils::compute_camera_to_world_transform(quaternion::Identity(), vector3::Zero());
            return matrix33(m.block<3, 3>(0, 0));
        }();
        const matrix33 cw = w.block<3, 3>(0, 0).transpose();
        r = axes.transpose() * cw;
        c = axes.transpose() * (-cw * w.block<3, 1>(0, 3));
    }
    bool is_inlier(const WorldToCameraMatrix& w) const noexcept override
    {
        vector3 c;
        matrix33 r;
        pose_of(w, c, r);
        const bool ok = (c - at).norm() < 20.0 and (r - matrix33::Identity()).norm() < 0.1;
        if (g_record)
        {
            // each candidate evaluates all the matches one after the other; find its entry by its pose
            Evaluation* e = nullptr;
            for (auto it = g_eval.rbegin(); it != g_eval.rend(); ++it)
                if ((it->w2c - w).norm() == 0 and not it->seen.contains(id))
                {
                    e = &*it;
                    break;
                }
            if (not e)
            {
                g_eval.push_back({w, {}, {}});
                e = &g_eval.back();
            }
            e->seen.insert(id);
            if (ok)
                e->in.insert(id);
        }
        return ok;
    }
    vectorxd get_distance(const WorldToCameraMatrix& w) const noexcept override
    {
        vector3 c;
        matrix33 r;
        pose_of(w, c, r);
        r = turn.toRotationMatrix().transpose() * r;
        vectorxd out(6);
        out << (c - at), 1000.0 * (r(2, 1) - r(1, 2)), 1000.0 * (r(0, 2) - r(2, 0)), 1000.0 * (r(1, 0) - r(0, 1));
        return out;
    }
    double get_alpha_reduction() const noexcept override { return 1.0; }
    feat_ptr compute_random_variation() const noexcept override
    {
        if (g_record)
            sched::freeze(); // the covariance has its own family
        if (not g_shift)
            return std::make_shared<Vote>(id, at, score);
        // number of the variation of the whole set (its features are varied one after the other by one thread)
        static thread_local size_t last = SIZE_MAX;
        static thread_local uint64_t k = 0;
        if (last == SIZE_MAX or id <= last)
            k = g_variation++;
        last = id;
        const bool fails = (failMask >> (k % 16)) & 1;
        static const double s[7][3] = {{0, 0, 0}, {3, 0, 0}, {-2, 1, 0}, {0, -4, 2}, {1, 1, 5}, {-3, 2, -1}, {2, -1, 1}};
        const vector3 shift(s[k % 7][0], s[k % 7][1], s[k % 7][2] + double(k / 7) * 0.25);
        const vector3 rot(0.02 * s[(k + 2) % 7][0], -0.01 * s[(k + 3) % 7][1], 0.015 * s[(k + 1) % 7][2]);
        const quaternion q(turn * quaternion(Eigen::AngleAxisd(rot.norm(), rot.norm() > 0 ? vector3(rot.normalized()) : vector3::UnitX())));
        if (not fails and id == 0)
        {
            // angles such that rotation = Rx(a) Ry(b) Rz(c), the ones closest to those of the reference
            const matrix33 m = q.toRotationMatrix(), m0 = turn.toRotationMatrix();
            const auto angles = [](const matrix33& r) { return vector3(atan2(-r(1, 2), r(2, 2)), asin(std::clamp(r(0, 2), -1.0, 1.0)), atan2(-r(0, 1), r(0, 0))); };
            vector3 a = angles(m) - angles(m0);
            for (int i = 0; i < 3; ++i)
                a(i) = std::remainder(a(i), 2 * M_PI);
            vector6 v;
            v << shift, a;
            g_solutions.push_back(v);
        }
        return std::make_shared<Vote>(id, at + shift, fails ? score * 0.01 : score, 0, q);
    }
    bool is_valid() const noexcept override { return true; }
    FeatureType get_feature_type() const noexcept override { return FeatureType::Point; }
};

// cluster of each match: words without gaps, e.g. 0 0 1 0 2
std::vector<std::vector<int>> patterns()
{
    return {{0, 0, 0, 1, 1}, {1, 0, 0, 1, 0}, {0, 1, 2, 2, 1, 2}, {0, 1, 2, 3}, {0, 0, 1, 1}, {0, 1, 1, 1, 1, 1, 1}, {0}, {0, 1, 1, 2, 2, 2, 3}, {0, 0, 0, 0}};
}
vector3 centre(const int c)
{
    static const double p[4][3] = {{0, 0, 0}, {500, 0, 100}, {-300, 400, 0}, {100, -600, -200}};
    return vector3(p[c][0], p[c][1], p[c][2]);
}
match_container matches(const std::vector<int>& w, const double score)
{
    match_container m;
    for (size_t i = 0; i < w.size(); ++i)
        m.push_back(std::make_shared<Vote>(i, centre(w[i]) + vector3(double(i % 3), 0, double(i % 2)), score));
    return m;
}

struct Shape
{
    size_t pattern;
    double score;
    int workers, mode, bound;
};
std::vector<Shape> shapes(const bool thorough)
{
    std::vector<Shape> v;
    for (size_t p = 0; p < patterns().size(); ++p)
        for (const double s: {1.0, 0.5})
        {
            if (s == 0.5 and patterns()[p].size() < 2)
                continue;
            for (const int workers: {2, 3})
                for (const int mode: {0, 1, 2})
                {
                    // in turn, in the quick tier
                    if (not thorough and (s == 0.5 or workers == 3) and int(p + size_t(workers)) % 3 != mode)
                        continue;
                    if (not thorough and s == 0.5 and workers == 3)
                        continue;
                    v.push_back({p, s, workers, mode, 1});
                }
        }
    return v;
}


constexpr uint64_t slices = 8;

void ransac_case(mc::Ctx& c, const uint64_t idx)
{
    mc::Dec d(idx);
    const auto all = shapes(c.thorough);
    const Shape sh = all[d(all.size())];
    const uint64_t slice = d(slices);
    const auto word = patterns()[sh.pattern];
    const match_container m = matches(word, sh.score);
    const double total = sh.score * double(word.size());
    std::string name;
    for (const int k: word)
        name += char('a' + k);
    sched::Options o;
    o.workers = sh.workers;
    o.mode = sh.mode;
    o.bound = sh.bound;
    const utils::PoseBase start(vector3(50, 60, 70), quaternion::Identity());
    utils::Pose result;
    match_sets sets;
    bool ok = false;
    const uint64_t n = sched::explore(
            o, slice, slices,
            [&] {
                g_eval.clear();
                g_shift = false;
                result = utils::Pose();
                sets.clear();
            },
            [&] {
                g_record = true;
                ok = Pose_Optimization::compute_optimized_pose(start, m, result, sets);
                g_record = false;
            },
            [&] {
                c.step(sched::decisions() + 1);
                c.trace = mc::fmt("matches %s, score %.1f each, %d workers, sharing %d\nschedule: %s\n", name.c_str(), sh.score, sh.workers, sh.mode, sched::schedule().c_str());
                c.check(sched::race().empty(), "race", "data race: %s", sched::race().c_str());
                size_t best = 0, complete = 0;
                for (const Evaluation& e: g_eval)
                    if (e.seen.size() == word.size())
                    {
                        ++complete;
                        best = std::max(best, e.in.size());
                    }
                c.note("%zu candidates evaluated, best has %zu inliers, result %s with %zu inliers and %zu outliers", complete, best, ok ? "ok" : "failure", sets._inliers.size(), sets._outliers.size());
                const bool possible = total >= 1.0 and double(best) * sh.score >= 1.0;
                c.check(ok == possible, "found", "the best candidate has %zu inliers out of %zu (score %.2f) and the search %s", best, word.size(), double(best) * sh.score, ok ? "succeeded" : "failed");
                // without a consensus every iteration has to be tried; an early end needs more than 80 % of inliers
                if (sh.score >= 1.0 and double(best) <= 0.8 * double(word.size()))
                    c.check(complete >= minimumIterations(), "early-stop", "only %zu candidates were evaluated, with at most %zu inliers out of %zu", complete, best, word.size());
                if (not ok)
                {
                    c.outcome("no consensus");
                    return;
                }
                c.check(sets._inliers.size() == best, "best-candidate", "%zu inliers are returned, but a candidate with %zu inliers was evaluated", sets._inliers.size(), best);
                // inliers and outliers share the matches
                std::set<size_t> in, out;
                vector3 mean = vector3::Zero();
                for (const auto& f: sets._inliers)
                {
                    in.insert(f->_idInMap);
                    mean += static_cast<const Vote*>(f.get())->at;
                }
                for (const auto& f: sets._outliers)
                    out.insert(f->_idInMap);
                c.check(in.size() == sets._inliers.size() and out.size() == sets._outliers.size(), "partition", "a match is twice in the inliers or in the outliers");
                for (size_t i = 0; i < word.size(); ++i)
                    c.check(in.contains(i) != out.contains(i), "partition", "match %zu is in %s", i, in.contains(i) ? "both sets" : "none of the sets");
                mean /= double(in.size());
                bool isCandidate = false;
                for (const Evaluation& e: g_eval)
                    isCandidate |= e.seen.size() == word.size() and e.in == in;
                c.check(isCandidate, "mixed", "the returned inliers are not those of one of the evaluated candidates");
                // the pose is the optimum of these inliers
                const vector3 p = result.get_position();
                c.check((p - mean).norm() < 0.05 and (result.get_orientation_matrix() - matrix33::Identity()).norm() < 1e-3, "optimum", "position (%g %g %g), the optimum of the inliers is (%g %g %g)", p.x(), p.y(), p.z(), mean.x(),
                        mean.y(), mean.z());
                // variations that change nothing have no covariance but the minimal one
                const matrix66 cov = result.get_pose_variance();
                c.check((cov - 0.001 * matrix66::Identity()).norm() < 1e-4, "covariance", "covariance of a pose without noise: trace %g, expected 0.006", cov.trace());
                c.outcome(mc::fmt("%s %zu inliers", name.c_str(), in.size()));
                c.state(mc::mix(mc::mix(mc::mix(idx % all.size(), in.size()), complete), mc::mixs(0, sched::schedule())));
            });
    c.count("schedules", n);
}

struct VShape
{
    uint iterations;
    int failMask;
    size_t features;
    int workers, mode, bound;
    int turn;
};
const quaternion& turn_of(const int i)
{
    static const auto about = [](const double d, const vector3& v) { return quaternion(Eigen::AngleAxisd(d * M_PI / 180.0, v.normalized())); };
    static const quaternion q[6] = {quaternion::Identity(), about(180, vector3::UnitX()), about(90, vector3::UnitZ()), about(180, vector3::UnitZ()), about(50, vector3(1, -2, 3)), about(179.9, vector3(0.1, 0, 1))};
    return q[i];
}
std::vector<VShape> vshapes(const bool thorough)
{
    std::vector<VShape> v;
    for (const uint it: {2u, 3u, 4u, 6u})
        for (int mask = 0; mask < (1 << it); ++mask)
        {
            if (it == 6 and not thorough and __builtin_popcount(unsigned(mask)) > 2)
                continue;
            for (const size_t f: {size_t(1), size_t(3)})
                for (const int w: {2, 3})
                    for (const int mode: {0, 1, 2})
                    {
                        if (not thorough and (mode == 2 or (f == 3 and w == 3)))
                            continue;
                        v.push_back({it, mask, f, w, mode, thorough ? 3 : (it == 6 ? 1 : 2), 0});
                        if (mask == 0 and mode == 1)
                            for (int t = 1; t < 6; ++t)
                                v.push_back({it, mask, f, w, mode, 1, t});
                    }
        }
    return v;
}
void variance_case(mc::Ctx& c, const uint64_t idx)
{
    const VShape sh = vshapes(c.thorough)[idx];
    match_container m;
    for (size_t i = 0; i < sh.features; ++i)
        m.push_back(std::make_shared<Vote>(i, vector3(100, 200, 300), 1.0, sh.failMask, turn_of(sh.turn)));
    sched::Options o;
    o.workers = sh.workers;
    o.mode = sh.mode;
    o.bound = sh.bound;
    const utils::PoseBase pose(vector3(100, 200, 300), turn_of(sh.turn));
    matrix66 cov;
    bool ok = false;
    const uint64_t n = sched::explore(
            o, 0, 1,
            [&] {
                g_shift = true;
                g_variation = 0;
                g_solutions.clear();
                cov = matrix66::Constant(-7);
            },
            [&] { ok = Pose_Optimization::compute_pose_variance(pose, m, cov, sh.iterations); },
            [&] {
                c.step(sched::decisions() + 1);
                c.trace = mc::fmt("%u iterations, failures %x, %zu features, %d workers, sharing %d, orientation %d\nschedule: %s\n", sh.iterations, sh.failMask, sh.features, sh.workers, sh.mode, sh.turn, sched::schedule().c_str());
                c.check(sched::race().empty(), "race", "data race: %s", sched::race().c_str());
                c.check(g_variation == sh.iterations, "iterations", "%u variations were asked for, %llu were made", sh.iterations, (unsigned long long)g_variation);
                const size_t k = g_solutions.size();
                const bool possible = k >= sh.iterations / 2 and k >= 2;
                c.check(ok == possible, "enough", "%zu of %u variations have a pose, and the covariance is %s", k, sh.iterations, ok ? "given" : "refused");
                if (not ok)
                {
                    c.outcome("refused");
                    return;
                }
                vector6 mean = vector6::Zero();
                for (const vector6& s: g_solutions)
                    mean += s;
                mean /= double(k);
                matrix66 expected = matrix66::Zero();
                for (const vector6& s: g_solutions)
                    expected += (s - mean) * (s - mean).transpose();
                expected /= double(k - 1);
                expected.diagonal() += vector6::Constant(0.001);
                vector6 size = expected.diagonal().cwiseSqrt();
                for (int i = 0; i < 6; ++i)
                    for (int j = 0; j < 6; ++j)
                        c.check(std::abs(cov(i, j) - expected(i, j)) < 2e-2 * size(i) * size(j), "covariance", "the covariance of the %zu poses has %g at (%d %d), expected %g", k, cov(i, j), i, j, expected(i, j));
                c.outcome(mc::fmt("%zu of %u", k, sh.iterations));
                c.state(mc::mix(idx, mc::mixs(0, sched::schedule())));
            });
    c.count("schedules", n);
}
} // namespace

int main(int argc, char** argv)
{
    std::vector<mc::Family> f;
    f.push_back({"consensus", [](const bool t) { return uint64_t(shapes(t).size()) * slices; }, ransac_case, 300, 1});
    f.push_back({"covariance", [](const bool t) { return uint64_t(vshapes(t).size()); }, variance_case, 300, 1});
    return mc::main_(argc, argv, f);
}
