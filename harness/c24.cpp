// C24: random choices. The generator is given its outputs: every sequence of draws of a lattice is executed.
#include "geo.hpp"
#include "pose_optimization/ransac.hpp"
#include "utils/random.hpp"
#include <list>
#include <memory>
#include <set>
#include <sstream>
#include <thread>

using namespace rgbd_slam;
namespace ransac = rgbd_slam::pose_optimization::ransac;

namespace {

// the internal word that gives this output
uint32_t untemper(uint32_t y)
{
    y ^= y >> 18;
    y ^= (y << 15) & 0xefc60000u;
    uint32_t x = y;
    for (int i = 0; i < 5; ++i)
        x = y ^ ((x << 7) & 0x9d2c5680u);
    y = x;
    x = y;
    for (int i = 0; i < 3; ++i)
        x = y ^ (x >> 11);
    return x;
}

// the next outputs of the generator are these ones, then words that depend on nothing
void set_draws(const std::vector<uint32_t>& draws)
{
    static const std::vector<std::string> rest = [] {
        std::vector<std::string> r;
        uint64_t h = 12345;
        for (int i = 0; i < 624; ++i)
        {
            h = mc::mix(h, uint64_t(i));
            r.push_back(std::to_string(uint32_t(h >> 16)));
        }
        return r;
    }();
    std::string s;
    s.reserve(7000);
    for (size_t i = 0; i < 624; ++i)
        (s += i < draws.size() ? std::to_string(untemper(draws[i])) : rest[i]) += ' ';
    s += "0";
    std::istringstream in(s);
    in >> utils::Random::get_random_engine();
}

// number of outputs that were used since set_draws
size_t used_draws()
{
    std::ostringstream out;
    out << utils::Random::get_random_engine();
    const std::string s = out.str();
    return std::stoul(s.substr(s.rfind(' ') + 1));
}

// middle of the part `letter` of `parts`
uint32_t draw(const uint64_t letter, const uint64_t parts) { return uint32_t(((letter * 2 + 1) << 31) / parts); }

void self_check(mc::Ctx& ctx)
{
    const std::vector<uint32_t> w {0, 1, 0xffffffffu, 0x12345678u, 0x80000000u};
    set_draws(w);
    for (const uint32_t x: w)
    {
        const uint32_t got = utils::Random::get_random_engine()();
        ctx.check(got == x, "harness", "the draw %u came out as %u", x, got);
    }
}

struct Item
{
    int id;
    double score;
    double get_score() const { return score; }
};
using ptr = std::shared_ptr<Item>;

const std::vector<std::vector<double>>& score_sets()
{
    static const std::vector<std::vector<double>> v {
            {1.0},
            {0.5, 0.5},
            {0.2, 0.2, 0.2},
            {1.0 / 3, 1.0 / 3, 1.0 / 3, 0.2},
            {1.0, 0.2, 0.2, 0.2},
            {0.2, 1.0 / 3, 0.5, 1.0},
            {0.7, 0.7},
            {0.1, 0.9, 0.4},
    };
    return v;
}

// every sequence of draws for one call of one function on one set
template<template<typename> class C> void run_subsets(mc::Ctx& ctx, const uint64_t idx)
{
    constexpr uint64_t parts = 12;
    self_check(ctx);
    mc::Dec d(idx);
    const auto& scores = score_sets()[d(score_sets().size())];
    const int what = int(d(3)); // 0: by count, 1: by score, 2: by count with repetitions
    const int arg = int(d(5));
    C<ptr> in;
    double total = 0;
    for (size_t i = 0; i < scores.size(); ++i)
    {
        in.push_back(std::make_shared<Item>(Item {int(i), scores[i]}));
        total += scores[i];
    }
    const double targets[] {0.2, 0.5, 1.0, 1.2, 5.0};
    const double target = targets[arg];
    const size_t n = in.size();
    const bool possible = what == 1 ? total >= target - 1e-12 : size_t(arg) <= n;
    if (what == 1 and std::abs(total - target) < 1e-9)
        return; // decided by the rounding
    // draws: at most n by permutation, two by real number
    const int len = what == 2 ? std::min(arg, int(n)) : int(n) - 1;
    uint64_t words = 1;
    for (int i = 0; i < len; ++i)
        words *= parts;
    std::map<std::multiset<int>, uint64_t> seen;
    for (uint64_t w = 0; w < words; ++w)
    {
        ctx.step();
        std::vector<uint32_t> draws;
        uint64_t r = w;
        for (int i = 0; i < len; ++i, r /= parts)
        {
            if (what == 2)
                draws.push_back(draw((r * 7 + i) % parts, parts)); // the low part of a real number
            draws.push_back(draw(r % parts, parts));
        }
        set_draws(draws);
        const std::string who = mc::fmt("function %d on %zu elements, argument %d, draws %lu", what, n, arg, w);
        C<ptr> out;
        bool threw = false;
        try
        {
            if (what == 0)
                out = ransac::get_random_subset(in, uint(arg));
            else if (what == 1)
                out = ransac::get_random_subset_with_score(in, target);
            else
                out = ransac::get_random_subset_with_duplicates(in, uint(arg));
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        ctx.check(threw == not possible, "refusal", "%s: %s", who.c_str(), threw ? "refused" : "accepted");
        if (threw)
        {
            ctx.outcome("refused");
            return;
        }
        std::multiset<int> ids;
        double score = 0, most = 0;
        for (const ptr& p: out)
        {
            bool known = false;
            for (const ptr& q: in)
                known |= p == q;
            ctx.check(known, "element", "%s: an element is not one of the set", who.c_str());
            ids.insert(p->id);
            score += p->score;
            most = std::max(most, p->score);
        }
        if (what != 2)
            ctx.check(std::set<int>(ids.begin(), ids.end()).size() == ids.size(), "repeated", "%s: an element was taken twice", who.c_str());
        if (what != 1)
            ctx.check(ids.size() == size_t(arg), "count", "%s: %zu elements", who.c_str(), ids.size());
        else
        {
            ctx.check(score >= target - 1e-9, "score", "%s: score %g instead of %g", who.c_str(), score, target);
            ctx.check(score - most < target, "score-more", "%s: score %g, more than enough for %g", who.c_str(), score, target);
        }
        ctx.check(in.size() == n, "input", "%s: the set changed", who.c_str());
        ++seen[ids];
        uint64_t h = mc::mix(uint64_t(what), uint64_t(n));
        for (const int i: ids)
            h = mc::mix(h, uint64_t(i));
        ctx.state(mc::mix(h, idx));
    }
    ctx.outcome(mc::fmt("function %d", what));
    // by count every subset is drawn as often as the others
    if (what == 0)
    {
        uint64_t subsets = 1;
        for (int i = 0; i < arg; ++i)
            subsets = subsets * (n - i) / (i + 1);
        ctx.check(seen.size() == subsets, "reachable", "%zu of the %lu subsets of %d of %zu elements can be drawn", seen.size(), subsets, arg, n);
        for (const auto& [ids, c]: seen)
            ctx.check(double(c) * subsets / words > 0.75 and double(c) * subsets / words < 1.34, "fair", "a subset of %d of %zu elements is drawn %lu times of %lu", arg, n, c, words);
    }
    // with a score, every element takes part in some subset, and with equal scores as often as the others
    if (what == 1)
    {
        std::vector<uint64_t> c(n, 0);
        for (const auto& [ids, k]: seen)
            for (const int i: ids)
                c[i] += k;
        for (size_t i = 0; i < n; ++i)
        {
            ctx.check(c[i] > 0, "reachable", "element %zu of %zu is never taken for the score %g", i, n, target);
            for (size_t j = 0; j < i; ++j)
                if (scores[i] == scores[j])
                    ctx.check(c[i] * 4 >= c[j] * 3 and c[j] * 4 >= c[i] * 3, "fair", "for the score %g element %zu is taken %lu times, element %zu %lu times", target, i, c[i], j, c[j]);
        }
    }
    if (what == 2 and arg > 0)
    {
        uint64_t combos = 1; // multisets of arg elements of n
        for (int i = 0; i < arg; ++i)
            combos = combos * (n + i) / (i + 1);
        ctx.check(seen.size() == combos, "reachable", "%zu of the %lu draws of %d of %zu elements with repetition", seen.size(), combos, arg, n);
    }
}

// integers and reals in their interval
void run_numbers(mc::Ctx& ctx, const uint64_t idx)
{
    self_check(ctx);
    mc::Dec d(idx);
    const uint32_t lows[] {0, 1, 0x7fffffffu, 0xfffffffeu, 0xffffffffu};
    const uint32_t low = lows[d(5)];
    const uint lo = std::vector<uint> {0, 1, 7, 1000}[d(4)];
    const uint size = std::vector<uint> {1, 2, 3, 5, 100, 640}[d(6)];
    std::vector<uint64_t> seen(size, 0);
    const uint64_t parts = uint64_t(size) * 4;
    for (uint64_t w = 0; w < parts + 4; ++w)
    {
        ctx.step();
        const uint32_t high = w < parts ? draw(w, parts) : std::vector<uint32_t> {0, 1, 0xfffffffeu, 0xffffffffu}[w - parts];
        set_draws({low, high});
        const double r = utils::Random::get_random_double();
        ctx.check(r >= 0 and r < 1, "interval", "real %.17g of the draws %u %u", r, low, high);
        set_draws({low, high});
        const uint v = utils::Random::get_random_uint(lo, lo + size);
        ctx.check(v >= lo and v < lo + size, "interval", "integer %u in [%u, %u[ (draws %u %u)", v, lo, lo + size, low, high);
        set_draws({low, high});
        const uint v0 = utils::Random::get_random_uint(size);
        ctx.check(v0 < size, "interval", "integer %u in [0, %u[ (draws %u %u)", v0, size, low, high);
        if (w < parts)
            ++seen[v - lo];
        ctx.state(mc::mix(mc::mix(idx, w), v));
    }
    for (uint i = 0; i < size; ++i)
        ctx.check(seen[i] >= 3 and seen[i] <= 5, "uniform", "%u is drawn %lu times of %lu in [%u, %u[", lo + i, seen[i], parts, lo, lo + size);
    ctx.outcome("interval");
}

// the normal draws over a whole grid of the unit square have the moments of the normal distribution
void run_normal(mc::Ctx& ctx, const uint64_t idx)
{
    self_check(ctx);
    const uint64_t parts = std::vector<uint64_t> {40, 64, 96}[idx];
    long double s1 = 0, s2 = 0, s3 = 0, s4 = 0;
    uint64_t count = 0, in1 = 0, in2 = 0;
    std::vector<uint32_t> all;
    for (uint64_t a = 0; a < parts; ++a)
        for (uint64_t b = 0; b < parts; ++b)
        {
            all.push_back(0x80000000u);
            all.push_back(draw(a, parts));
            all.push_back(0x80000000u);
            all.push_back(draw((b * 27 + a) % parts, parts));
        }
    size_t at = 0;
    while (at + 200 < all.size())
    {
        ctx.step();
        set_draws({all.begin() + at, all.begin() + std::min(at + 400, all.size())});
        const Eigen::Vector<double, 2> v = utils::Random::get_normal_doubles<2>();
        at += std::max<size_t>(used_draws(), 1);
        for (const double x: {v.x(), v.y()})
        {
            ctx.check(std::isfinite(x) and std::abs(x) < 40, "normal-finite", "normal draw %g", x);
            s1 += x, s2 += x * x, s3 += x * x * x, s4 += x * x * x * x;
            ++count;
            in1 += std::abs(x) < 1;
            in2 += std::abs(x) < 2;
        }
        ctx.state(geo::hash(idx, v));
    }
    const double m = s1 / count, var = s2 / count - m * m, sk = s3 / count, ku = s4 / count;
    ctx.check(std::abs(m) < 0.05 and std::abs(var - 1) < 0.06 and std::abs(sk) < 0.2 and std::abs(ku - 3) < 0.5, "normal-moments", "mean %g variance %g third %g fourth %g", m, var, sk, ku);
    ctx.check(std::abs(double(in1) / count - 0.6827) < 0.03 and std::abs(double(in2) / count - 0.9545) < 0.02, "normal-share", "%g within 1 deviation, %g within 2", double(in1) / count, double(in2) / count);
    ctx.outcome("normal");
}

// in the deterministic mode each thread draws the same numbers as any other thread, whatever the others draw
void run_threads(mc::Ctx& ctx, const uint64_t idx)
{
    mc::Dec d(idx);
    const int before = int(d(4)), n = 1 + int(d(6));
    auto values = [&](const int skip, std::vector<double>& out) {
        std::thread t([&] {
            for (int i = 0; i < skip; ++i)
                std::ignore = utils::Random::get_random_double();
            for (int i = 0; i < n; ++i)
            {
                out.push_back(utils::Random::get_random_double());
                out.push_back(utils::Random::get_normal_double());
                out.push_back(utils::Random::get_random_uint(1000));
            }
        });
        t.join();
    };
    ctx.step();
    std::vector<double> a, b, c;
    values(0, a);
    for (int i = 0; i < before; ++i)
        std::ignore = utils::Random::get_normal_double();
    values(0, b);
    values(1, c);
    ctx.check(a == b, "deterministic", "two threads do not draw the same numbers");
    ctx.check(a != c, "deterministic-stuck", "the draws do not advance");
    for (size_t i = 3; i + 1 < a.size(); i += 3)
        ctx.check(a[i] != a[0] , "deterministic-stuck", "the draws repeat");
    ctx.state(mc::mix(uint64_t(before), uint64_t(n)));
    ctx.outcome("same");
}

template<typename T> using list_of = std::list<T>;
template<typename T> using vector_of = std::vector<T>;

} // namespace

int main(int argc, char** argv)
{
    std::vector<mc::Family> f;
    const uint64_t n = score_sets().size() * 3 * 5;
    f.push_back({"subsets_list", [n](bool) { return n; }, run_subsets<std::list>, 120});
    f.push_back({"subsets_vector", [n](bool) { return n; }, run_subsets<std::vector>, 120});
    f.push_back({"numbers", [](bool) { return uint64_t(5 * 4 * 6); }, run_numbers, 60});
    f.push_back({"normal", [](bool t) { return uint64_t(t ? 3 : 2); }, run_normal, 120});
    f.push_back({"threads", [](bool) { return uint64_t(24); }, run_threads, 20});
    return mc::main_(argc, argv, f);
}
