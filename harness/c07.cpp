// C07: the Kalman filter follows the textbook filter on every bounded sequence of measurements, and refuses invalid ones
#include "refkalman.hpp"
#include "tracking/kalman_filter.hpp"

using namespace geo;
using namespace refkalman;

namespace {

template<int N, int M> struct Setup
{
    Eigen::Matrix<double, N, N> F, Q, P0;
    Eigen::Matrix<double, M, N> H;
    Eigen::Vector<double, N> x0;
};

// measurement letters: value (3) x covariance (3), then the invalid ones
constexpr int letters = 13; // the last one is a measurement that comes with new dynamics

template<int N, int M> void run(mc::Ctx& ctx, const Setup<N, M>& s, const std::vector<int>& word)
{
    tracking::KalmanFilter<N, M> k(s.F, s.H, s.Q);
    {
        bool threw = false;
        try
        {
            k.update(Eigen::Vector<double, M>::Zero(), Eigen::Matrix<double, M, M>::Identity());
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        ctx.check(threw and not k.is_initialized(), "uninitialized", "a filter that was not initialized was updated");
    }
    k.init(s.P0, s.x0);
    ctx.check(k.is_initialized() and near(k.get_state(), s.x0, 0) and near(k.get_state_covariance(), s.P0, 0), "init", "initial state");
    Ref r {from(s.F), from(s.H), from(s.Q), from(s.x0), from(s.P0)};
    for (const int l: word)
    {
        ctx.step();
        Eigen::Vector<double, M> z;
        Eigen::Matrix<double, M, M> R;
        const int v = l % 3, c = l / 3;
        for (int i = 0; i < M; ++i)
            z(i) = v == 0 ? 10.0 + i : v == 1 ? -35.0 * (i + 1) : 250.5 - 100 * i;
        R.setIdentity();
        if (c == 0)
            R *= 0.25;
        else if (c == 1)
            R *= 1e4;
        else
            for (int i = 0; i < M; ++i)
                for (int j = 0; j < M; ++j)
                    R(i, j) = i == j ? 4.0 + i : 1.0;
        const bool bad = l >= 9 and l < 12;
        if (bad)
        {
            R.setIdentity();
            if (l == 9)
                R(M - 1, M - 1) = -1;
            else if (l == 10)
                R(0, 0) = NAN;
            else if (M > 1)
                R(0, M - 1) = 7;
            else
                R(0, 0) = -INFINITY;
        }
        const auto x = k.get_state();
        const auto P = k.get_state_covariance();
        bool threw = false;
        try
        {
            bool done = false;
            if constexpr (N == M)
                if (l == 12)
                {
                    Eigen::Matrix<double, N, N> F2 = Eigen::Matrix<double, N, N>::Identity() * 0.75;
                    F2(0, N - 1) += 0.25;
                    r.F = from(F2);
                    k.update(z, R, F2);
                    done = true;
                }
            if (not done)
            {
                // the filter that does not keep its state
                tracking::SharedKalmanFilter<N, M> sk(k._systemDynamics, s.H, s.Q);
                std::pair<Eigen::Vector<double, N>, Eigen::Matrix<double, N, N>> o;
                bool sthrew = false;
                try
                {
                    o = sk.get_new_state(x, P, z, R);
                }
                catch (const std::exception&)
                {
                    sthrew = true;
                }
                ctx.check(sthrew == bad, "shared-refusal", "measurement %d was %s by the shared filter", l, sthrew ? "refused" : "accepted");
                k.update(z, R);
                ctx.check(near(o.first, k.get_state(), 1e-12) and near(o.second, k.get_state_covariance(), 1e-12), "shared", "the shared filter gives another result");
            }
        }
        catch (const mc::Violation&)
        {
            throw;
        }
        catch (const std::exception& e)
        {
            threw = true;
            ctx.note("letter %d: %s", l, e.what());
        }
        ctx.check(threw == bad, "refusal", "measurement %d was %s", l, threw ? "refused" : "accepted");
        if (bad)
        {
            ctx.check(near(k.get_state(), x, 0) and near(k.get_state_covariance(), P, 0), "refusal-effect", "a refused measurement changed the filter");
            ctx.outcome("refused");
            continue;
        }
        ctx.check(r.step(from(z), from(R)), "reference", "the reference is singular");
        ctx.check(close(k.get_state(), r.x, 1e-7), "state", "state %s after measurement %d (reference %Lg ...)", str(k.get_state()).c_str(), l, r.x[0][0]);
        ctx.check(close(k.get_state_covariance(), r.P, 1e-7), "covariance", "covariance %s after measurement %d (reference %Lg ...)", str(k.get_state_covariance()).c_str(), l, r.P[0][0]);
        const Eigen::Matrix<double, N, N> cov = k.get_state_covariance();
        ctx.check(cov_problem<N>(cov).empty(), "covariance-valid", "%s", cov_problem<N>(cov).c_str());
        ctx.outcome("updated");
        ctx.state(hash(hash(N * 10 + M, k.get_state()), cov));
    }
    // the filter starts again from what it is given, and from nothing else
    const Eigen::Vector<double, N> x1 = s.x0 * 0.5 - Eigen::Vector<double, N>::Ones();
    const Eigen::Matrix<double, N, N> P1 = s.P0 * 1.5;
    k.init(P1, x1);
    ctx.check(k.is_initialized() and near(k.get_state(), x1, 0) and near(k.get_state_covariance(), P1, 0), "init-again", "state %s after a new initialization with %s", str(k.get_state()).c_str(), str(x1).c_str());
}

template<int N, int M> Setup<N, M> setup(const int i)
{
    Setup<N, M> s;
    s.F.setIdentity();
    s.H.setZero();
    for (int j = 0; j < M; ++j)
        s.H(j, j) = 1;
    const int dyn = i % 3, noise = i / 3 % 2, init = i / 6 % 3;
    if (dyn == 1)
        for (int j = 0; j + 1 < N; ++j)
            s.F(j, j + 1) = 0.1;
    if (dyn == 2)
        for (int j = 0; j < M; ++j)
            for (int l = 0; l < N; ++l)
                s.H(j, l) += 0.5 * ((j + 2 * l) % 3);
    s.Q = Eigen::Matrix<double, N, N>::Identity() * (noise ? 0.5 : 1e-3);
    s.P0.setIdentity();
    if (init == 1)
        s.P0 *= 1e5;
    if (init == 2)
        for (int a = 0; a < N; ++a)
            for (int b = 0; b < N; ++b)
                s.P0(a, b) = a == b ? 3.0 + a : (a + b) % 2 ? 0.5 : -0.25;
    for (int j = 0; j < N; ++j)
        s.x0(j) = 5 * j - 3;
    return s;
}

template<int N, int M> void family(std::vector<mc::Family>& f, const unsigned quick)
{
    f.push_back({mc::fmt("sequences_%d_%d", N, M),
                 [quick](bool t) { return 18 * mc::words_upto(letters, t ? quick + 1 : quick); },
                 [](mc::Ctx& c, uint64_t i) { run<N, M>(c, setup<N, M>(int(i % 18)), mc::word_upto(i / 18, letters)); },
                 10});
}

// degenerate certainties: the state, the measurement, or both are certain
void run_certain(mc::Ctx& ctx, const uint64_t idx)
{
    mc::Dec d(idx);
    const double lv[] = {0, 1e-12, 1e-7, 1e-3, 1, 1e6};
    const double p = lv[d(6)], r = lv[d(6)], q = lv[d(6)];
    const bool shared = d(2);
    const matrix33 I = matrix33::Identity();
    tracking::SharedKalmanFilter<3, 3> k(I, I, matrix33(I * q));
    const vector3 x(1, -2, 3), z(100, 50, -10);
    matrix33 P = I * p, R = I * r;
    if (shared)
    {
        P(2, 2) = 0;
        R(1, 1) = 0;
    }
    ctx.step();
    vector3 nx;
    matrix33 nP;
    try
    {
        const auto res = k.get_new_state(x, P, z, R);
        nx = res.first;
        nP = res.second;
    }
    catch (const std::logic_error&)
    {
        // a measurement that is certain compared to the state leaves no variance: rounding may make it negative, and the
        // result is then refused
        double worst = 0;
        for (int i = 0; i < 3; ++i)
            worst = std::max(worst, (P(i, i) + q) / std::max(R(i, i), 1e-300));
        ctx.check(worst > 1e9, "certain-refused", "variances %g + %g and %g: the update was refused", p, q, r);
        ctx.outcome("refused");
        return;
    }
    ctx.check(nx.allFinite() and cov_problem<3>(nP).empty(), "certain-finite", "state %s covariance %s", str(nx).c_str(), str(nP).c_str());
    for (int i = 0; i < 3; ++i)
    {
        const double s = P(i, i) + q, g = s + R(i, i) > 0 ? s / (s + R(i, i)) : 0;
        // variances that differ by many orders of magnitude may be treated as certain
        double hi = 0;
        for (int j = 0; j < 3; ++j)
            hi = std::max(hi, P(j, j) + q + R(j, j));
        if (s + R(i, i) > 1e-9 * hi or hi == 0)
        {
            ctx.check(nearS(nx(i), x(i) + g * (z(i) - x(i)), 1e-6), "certain-state", "variances %g %g: coordinate %g instead of %g", s, R(i, i), nx(i), x(i) + g * (z(i) - x(i)));
            ctx.check(nearS(nP(i, i), (1 - g) * s, 1e-6 * hi + 1e-15), "certain-covariance", "variances %g %g: variance %g instead of %g", s, R(i, i), nP(i, i), (1 - g) * s);
            ctx.outcome(g == 0 ? "kept" : g == 1 ? "replaced" : "mixed");
        }
        else
            ctx.outcome("negligible variance");
    }
    ctx.state(hash(hash(idx, nx), nP));
}

} // namespace

int main(int argc, char** argv)
{
    std::vector<mc::Family> f;
    family<1, 1>(f, 4);
    family<2, 1>(f, 4);
    family<3, 3>(f, 4);
    family<4, 4>(f, 3);
    family<6, 3>(f, 3);
    f.push_back({"certainties", [](bool) { return uint64_t(6 * 6 * 6 * 2); }, run_certain, 5});
    return mc::main_(argc, argv, f);
}
