// C13: covariances are those of the first order propagation and stay valid, for grids of points, poses, planes and matrices
#include "geo.hpp"
#include "coordinates/plane_coordinates.hpp"
#include "utils/covariances.hpp"
#include "utils/distance_utils.hpp"

using namespace geo;
using utils::compute_camera_to_world_transform;
using utils::compute_world_to_camera_transform;

namespace {

// symmetric positive matrices: diagonal, correlated, nearly singular, singular, badly scaled
const std::vector<matrix33>& covs()
{
    static const std::vector<matrix33> v = [] {
        std::vector<matrix33> o;
        auto spd = [](const matrix33& r, double a, double b, double c) {
            matrix33 m = r * vector3(a, b, c).asDiagonal() * r.transpose();
            return matrix33(0.5 * (m + m.transpose()));
        };
        for (const matrix33& r: {matrix33(matrix33::Identity()), rodrigues(vector3(1, 2, -3), 0.7), rodrigues(vector3(0, 1, 1), 2.1)})
            for (const vector3& e: {vector3(1, 1, 1), vector3(0.01, 0.01, 2), vector3(1e-4, 5, 300), vector3(1e-6, 1e-6, 1e4), vector3(100, 3, 0.5)})
                o.push_back(spd(r, e.x(), e.y(), e.z()));
        return o;
    }();
    return v;
}

// one execution: one configuration, one pose, all pixels, depths and covariances
void run_points(mc::Ctx& ctx, const uint64_t idx)
{
    mc::Dec d(idx);
    const auto& c = configs()[d(configs().size())];
    const matrix33 R = rotations()[d(rotations().size())];
    const vector3 t = positions()[d(2) ? 5 : 0];
    ctx.check(load_config(c), "config", "a valid configuration was refused");
    const matrix44 ref = ref_c2w(R, t);
    const matrix33 rot = ref.block<3, 3>(0, 0);
    const CameraToWorldMatrix c2w = compute_camera_to_world_transform(quat(R), t);
    const WorldToCameraMatrix w2c = compute_world_to_camera_transform(quat(R), t);
    for (const double u: {0.0, 10.5, c.cx1, c.w1 * 0.75, c.w1 - 1.0})
        for (const double v: {0.0, 33.25, c.cy1, c.h1 * 0.9})
            for (const double z: {41.0, 250.0, 999.0, 3500.0, 6000.0})
            {
                ctx.step();
                const ScreenCoordinate s(u, v, z);
                const std::string who = mc::fmt("pixel (%g %g) depth %g", u, v, z);
                const matrix33 sc = s.get_covariance();
                const double dq = utils::get_depth_quantization(z);
                ctx.check(cov_problem<3>(sc).empty() and nearR(sc(2, 2), dq, 1e-12), "screen-covariance", "%s: %s", who.c_str(), str(sc).c_str());

                matrix33 J;
                J << z / c.fx1, 0, (u - c.cx1) / c.fx1, 0, z / c.fy1, (v - c.cy1) / c.fy1, 0, 0, 1;
                auto cam_check = [&](const matrix33& got, const matrix33& in, const char* what) {
                    const matrix33 want = J * in * J.transpose();
                    const double tol = 1e-9 * amax(want) + 1e-12;
                    ctx.check(cov_problem<3>(got).empty(), "camera-covariance-valid", "%s: %s is %s", who.c_str(), what, cov_problem<3>(got).c_str());
                    // the sign of the correlations is not meaningful (the code takes absolute values), magnitudes and variances are
                    if (std::abs(in(0, 1)) + std::abs(in(0, 2)) + std::abs(in(1, 2)) == 0)
                        for (int i = 0; i < 3; ++i)
                            for (int j = 0; j < 3; ++j)
                                ctx.check(nearS(std::abs(got(i, j)), std::abs(want(i, j)), tol), "camera-covariance", "%s: %s is %s, propagation gives %s", who.c_str(), what, str(got).c_str(), str(want).c_str());
                };
                const matrix33 cc = utils::get_camera_point_covariance(s);
                cam_check(cc, sc, "camera covariance");
                const CameraCoordinate cp = s.to_camera_coordinates();
                for (size_t k = 0; k < covs().size(); ++k)
                {
                    const matrix33& cov = covs()[k];
                    ctx.step();
                    ScreenCoordinateCovariance scov;
                    scov << cov;
                    cam_check(utils::get_camera_point_covariance(s, scov), cov, "camera covariance");
                    // camera to screen
                    CameraCoordinateCovariance ccov;
                    ccov << cov;
                    const matrix33 back = utils::get_screen_point_covariance(cp, ccov);
                    matrix33 P;
                    P << c.fx1 / cp.z(), 0, -c.fx1 * cp.x() / (cp.z() * cp.z()), 0, c.fy1 / cp.z(), -c.fy1 * cp.y() / (cp.z() * cp.z()), 0, 0, 1;
                    const matrix33 wantBack = P * cov * P.transpose();
                    ctx.check(near(back, wantBack, 1e-9 * amax(wantBack) + 1e-12) and cov_problem<3>(back).empty(), "screen-propagation", "%s: screen covariance %s, propagation gives %s", who.c_str(), str(back).c_str(), str(wantBack).c_str());
                    WorldCoordinateCovariance wcov0;
                    wcov0 << cov;
                    ctx.check(near(matrix33(utils::get_screen_point_covariance(WorldCoordinate(cp.base()), wcov0)), wantBack, 1e-9 * amax(wantBack) + 1e-12), "screen-propagation", "%s: world version", who.c_str());
                    // camera to world and back
                    const matrix33& pose = covs()[(k * 7 + 3) % covs().size()];
                    const matrix33 w = utils::get_world_point_covariance(ccov, c2w, pose);
                    const matrix33 wantW = rot * cov * rot.transpose() + pose;
                    ctx.check(near(w, wantW, 1e-9 * amax(wantW)) and cov_problem<3>(w).empty(), "world-propagation", "world covariance %s, propagation gives %s", str(w).c_str(), str(wantW).c_str());
                    WorldCoordinateCovariance wcov;
                    wcov << cov;
                    const matrix33 cb = utils::get_camera_point_covariance(wcov, w2c, pose);
                    const matrix33 wantC = rot.transpose() * cov * rot + pose;
                    ctx.check(near(cb, wantC, 1e-9 * amax(wantC)) and cov_problem<3>(cb).empty(), "camera-propagation", "camera covariance %s, propagation gives %s", str(cb).c_str(), str(wantC).c_str());
                }
                const matrix33& pose = covs()[3];
                const matrix33 w = utils::get_world_point_covariance(s, c2w, pose);
                const matrix33 wantW = rot * cc * rot.transpose() + pose;
                ctx.check(near(w, wantW, 1e-9 * amax(wantW)), "world-propagation", "%s: world covariance of a pixel", who.c_str());
                ctx.state(hash(mc::mixd(mc::mixd(mc::mixd(idx, u), v), z), w));
            }
}

// planes: all normals of a lattice, distances, covariances, poses
void run_planes(mc::Ctx& ctx, const uint64_t idx)
{
    mc::Dec d(idx);
    const int l[] = {-2, -1, 0, 1, 2};
    const vector3 nn(l[d(5)], l[d(5)], l[d(5)]);
    if (nn.dot(nn) == 0)
        return;
    const vector3 n = nn / std::sqrt(nn.dot(nn));
    const matrix33 R = rotations()[d(rotations().size())];
    const CameraToWorldMatrix c2w = compute_camera_to_world_transform(quat(R), positions()[5]);
    const matrix33 rot = c2w.block<3, 3>(0, 0);
    const PlaneCameraToWorldMatrix p2w = utils::compute_plane_camera_to_world_matrix(c2w);
    for (const double dist: {-4000.0, -700.0, -20.0, 20.0, 999.0})
        for (const matrix33& cov: covs())
        {
            ctx.step();
            const PlaneCameraCoordinates pl(n, dist);
            const matrix44 pc = utils::compute_plane_covariance(pl, cov);
            const std::string who = mc::fmt("plane %s %g", str(n).c_str(), dist);
            ctx.check(cov_problem<4>(pc).empty() and min_eigen<4>(pc) >= 0, "plane-covariance", "%s: %s", who.c_str(), cov_problem<4>(pc).c_str());
            // the part of the normal: projection of the cloud covariance on the plane, scaled by the distance
            const matrix33 J = (matrix33::Identity() - n * n.transpose()) / std::abs(dist);
            const matrix33 want = J * cov * J.transpose() + 0.01 * matrix33::Identity();
            ctx.check(near(matrix33(pc.block<3, 3>(0, 0)), want, 1e-9 * amax(want) + 1e-10), "plane-normal-covariance", "%s: %s instead of %s", who.c_str(), str(matrix33(pc.block<3, 3>(0, 0))).c_str(), str(want).c_str());
            // reduced form
            const matrix33 red = utils::compute_reduced_plane_point_cloud_covariance(pl, pc);
            Eigen::Matrix<double, 3, 4> K;
            K << dist, 0, 0, n.x(), 0, dist, 0, n.y(), 0, 0, dist, n.z();
            const matrix33 wantRed = K * pc * K.transpose() + 0.01 * matrix33::Identity();
            ctx.check(near(red, wantRed, 1e-9 * amax(wantRed)) and cov_problem<3>(red).empty(), "plane-reduced", "%s: %s instead of %s", who.c_str(), str(red).c_str(), str(wantRed).c_str());
            // world form: the parameters change linearly, and the position of the camera moves the plane along its normal
            const matrix33& pose = covs()[(idx + size_t(std::abs(dist))) % covs().size()];
            const vector3 nw = rot * n, tw = c2w.block<3, 1>(0, 3);
            matrix44 T = matrix44::Zero();
            T.block<3, 3>(0, 0) = rot;
            T.block<1, 3>(3, 0) = -(rot.transpose() * tw).transpose();
            T(3, 3) = 1;
            matrix44 wantW = T * pc * T.transpose();
            wantW(3, 3) += nw.dot(pose * nw);
            const matrix44 wc = utils::get_world_plane_covariance(pl, c2w, p2w, pc, pose);
            ctx.check(near(wc, wantW, 1e-7 * amax(wantW)) and cov_problem<4>(wc).empty(), "plane-world", "%s: world covariance %s instead of %s", who.c_str(), str(wc).c_str(), str(wantW).c_str());
            ctx.state(hash(mc::mixd(idx, dist), pc));
            // arguments that make no sense are refused
        }
    for (int bad = 0; bad < 4; ++bad)
    {
        bool threw = false;
        ctx.step();
        matrix33 cov = covs()[1];
        double dist = 500;
        if (bad == 0)
            cov(0, 0) = std::nan("");
        if (bad == 1)
            cov(1, 1) = -3;
        if (bad == 2)
            cov(0, 1) += 5;
        if (bad == 3)
            dist = 0;
        try
        {
            std::ignore = utils::compute_plane_covariance(PlaneCameraCoordinates(n, dist), cov);
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        ctx.check(threw, "plane-arguments", "an invalid argument (%d) was accepted", bad);
        ctx.outcome(mc::fmt("refused argument %d", bad));
    }
}

// validity test: all symmetric integer matrices of a lattice, plus asymmetries and bad values
template<int N> void judge(mc::Ctx& ctx, const Eigen::Matrix<double, N, N>& m)
{
    ctx.step();
    bool finite = true, symmetric = true;
    for (int i = 0; i < N; ++i)
        for (int j = 0; j < N; ++j)
        {
            finite = finite and std::isfinite(m(i, j));
            symmetric = symmetric and m(i, j) == m(j, i);
        }
    std::string reason;
    const bool got = utils::is_covariance_valid(m, reason);
    ctx.check(got == utils::is_covariance_valid(m), "covariance-valid", "the two versions differ");
    ctx.state(hash(N, m));
    if (not finite or (N > 1 and not symmetric))
    {
        ctx.check(not got, "covariance-valid", "%s was accepted", str(m).c_str());
        ctx.outcome(finite ? "not symmetric" : "not finite");
        return;
    }
    const double e = min_eigen<N>(m);
    const double s = amax(m);
    if (e < -1e-9 * s)
    {
        ctx.check(not got, "covariance-valid", "%s was accepted, smallest eigenvalue %g", str(m).c_str(), e);
        ctx.outcome("negative");
    }
    else if (e > 1e-9 * s or s == 0)
    {
        ctx.check(got, "covariance-valid", "%s was refused (%s), smallest eigenvalue %g", str(m).c_str(), reason.c_str(), e);
        ctx.outcome("positive");
    }
    else
        ctx.outcome("singular");
}

void run_valid(mc::Ctx& ctx, const uint64_t idx)
{
    mc::Dec d(idx);
    const double diag[] = {-1, 0, 1e-3, 1, 4}, off[] = {-2, -1, -0.02, 0, 0.5, 1, 3};
    matrix33 m;
    for (int i = 0; i < 3; ++i)
        m(i, i) = diag[d(5)];
    m(0, 1) = m(1, 0) = off[d(7)];
    m(0, 2) = m(2, 0) = off[d(7)];
    m(1, 2) = m(2, 1) = off[d(7)];
    judge<3>(ctx, m);
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
        {
            for (const double bad: {double(NAN), double(INFINITY), -double(INFINITY)})
            {
                matrix33 b = m;
                b(i, j) = bad;
                judge<3>(ctx, b);
            }
            if (i != j)
            {
                matrix33 b = m;
                b(i, j) += 1;
                judge<3>(ctx, b);
            }
        }
    judge<2>(ctx, matrix22(m.block<2, 2>(0, 0)));
    judge<2>(ctx, matrix22(m.block<2, 2>(1, 1)));
    judge<1>(ctx, Eigen::Matrix<double, 1, 1>(m.block<1, 1>(0, 0)));
    Eigen::Matrix<double, 6, 6> b6 = Eigen::Matrix<double, 6, 6>::Identity() * 2.5;
    b6.block<3, 3>(2, 2) = m;
    judge<6>(ctx, b6);
}

void run_depth(mc::Ctx& ctx, const uint64_t idx)
{
    const double z = double(idx) * 0.5;
    ctx.step();
    const double q = utils::get_depth_quantization(z), q2 = utils::get_depth_quantization(z + 0.5);
    ctx.state(mc::mixd(1, q));
    const double want = std::max(parameters::depthSigmaMargin + parameters::depthSigmaMultiplier / 1000.0 * z + parameters::depthSigmaError * z * z / 1e6, 0.5);
    ctx.check(q >= 0.5 and nearR(q, want, 1e-9), "depth-quantization", "depth %g: %g instead of %g", z, q, want);
    if (z >= 40)
        ctx.check(q2 >= q, "depth-quantization", "less certain at %g than at %g", z, z + 0.5);
}

} // namespace

int main(int argc, char** argv)
{
    std::vector<mc::Family> f;
    f.push_back({"points_of_all_poses", [](bool) { return configs().size() * rotations().size() * 2; }, run_points, 20, 1});
    f.push_back({"planes_of_all_poses", [](bool) { return 125 * rotations().size(); }, run_planes, 20});
    f.push_back({"validity", [](bool) { return uint64_t(125 * 343); }, run_valid, 5});
    f.push_back({"depth_quantization", [](bool) { return uint64_t(20001); }, run_depth, 5});
    return mc::main_(argc, argv, f);
}
