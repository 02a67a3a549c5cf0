// C09: the motion model on every bounded sequence of motions, against a reference kept as matrices
#include "geo.hpp"
#include "tracking/motion_model.hpp"
#include "utils/pose.hpp"

using namespace geo;
using tracking::Motion_Model;

namespace {

// logarithm of a rotation: axis times angle
vector3 log_of(const matrix33& r)
{
    const double c = std::min(1.0, std::max(-1.0, (r.trace() - 1) / 2));
    const double a = std::acos(c);
    if (a < 1e-9)
        return vector3::Zero();
    const vector3 v(r(2, 1) - r(1, 2), r(0, 2) - r(2, 0), r(1, 0) - r(0, 1));
    return v / (2 * std::sin(a)) * a;
}
double angle_between(const matrix33& a, const matrix33& b)
{
    const double c = std::min(1.0, std::max(-1.0, ((a.transpose() * b).trace() - 1) / 2));
    return std::acos(c);
}
matrix33 half(const matrix33& r) // the rotation half way
{
    const vector3 l = log_of(r);
    const double a = std::sqrt(l.dot(l));
    return a < 1e-12 ? matrix33(matrix33::Identity()) : rodrigues(l, a / 2);
}

struct Step
{
    vector3 v;
    matrix33 r;
};
const std::vector<Step>& steps()
{
    static const std::vector<Step> s = {{vector3(0, 0, 0), matrix33::Identity()},
                                        {vector3(10, 0, 0), matrix33::Identity()},
                                        {vector3(-20, 5, 40), rodrigues(vector3(0, 0, 1), 0.1)},
                                        {vector3(0, 0, 0), rodrigues(vector3(1, 0, 0), -0.2)},
                                        {vector3(1, 1, -1), rodrigues(vector3(1, 2, 3), 0.05)},
                                        {vector3(0, 300, 0), rodrigues(vector3(0, 1, 0), 0.6)}};
    return s;
}

// any sequence of motions: the prediction is the reference one
void run_words(mc::Ctx& ctx, const uint64_t idx)
{
    mc::Dec d(idx);
    const matrix33 R0 = rotations()[d(8) * 8 + 1];
    const int mode = int(d(4)); // reset to a pose or not, variance or not
    const auto w = mc::word_upto(d.v, steps().size() + 2);
    Motion_Model m;
    matrix33 R = R0, lastR = R0, vel = matrix33::Identity();
    vector3 p(100, -50, 7), lastP = p, lin(0, 0, 0);
    matrix66 var = matrix66::Identity() * 2;
    bool set = false;
    if (mode & 1)
    {
        m.reset(p, quat(R));
        set = true;
    }
    for (const int l: w)
    {
        ctx.step();
        if (l == int(steps().size()))
        {
            m.reset();
            set = false;
            vel.setIdentity();
            lin.setZero();
            ctx.check(near(m.get_position_velocity(), lin, 0) and near(m.get_angular_velocity().toRotationMatrix(), vel, 1e-12), "reset", "velocity after a reset");
            continue;
        }
        if (l == int(steps().size()) + 1)
        {
            // relocalisation: the model starts again from a known pose
            p = vector3(-500, 20, 33);
            R = rodrigues(vector3(0, 1, 1), 0.4) * R;
            m.reset(p, quat(R));
            set = true;
            lastP = p;
            lastR = R;
            vel.setIdentity();
            lin.setZero();
            ctx.check(near(m.get_position_velocity(), lin, 0) and near(m.get_angular_velocity().toRotationMatrix(), vel, 1e-12), "reset-pose", "velocity after a reset to a pose");
            continue;
        }
        p += steps()[l].v;
        R = steps()[l].r * R;
        const utils::Pose in(p, quat(R), var);
        const utils::Pose out = m.predict_next_pose(in, mode & 2);
        vector3 wantP = p;
        matrix33 wantR = R;
        if (set)
        {
            lin = (p - lastP + lin) * 0.5;
            // half way between the last motion and the last velocity
            const matrix33 diff = R * lastR.transpose();
            vel = diff * half(diff.transpose() * vel);
            wantP = p + lin;
            wantR = vel * R;
        }
        const matrix66 add = (mode & 2) and set ? matrix66(vector6(100, 100, 100, 0.01, 0.01, 0.01).asDiagonal()) : matrix66(matrix66::Zero());
        lastP = p;
        lastR = R;
        set = true;
        ctx.check(near(out.get_position(), wantP, 1e-6), "position", "predicted %s instead of %s", str(out.get_position()).c_str(), str(wantP).c_str());
        ctx.check(angle_between(out.get_orientation_matrix(), wantR) < 1e-4, "orientation", "predicted orientation is %g rad off", angle_between(out.get_orientation_matrix(), wantR));
        ctx.check(nearS(out.get_orientation_quaternion().norm(), 1, 1e-9), "unit", "orientation of norm %g", out.get_orientation_quaternion().norm());
        ctx.check(near(out.get_pose_variance(), matrix66(var + add), 1e-9), "variance", "variance of the prediction");
        ctx.check(near(m.get_position_velocity(), lin, 1e-6) and angle_between(m.get_angular_velocity().toRotationMatrix(), vel) < 1e-4, "velocity", "velocity %s instead of %s", str(m.get_position_velocity()).c_str(), str(lin).c_str());
        ctx.state(hash(hash(1, wantP), wantR));
    }
}

// a constant motion is learnt: the prediction tends to the next pose
void run_constant(mc::Ctx& ctx, const uint64_t idx)
{
    mc::Dec d(idx);
    const matrix33 R0 = rotations()[d(rotations().size())];
    const Step& s = steps()[d(steps().size())];
    const bool local = d(2); // rotation given in the frame of the camera, or of the world
    Motion_Model m;
    matrix33 R = R0;
    vector3 p(0, 0, 0);
    double errP = 1e9, errR = 1e9;
    for (int i = 0; i < 40; ++i)
    {
        ctx.step();
        const utils::Pose out = m.predict_next_pose(utils::Pose(p, quat(R)));
        p += s.v;
        R = local ? matrix33(R * s.r) : matrix33(s.r * R);
        const vector3 e = out.get_position() - p;
        errP = std::sqrt(e.dot(e));
        errR = angle_between(out.get_orientation_matrix(), R);
    }
    ctx.check(errP < 1e-3, "constant-position", "after 40 equal motions the prediction is %g mm off", errP);
    ctx.check(errR < 1e-3, "constant-rotation", "after 40 equal rotations (from %s) the prediction is %g rad off", str(R0).c_str(), errR);
    ctx.state(mc::mix(3, idx));
}

} // namespace

int main(int argc, char** argv)
{
    std::vector<mc::Family> f;
    f.push_back({"constant_motions", [](bool) { return rotations().size() * steps().size() * 2; }, run_constant, 5});
    f.push_back({"motion_sequences", [](bool t) { return 32 * mc::words_upto(8, t ? 6 : 4); }, run_words, 5});
    return mc::main_(argc, argv, f);
}
