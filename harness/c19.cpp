// C19: the configuration is the one of the last file, or the default one
#include "geo.hpp"
#include <map>

using namespace geo;

namespace {

const char* const keys[] = {"camera_1_size_x", "camera_1_size_y", "camera_1_focal_x", "camera_1_focal_y", "camera_1_center_x", "camera_1_center_y",
                            "camera_2_size_x", "camera_2_size_y", "camera_2_focal_x", "camera_2_focal_y", "camera_2_center_x", "camera_2_center_y",
                            "camera_2_translation_offset_x", "camera_2_translation_offset_y", "camera_2_translation_offset_z",
                            "camera_2_rotation_offset_x", "camera_2_rotation_offset_y", "camera_2_rotation_offset_z"};
constexpr int fields = 18;
using Values = std::array<double, fields>;
constexpr double absent = 1e300, notNumber = 1e301;
const Values base[2] = {{640, 480, 517.3, 516.5, 318.6, 255.3, 512, 424, 591.1, 590.25, 331, 234, 25, -3.5, 2, 0.02, -0.1, 0.3},
                        {33, 17, 1, 2000, 0, 40, 1920, 1080, 0.5, 30, 960, 0, 0, 0, 0, 0, 0, 0}};
bool is_size(const int f) { return f % 6 < 2 and f < 12; }
bool is_focal(const int f) { return (f % 6 == 2 or f % 6 == 3) and f < 12; }
bool is_center(const int f) { return f % 6 >= 4 and f < 12; }
// values of a field: the two bases, then others
double value_of(const int f, const int k)
{
    static const std::vector<double> sizes = {0, -1, -640, 1, absent}, focals = {0, -517.3, 1e-3, absent, notNumber}, centers = {0, -0.5, -300, 1e5, absent}, moves = {0, -1000, 1.5, 0.7, absent};
    const auto& v = is_size(f) ? sizes : is_focal(f) ? focals : is_center(f) ? centers : moves;
    return k < 2 ? base[k][size_t(f)] : v[size_t(k - 2)];
}
constexpr int values = 7;
bool acceptable(const Values& v)
{
    for (int f = 0; f < 12; ++f)
    {
        const double x = v[size_t(f)] == absent ? 0 : v[size_t(f)];
        if (x == notNumber or (is_size(f) and x <= 0) or (is_focal(f) and not(x > 0)) or (is_center(f) and x < 0))
            return false;
    }
    return true;
}
std::string text_of(const Values& v, const int style)
{
    std::string s = "%YAML:1.0\n---\n";
    for (int i = 0; i < fields; ++i)
    {
        const int f = style ? fields - 1 - i : i; // the order of the lines does not matter
        if (v[size_t(f)] == absent)
            continue;
        if (style)
            s += "# a comment\n";
        s += v[size_t(f)] == notNumber ? mc::fmt("%s: .Nan\n", keys[f]) : mc::fmt("%s: %.10g\n", keys[f], v[size_t(f)]);
    }
    return s;
}
bool load(const std::string& text)
{
    const std::string f = mc::fmt("./config-%d.yaml", int(getpid()));
    {
        std::ofstream o(f);
        o << text;
    }
    const bool ok = Parameters::parse_file(f);
    unlink(f.c_str());
    return ok;
}
matrix33 rot(const vector3& axis, const double a) { return rodrigues(axis, a); }
void check_values(mc::Ctx& c, const Values& v, const char* what)
{
    auto at = [&](const int f) { return v[size_t(f)] == absent ? 0.0 : v[size_t(f)]; };
    const vector2 got[6] = {Parameters::get_camera_1_image_size().cast<double>(), Parameters::get_camera_1_focal(), Parameters::get_camera_1_center(),
                            Parameters::get_camera_2_image_size().cast<double>(), Parameters::get_camera_2_focal(), Parameters::get_camera_2_center()};
    for (int f = 0; f < 12; ++f)
        c.check(nearR(got[f / 2](f % 2), at(f), 1e-6), "value", "%s: %s is %g, the file says %g", what, keys[f], got[f / 2](f % 2), at(f));
    matrix33 K[2];
    for (int k = 0; k < 2; ++k)
    {
        K[k] << at(6 * k + 2), 0, at(6 * k + 4), 0, at(6 * k + 3), at(6 * k + 5), 0, 0, 1;
        const matrix33 have = k ? Parameters::get_camera_2_intrinsics() : Parameters::get_camera_1_intrinsics();
        c.check(near(have, K[k], 1e-5 * amax(K[k])), "intrinsics", "%s: the matrix of camera %d is %s, expected %s", what, k + 1, str(have).c_str(), str(K[k]).c_str());
    }
    matrix44 want = matrix44::Identity();
    want.block<3, 3>(0, 0) = rot(vector3(1, 0, 0), at(15)) * rot(vector3(0, 1, 0), at(16)) * rot(vector3(0, 0, 1), at(17));
    want.block<3, 1>(0, 3) = vector3(at(12), at(13), at(14));
    c.check(near(Parameters::get_camera_2_to_camera_1_transformation(), want, 1e-4), "offset", "%s: the offset of the cameras is %s, expected %s", what, str(Parameters::get_camera_2_to_camera_1_transformation()).c_str(), str(want).c_str());
}
const Values defaults = {640, 480, 550, 550, 320, 240, 640, 480, 550, 550, 320, 240, 0, 0, 0, 0, 0, 0};

// ---- every pair of fields with every pair of values
void run_values(mc::Ctx& c, const uint64_t idx)
{
    mc::Dec d(idx);
    const int f = int(d(fields)), g = int(d(fields)), i = int(d(values)), j = int(d(values)), b = int(d(2)), style = int(d(2));
    Values v = base[b];
    v[size_t(f)] = value_of(f, i);
    v[size_t(g)] = value_of(g, j);
    c.note("%s", text_of(v, style).c_str());
    c.step();
    const bool ok = load(text_of(v, style)), want = acceptable(v);
    c.outcome(ok ? "accepted" : "refused");
    c.check(ok == want and Parameters::is_valid() == want, "accepted", "a configuration that is %s is %s (%s: %g, %s: %g)", want ? "valid" : "invalid", ok ? "accepted" : "refused", keys[f], v[size_t(f)], keys[g], v[size_t(g)]);
    if (want)
        check_values(c, v, "file");
    c.state(mc::mixs(1, text_of(v, 0)));
}
// ---- every sequence of loads
constexpr int loads = 9;
void run_sequence(mc::Ctx& c, const uint64_t idx)
{
    const auto word = mc::word_upto(idx, loads);
    const Values* now = nullptr;
    bool valid = false;
    for (const int l: word)
    {
        c.step();
        bool ok = true;
        const char* what = "";
        Values bad = base[l % 2];
        switch (l)
        {
            case 0:
            case 1:
                what = "valid file";
                ok = load(text_of(base[l], 0));
                c.check(ok, "accepted", "a valid file is refused");
                now = &base[l];
                break;
            case 2:
                what = "default";
                Parameters::load_defaut();
                now = &defaults;
                break;
            case 3:
                what = "file that does not exist";
                ok = Parameters::parse_file("./no-such-file.yaml");
                break;
            case 4:
            case 5:
                what = "invalid file";
                bad[l == 4 ? 0 : 9] = l == 4 ? 0 : -2;
                ok = load(text_of(bad, 0));
                break;
            case 6:
                what = "truncated file";
                ok = load("%YAML:1.0\n---\ncamera_1_size_x: 640\ncamera_1_size_y: [ 480,\n");
                break;
            case 7:
                what = "something else than a configuration";
                ok = load("hello");
                break;
            case 8:
                what = "empty file";
                ok = load("");
                break;
        }
        c.note("%s: %d", what, int(ok));
        if (l >= 3)
            c.check(not ok, "accepted", "a %s is accepted", what);
        if (l == 4 or l == 5)
        {
            valid = false;
            c.check(not Parameters::is_valid(), "valid", "the parameters are valid after an %s", what);
            now = nullptr;
        }
        else
        {
            valid = true;
            if (l >= 3)
                now = &defaults;
            c.check(Parameters::is_valid(), "valid", "the parameters are not valid after: %s", what);
        }
        if (now)
            check_values(c, *now, what);
        c.state(mc::mix(mc::mix(2, uint64_t(l)), valid));
    }
    c.outcome(valid ? "valid" : "not valid");
}

} // namespace

int main(int argc, char** argv)
{
    std::vector<mc::Family> f;
    f.push_back({"values", [](const bool) { return uint64_t(fields * fields * values * values * 4); }, run_values, 20, 64});
    // each sequence starts in a process of its own: nothing was loaded before
    f.push_back({"sequences", [](const bool t) { return mc::words_upto(loads, t ? 4 : 3); }, run_sequence, 20, 1});
    return mc::main_(argc, argv, f);
}
