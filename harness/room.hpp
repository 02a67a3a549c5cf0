// A textured room, and the images (colour and depth) of a camera in it.
#ifndef VERIF_ROOM_HPP
#define VERIF_ROOM_HPP

#include "geo.hpp"
#include <opencv2/opencv.hpp>

namespace room {
using namespace geo;

inline uint32_t h32(uint32_t a, uint32_t b, uint32_t c)
{
    uint32_t x = a * 0x9E3779B1u ^ b * 0x85EBCA77u ^ c * 0xC2B2AE3Du;
    x ^= x >> 15;
    x *= 0x2C1B3C6Du;
    x ^= x >> 12;
    x *= 0x297A2D39u;
    return x ^ x >> 15;
}

// n.x + d = 0, in the axes of a camera at the origin (x right, y down, z forward), with a base for the texture
struct Wall
{
    vector3 n;
    double d;
    vector3 u, v;
    uint32_t seed;
    vector3 c;     // centre
    double hu, hv; // half sizes
};
inline Wall wall(const vector3& point, vector3 n, const uint32_t seed, const double hu, const double hv)
{
    n /= n.norm();
    const vector3 u = n.cross(vector3(0, 1, 0)).normalized();
    return {n, -n.dot(point), u, n.cross(u), seed, point, hu, hv};
}
struct Camera
{
    int w, h;
    double fx, fy, cx, cy;
};
struct Frame
{
    cv::Mat rgb;
    cv::Mat_<float> depth;
};
struct Room
{
    std::vector<Wall> walls;
    double square = 130; // size of the squares of the texture (mm)

    // depth of the first wall on a ray of the camera at (r, t)
    bool hit(const vector3& dir, const vector3& origin, double& s, int& which) const
    {
        s = 1e30;
        which = -1;
        for (size_t i = 0; i < walls.size(); ++i)
        {
            const double den = walls[i].n.dot(dir);
            if (std::abs(den) < 1e-9)
                continue;
            const double k = -(walls[i].n.dot(origin) + walls[i].d) / den;
            if (k <= 1 or k >= s)
                continue;
            const vector3 p = origin + k * dir - walls[i].c;
            if (std::abs(walls[i].u.dot(p)) < walls[i].hu and std::abs(walls[i].v.dot(p)) < walls[i].hv)
            {
                s = k;
                which = int(i);
            }
        }
        return which >= 0;
    }
    int color(const int which, const vector3& p, int c) const
    {
        const Wall& w = walls[size_t(which)];
        const int a = int(std::floor(w.u.dot(p) / square)), b = int(std::floor(w.v.dot(p) / square));
        const uint32_t h = h32(uint32_t(a), uint32_t(b), w.seed);
        return 25 + int((h >> (c * 8)) & 255) * 205 / 255;
    }
    // r, t: orientation and position in the axes of the camera at the origin
    Frame render(const Camera& c, const matrix33& r, const vector3& t, const bool texture = true, const bool withDepth = true) const
    {
        Frame f;
        f.rgb = cv::Mat(c.h, c.w, CV_8UC3, cv::Scalar(90, 90, 90));
        f.depth = cv::Mat_<float>::zeros(c.h, c.w);
        for (int y = 0; y < c.h; ++y)
            for (int x = 0; x < c.w; ++x)
            {
                double s;
                int k;
                if (withDepth)
                {
                    const vector3 dir((x - c.cx) / c.fx, (y - c.cy) / c.fy, 1);
                    if (hit(r * dir, t, s, k))
                    {
                        // a fifth of the precision of the sensor, as noise
                        const double z = s / 1000, q = std::max(0.5, -0.53 + 0.74 * z + 2.73 * z * z);
                        f.depth(y, x) = float(s + 0.2 * q * (double(h32(uint32_t(x), uint32_t(y), 77) % 2001) / 1000.0 - 1));
                    }
                }
                if (texture)
                {
                    double g = 0;
                    for (int j = 0; j < 4; ++j)
                    {
                        const vector3 dir((x + (j % 2) * 0.5 - 0.25 - c.cx) / c.fx, (y + (j / 2) * 0.5 - 0.25 - c.cy) / c.fy, 1);
                        const vector3 d = r * dir;
                        if (hit(d, t, s, k))
                            g += color(k, t + s * d, 0);
                    }
                    const uchar v = uchar(g / 4);
                    f.rgb.at<cv::Vec3b>(y, x) = cv::Vec3b(v, v, v);
                }
            }
        return f;
    }
};
// three panels that face the camera, in front of nothing
inline Room panels()
{
    Room r;
    r.walls.push_back(wall(vector3(-640, -330, 2300), vector3(0.5, 0.15, -0.85), 1, 560, 500));
    r.walls.push_back(wall(vector3(680, -300, 2400), vector3(-0.5, 0.25, -0.85), 2, 600, 480));
    r.walls.push_back(wall(vector3(0, 640, 2200), vector3(0.05, -0.6, -0.8), 3, 1200, 420));
    return r;
}

} // namespace room
#endif
