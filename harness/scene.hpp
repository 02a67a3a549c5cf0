// Depth images made of planes laid out on the cells of the detector, and the least squares fit of their points.
#ifndef VERIF_SCENE_HPP
#define VERIF_SCENE_HPP

#include "geo.hpp"
#include <opencv2/opencv.hpp>

namespace scene {
using namespace geo;

constexpr int cell = 20;

// n.x + d = 0, normal towards the camera (d > 0)
struct Pl
{
    vector3 n;
    double d;
};
// plane through the point at depth z on the optical axis, with the normal tilted by `polar` towards the direction `azimuth`
inline Pl plane_at(const double polar, const double azimuth, const double z)
{
    Pl p;
    p.n = vector3(std::sin(polar) * std::sin(azimuth), std::sin(polar) * std::cos(azimuth), -std::cos(polar));
    p.d = z * std::cos(polar);
    return p;
}
inline double quantization(const double z) { return std::max(-0.53 + 0.74e-3 * z + 2.73e-6 * z * z, 0.5); }

struct Layout
{
    int w, h;
    std::vector<int> cells; // region of each cell, -1: no depth
    Layout(const int cw, const int ch) : w(cw), h(ch), cells(size_t(cw * ch), -1) {}
    int& at(const int x, const int y) { return cells[size_t(y * w + x)]; }
    int at(const int x, const int y) const { return cells[size_t(y * w + x)]; }
    void fill(const int x0, const int y0, const int x1, const int y1, const int r)
    {
        for (int y = y0; y < y1; ++y)
            for (int x = x0; x < x1; ++x)
                at(x, y) = r;
    }
    std::string str() const
    {
        std::string s;
        for (int y = 0; y < h; ++y)
        {
            for (int x = 0; x < w; ++x)
                s += at(x, y) < 0 ? '.' : char('A' + at(x, y));
            s += '\n';
        }
        return s;
    }
};

// 4-connected components of equal regions
inline std::vector<std::vector<int>> components(const Layout& l)
{
    std::vector<std::vector<int>> out;
    std::vector<char> seen(l.cells.size(), 0);
    for (int c = 0; c < int(l.cells.size()); ++c)
    {
        if (seen[c] or l.cells[c] < 0)
            continue;
        std::vector<int> comp, todo = {c};
        seen[c] = 1;
        while (not todo.empty())
        {
            const int k = todo.back();
            todo.pop_back();
            comp.push_back(k);
            const int x = k % l.w, y = k / l.w;
            const int nx[4] = {x - 1, x + 1, x, x}, ny[4] = {y, y, y - 1, y + 1};
            for (int i = 0; i < 4; ++i)
            {
                if (nx[i] < 0 or ny[i] < 0 or nx[i] >= l.w or ny[i] >= l.h)
                    continue;
                const int m = ny[i] * l.w + nx[i];
                if (not seen[m] and l.cells[m] == l.cells[k])
                {
                    seen[m] = 1;
                    todo.push_back(m);
                }
            }
        }
        std::sort(comp.begin(), comp.end());
        out.push_back(comp);
    }
    return out;
}

inline uint32_t hash2(const uint32_t u, const uint32_t v, const uint32_t s)
{
    uint32_t h = u * 0x9e3779b1u ^ (v * 0x85ebca6bu + 0x27d4eb2fu) ^ (s * 0xc2b2ae35u);
    h ^= h >> 15;
    h *= 0x2c1b3c6du;
    h ^= h >> 12;
    h *= 0x297a2d39u;
    h ^= h >> 15;
    return h;
}
// reproducible noise in [-amplitude, amplitude]
inline double noise_of(const int u, const int v, const uint32_t seed, const double amplitude)
{
    return amplitude * ((hash2(uint32_t(u), uint32_t(v), seed) % 2001) / 1000.0 - 1.0);
}

inline vector3 ray(const Cfg& c, const double u, const double v) { return vector3((u - c.cx1) / c.fx1, (v - c.cy1) / c.fy1, 1); }

inline double depth_of(const Cfg& c, const Pl& p, const double u, const double v)
{
    const double k = p.n.dot(ray(c, u, v));
    return k == 0 ? -1 : -p.d / k;
}

inline cv::Mat_<float> render(const Cfg& c, const Layout& l, const std::vector<Pl>& planes, const double noise, const uint32_t seed = 0)
{
    cv::Mat_<float> img = cv::Mat_<float>::zeros(l.h * cell, l.w * cell);
    for (int v = 0; v < img.rows; ++v)
        for (int u = 0; u < img.cols; ++u)
        {
            const int r = l.at(u / cell, v / cell);
            if (r < 0)
                continue;
            const double z = depth_of(c, planes[size_t(r)], u, v);
            if (z > 0)
                img(v, u) = float(z + noise_of(u, v, seed, noise));
        }
    return img;
}

// is every cell of the region seen by the camera under conditions where no one would doubt that it is a continuous plane
inline bool clearly_visible(const Cfg& c, const Layout& l, const std::vector<Pl>& planes)
{
    for (int y = 0; y < l.h; ++y)
        for (int x = 0; x < l.w; ++x)
        {
            const int r = l.at(x, y);
            if (r < 0)
                continue;
            for (int k = 0; k < 4; ++k)
            {
                const int u = x * cell + (k & 1 ? cell - 1 : 0), v = y * cell + (k & 2 ? cell - 1 : 0);
                const double z = depth_of(c, planes[size_t(r)], u, v);
                if (not(z > 300 and z < 5000))
                    return false;
                const double zu = depth_of(c, planes[size_t(r)], u + 1, v), zv = depth_of(c, planes[size_t(r)], u, v + 1);
                if (std::abs(zu - z) > 2.5 * quantization(z) or std::abs(zv - z) > 2.5 * quantization(z))
                    return false;
            }
        }
    return true;
}

struct Fit
{
    vector3 n = vector3::Zero();
    double d = 0;
    vector3 centroid = vector3::Zero();
    double mse = 0, score = 0;
    matrix33 second = matrix33::Zero(); // sum of p.p^T
    uint count = 0;
    bool ok = false;
};
// least squares plane of the points of some cells, in extended precision
template<class KeepCell> Fit fit_cells(const Cfg& c, const cv::Mat_<float>& img, const int cw, const std::vector<int>& cells, const KeepCell& keep)
{
    typedef Eigen::Matrix<long double, 3, 3> M;
    typedef Eigen::Matrix<long double, 3, 1> V;
    Fit f;
    std::vector<V> pts;
    for (const int k: cells)
    {
        if (not keep(k))
            continue;
        const int x = k % cw, y = k / cw;
        for (int v = y * cell; v < (y + 1) * cell; ++v)
            for (int u = x * cell; u < (x + 1) * cell; ++u)
            {
                const double z = img(v, u);
                if (z <= 0)
                    continue;
                // the cloud is stored in single precision
                pts.emplace_back(float((u - c.cx1) / c.fx1 * z), float((v - c.cy1) / c.fy1 * z), float(z));
            }
    }
    f.count = uint(pts.size());
    if (pts.size() < 3)
        return f;
    V mean = V::Zero();
    M sec = M::Zero();
    for (const V& p: pts)
    {
        mean += p;
        sec += p * p.transpose();
    }
    mean /= (long double)(pts.size());
    M cov = M::Zero();
    for (const V& p: pts)
        cov += (p - mean) * (p - mean).transpose();
    Eigen::SelfAdjointEigenSolver<M> s(cov);
    V n = s.eigenvectors().col(0);
    n /= std::sqrt(n.dot(n));
    long double d = -n.dot(mean);
    if (d < 0)
    {
        n = -n;
        d = -d;
    }
    f.n = n.cast<double>();
    f.d = double(d);
    f.centroid = mean.cast<double>();
    f.mse = double(std::abs(s.eigenvalues()(0)) / (long double)(pts.size()));
    f.score = double(s.eigenvalues()(1) / std::max<long double>(std::abs(s.eigenvalues()(0)), 1e-6L));
    f.second = sec.cast<double>();
    f.ok = true;
    return f;
}
inline Fit fit_cells(const Cfg& c, const cv::Mat_<float>& img, const int cw, const std::vector<int>& cells)
{
    return fit_cells(c, img, cw, cells, [](int) { return true; });
}

} // namespace scene
#endif
