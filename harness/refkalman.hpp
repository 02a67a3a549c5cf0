// Textbook Kalman filter (Joseph form, long double, own linear algebra), the reference of C07 and C08.
#ifndef VERIF_REFKALMAN_HPP
#define VERIF_REFKALMAN_HPP
#include "geo.hpp"

namespace refkalman {

using LD = long double;
using Mat = std::vector<std::vector<LD>>;
inline Mat zeros(size_t r, size_t c) { return Mat(r, std::vector<LD>(c, 0)); }
template<class E> Mat from(const E& e)
{
    Mat m = zeros(e.rows(), e.cols());
    for (int i = 0; i < int(e.rows()); ++i)
        for (int j = 0; j < int(e.cols()); ++j)
            m[i][j] = e(i, j);
    return m;
}
inline Mat mul(const Mat& a, const Mat& b)
{
    Mat m = zeros(a.size(), b[0].size());
    for (size_t i = 0; i < a.size(); ++i)
        for (size_t k = 0; k < b.size(); ++k)
            for (size_t j = 0; j < b[0].size(); ++j)
                m[i][j] += a[i][k] * b[k][j];
    return m;
}
inline Mat add(Mat a, const Mat& b, const LD s = 1)
{
    for (size_t i = 0; i < a.size(); ++i)
        for (size_t j = 0; j < a[0].size(); ++j)
            a[i][j] += s * b[i][j];
    return a;
}
inline Mat tr(const Mat& a)
{
    Mat m = zeros(a[0].size(), a.size());
    for (size_t i = 0; i < a.size(); ++i)
        for (size_t j = 0; j < a[0].size(); ++j)
            m[j][i] = a[i][j];
    return m;
}
// Gauss-Jordan with pivoting; false when singular
inline bool inv(Mat a, Mat& out)
{
    const size_t n = a.size();
    out = zeros(n, n);
    LD big = 0;
    for (size_t i = 0; i < n; ++i)
    {
        out[i][i] = 1;
        for (size_t j = 0; j < n; ++j)
            big = std::max(big, std::abs(a[i][j]));
    }
    for (size_t c = 0; c < n; ++c)
    {
        size_t p = c;
        for (size_t i = c; i < n; ++i)
            if (std::abs(a[i][c]) > std::abs(a[p][c]))
                p = i;
        if (std::abs(a[p][c]) <= 1e-11L * big)
            return false;
        std::swap(a[p], a[c]);
        std::swap(out[p], out[c]);
        const LD d = a[c][c];
        for (size_t j = 0; j < n; ++j)
        {
            a[c][j] /= d;
            out[c][j] /= d;
        }
        for (size_t i = 0; i < n; ++i)
            if (i != c and a[i][c] != 0)
            {
                const LD f = a[i][c];
                for (size_t j = 0; j < n; ++j)
                {
                    a[i][j] -= f * a[c][j];
                    out[i][j] -= f * out[c][j];
                }
            }
    }
    return true;
}
struct Ref
{
    Mat F, H, Q, x, P;
    // Joseph form; false when the innovation cannot be inverted
    bool step(const Mat& z, const Mat& R)
    {
        const Mat xp = mul(F, x), Pp = add(mul(mul(F, P), tr(F)), Q);
        Mat Si;
        if (not inv(add(mul(mul(H, Pp), tr(H)), R), Si))
            return false;
        const Mat K = mul(mul(Pp, tr(H)), Si);
        x = add(xp, mul(K, add(z, mul(H, xp), -1)));
        Mat I = zeros(P.size(), P.size());
        for (size_t i = 0; i < P.size(); ++i)
            I[i][i] = 1;
        const Mat A = add(I, mul(K, H), -1);
        P = add(mul(mul(A, Pp), tr(A)), mul(mul(K, R), tr(K)));
        return true;
    }
};
template<class E> bool close(const E& e, const Mat& m, const double rel)
{
    LD s = 0;
    for (const auto& r: m)
        for (const LD v: r)
            s = std::max(s, std::abs(v));
    for (int i = 0; i < int(e.rows()); ++i)
        for (int j = 0; j < int(e.cols()); ++j)
            if (not(std::abs(e(i, j) - m[i][j]) <= rel * (s + 1e-6)))
                return false;
    return true;
}

} // namespace refkalman
#endif
