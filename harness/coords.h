// What the coordinates stand for, worked out independently of the library
#pragma once
#include <mito/geometry.h>
#include <memory>
#include <cmath>
#include "vf.h"

#ifndef DIM
#define DIM 2
#endif
using namespace mito;
constexpr int D = DIM;
using cartesian_t = geometry::coordinates_t<D, geometry::CARTESIAN>;
// (there are no curvilinear coordinates of the line)
using curvilinear_t = geometry::coordinates_t<D, D == 3 ? geometry::SPHERICAL : D == 2 ? geometry::POLAR : geometry::CARTESIAN>;
template <class C>
constexpr bool curved = !std::is_same_v<C, cartesian_t>;
using vec = tensor::vector_t<D>;
using point_type = geometry::point_t<D>;

// {v} times 1024, to the nearest integer
static long told(double v)
{
    v *= 1024;
    return std::isfinite(v) && std::abs(v) < 2e9 ? std::lround(v) : 2000000000;
}
static std::vector<long> told(const vec & v)
{
    std::vector<long> r;
    for (int i = 0; i < D; ++i)
        r.push_back(told(v[i]));
    return r;
}
template <class F>
static std::string list(int n, F f)
{
    std::string s = "[";
    for (int i = 0; i < n; ++i)
        s += (i ? "," : "") + f(i);
    return s + "]";
}
static std::string js(const std::vector<long> & v)
{
    return vf::Event::val(v);
}

// what the coordinates stand for, worked out here
template <class C>
static C from_position(const vec & x)
{
    if constexpr (!curved<C>) {
        return C(x);
    } else if constexpr (D == 2) {
        return C(std::sqrt(x[0] * x[0] + x[1] * x[1]), std::atan2(x[1], x[0]));
    } else {
        double rho = std::sqrt(x[0] * x[0] + x[1] * x[1]);
        return C(std::sqrt(rho * rho + x[2] * x[2]), std::atan2(rho, x[2]), std::atan2(x[1], x[0]));
    }
}
template <class C>
static vec position(const C & c)
{
    vec x;
    if constexpr (!curved<C>) {
        for (int i = 0; i < D; ++i)
            x[i] = c[i];
    } else if constexpr (D == 2) {
        x[0] = c[0] * std::cos(c[1]);
        x[1] = c[0] * std::sin(c[1]);
    } else {
        x[0] = c[0] * std::sin(c[1]) * std::cos(c[2]);
        x[1] = c[0] * std::sin(c[1]) * std::sin(c[2]);
        x[2] = c[0] * std::cos(c[1]);
    }
    return x;
}
// the orthonormal frame along the coordinate lines
template <class C>
static std::array<vec, D> frame(const C & c)
{
    std::array<vec, D> f;
    for (int i = 0; i < D; ++i)
        for (int j = 0; j < D; ++j)
            f[i][j] = i == j;
    if constexpr (curved<C> && D == 2) {
        f[0][0] = std::cos(c[1]), f[0][1] = std::sin(c[1]);
        f[1][0] = -std::sin(c[1]), f[1][1] = std::cos(c[1]);
    }
    if constexpr (curved<C> && D == 3) {
        double st = std::sin(c[1]), ct = std::cos(c[1]), sp = std::sin(c[2]), cp = std::cos(c[2]);
        f[0][0] = st * cp, f[0][1] = st * sp, f[0][2] = ct;
        f[1][0] = ct * cp, f[1][1] = ct * sp, f[1][2] = -st;
        f[2][0] = -sp, f[2][1] = cp, f[2][2] = 0;
    }
    return f;
}
// a vector from its components in the frame, and back
template <class C>
static vec vector_of(const C & c, const vec & v)
{
    auto f = frame(c);
    vec r;
    for (int j = 0; j < D; ++j) {
        r[j] = 0;
        for (int i = 0; i < D; ++i)
            r[j] += v[i] * f[i][j];
    }
    return r;
}
template <class C>
static vec components(const C & c, const vec & v)
{
    auto f = frame(c);
    vec r;
    for (int i = 0; i < D; ++i) {
        r[i] = 0;
        for (int j = 0; j < D; ++j)
            r[i] += v[j] * f[i][j];
    }
    return r;
}
// in the range of the coordinates
template <class C>
static bool canonical(const C & c)
{
    constexpr double e = 1e-9, pi = 3.14159265358979323846;
    if constexpr (curved<C>) {
        if (c[0] < -e)
            return false;
        if constexpr (D == 3)
            return c[1] > -e && c[1] < pi + e;
    }
    return true;
}
template <class C>
static double radius(const C & c)
{
    return c[0];
}
