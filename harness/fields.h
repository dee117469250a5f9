// what the generated fields are looked at with
#pragma once
#include <mito/fields.h>
#include <cmath>
#include <map>
#include "vf.h"

using namespace mito;
template <int D>
using X = geometry::coordinates_t<D, geometry::CARTESIAN>;

using case_function = void (*)();
inline std::map<int, case_function> & case_table()
{
    static std::map<int, case_function> t;
    return t;
}
struct Register {
    Register(int n, case_function f) { case_table()[n] = f; }
};

template <int N>
tensor::vector_t<N> vec(const std::array<double, N> & a)
{
    tensor::vector_t<N> v;
    for (int i = 0; i < N; ++i)
        v[i] = a[i];
    return v;
}
template <int R, int C>
tensor::matrix_t<R, C> mat(const std::array<double, R * C> & a)
{
    tensor::matrix_t<R, C> m;
    for (int i = 0; i < R; ++i)
        for (int j = 0; j < C; ++j)
            m[{ i, j }] = a[i * C + j];
    return m;
}

// the rows and columns of a value
template <class T>
struct shape {
    static constexpr int r = 0, c = 0;
};
template <int D, class T>
struct shape<tensor::vector_t<D, T>> {
    static constexpr int r = D, c = 0;
};
template <int R, int C, class T, class P>
struct shape<pyre::tensor::matrix_t<R, C, T, P>> {
    static constexpr int r = R, c = C;
};

template <int K, class F>
auto at(const F & f)
{
    using S = shape<std::remove_cvref_t<typename F::output_type>>;
    if constexpr (S::c == 0)
        return f[K];
    else
        return f[{ K / S::c, K % S::c }];
}

inline int whole(double y)
{
    return std::abs(y) < 1e9 && std::abs(y - std::round(y)) < 1e-6 ? std::lround(y) : 1999999999;
}
template <class T>
std::vector<int> components(const T & v)
{
    using S = shape<T>;
    std::vector<int> s;
    if constexpr (S::r == 0)
        s.push_back(whole(v));
    else if constexpr (S::c == 0)
        for (int i = 0; i < S::r; ++i)
            s.push_back(whole(v[i]));
    else
        for (int i = 0; i < S::r; ++i)
            for (int j = 0; j < S::c; ++j)
                s.push_back(whole(v[{ i, j }]));
    return s;
}

inline void space(int d)
{
    vf::Event e;
    e.put("op", "space").put("a", std::vector<int>{ d });
    e.emit();
}

template <class F>
void rec(const char * op, const char * args, const F & f)
{
    using input = std::remove_cvref_t<typename F::input_type>;
    constexpr int D = input::dim;
    static const std::vector<std::vector<double>> points = [] {
        std::vector<std::vector<double>> p;
        if (D == 1)
            p = { { -2 }, { -1 }, { 0 }, { 1 }, { 2 }, { 3 } };
        else if (D == 2)
            p = { { 0, 0 }, { 1, 0 }, { 0, 1 }, { 1, 2 }, { -1, 1 }, { 2, -3 }, { -2, -1 }, { 3, 1 } };
        else
            p = { { 0, 0, 0 },  { 1, 0, 0 },  { 0, 1, 0 },   { 0, 0, 1 },  { 1, 2, 3 },
                  { -1, 1, 2 }, { 2, -1, 1 }, { -2, 3, -1 }, { 1, -3, -2 } };
        return p;
    }();
    vf::Event e;
    e.put("op", op).raw("a", args);
    std::string v = "[";
    int r = -1, c = -1;
    for (const auto & p : points) {
        auto x = [&]<int... I>(tensor::integer_sequence<I...>) {
            return input{ p[I]... };
        }(tensor::make_integer_sequence<D>{});
        auto y = f(x);
        r = shape<decltype(y)>::r;
        c = shape<decltype(y)>::c;
        v += std::string(v.size() > 1 ? "," : "") + "{\"x\":"
           + vf::Event::val(std::vector<int>(p.begin(), p.end()))
           + ",\"y\":" + vf::Event::val(components(y)) + "}";
    }
    e.put("r", r).put("c", c).raw("v", v + "]");
    e.emit();
}
