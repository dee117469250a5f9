// what the generated functions are looked at with
#pragma once
#include <mito/functions.h>
#include <mito/tensor.h>
#include <cmath>
#include <csetjmp>
#include <map>
#include "vf.h"

using namespace mito::functions;
namespace tensor = mito::tensor;
using scalar = tensor::scalar_t;
using vec = tensor::vector_t<2>;
using mat = tensor::matrix_t<2>;

using case_function = void (*)();
inline std::map<int, case_function> & case_table()
{
    static std::map<int, case_function> t;
    return t;
}
struct Register {
    Register(int n, case_function f) { case_table()[n] = f; }
};

inline std::string scaled(double x)
{
    double y = x * 1024;
    if (!(std::fabs(y) < 1e9))
        return "2000000000";
    return std::to_string(std::lround(y));
}
// a failed assertion at a point (the inverse of a singular matrix, say) leaves the value there untold
extern std::jmp_buf untold;
template <class F, class X>
std::string looked_at(const F & f, const X & x);

inline vec V(scalar a, scalar b) { return vec { a, b }; }
inline mat M(scalar a, scalar b, scalar c, scalar d)
{
    mat m;
    m[{ 0, 0 }] = a;
    m[{ 0, 1 }] = b;
    m[{ 1, 0 }] = c;
    m[{ 1, 1 }] = d;
    return m;
}

inline std::string components(scalar x) { return "[" + scaled(x) + "]"; }
template <int D, class T>
std::string components(const tensor::vector_t<D, T> & v)
{
    std::string s = "[";
    for (int i = 0; i < D; ++i)
        s += (i ? "," : "") + scaled(v[i]);
    return s + "]";
}
template <int R, int C, class T, class P>
std::string components(const pyre::tensor::matrix_t<R, C, T, P> & m)
{
    std::string s = "[";
    for (int i = 0; i < R; ++i)
        for (int j = 0; j < C; ++j)
            s += (i + j ? "," : "") + scaled(m[{ i, j }]);
    return s + "]";
}

template <class F, class X>
std::string looked_at(const F & f, const X & x)
{
    if (setjmp(untold) == 0)
        return components(f(x));
    return "[2000000000,2000000000,2000000000,2000000000]";
}

template <class F>
void rec(const char * op, const char * args, const F & f)
{
    vf::Event e;
    e.put("op", op).raw("a", args);
    std::string v = "[";
    if constexpr (std::is_same_v<typename F::input_type, scalar>) {
        e.put("dom", "s");
        bool first = true;
        for (scalar x : { -1.0, 0.0, 1.0, 2.0, 4.0, 8.0, 0.5 }) {
            v += (first ? "" : ",") + looked_at(f, x);
            first = false;
        }
    } else {
        e.put("dom", "v");
        bool first = true;
        for (vec x : { V(0, 0), V(1, 0), V(0, 1), V(1, 2), V(2, -1), V(0.5, -1) }) {
            v += (first ? "" : ",") + looked_at(f, x);
            first = false;
        }
    }
    e.raw("v", v + "]");
    e.emit();
}
