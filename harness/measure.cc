// Manifolds and integrals on them (P28, P31), against Measure.tla
#include <mito/mesh.h>
#include <mito/manifolds.h>
#include <mito/quadrature.h>
#include "coords.h"

#ifndef ORDER
#define ORDER 2
#endif
constexpr int N = ORDER;
using cell_t = geometry::geometric_simplex_t<N, D>;
using node_t = geometry::node_t<D>;

// v in two parts, in 1/2^10 and in 1/2^30
static std::vector<long> exact(double v)
{
    double h = std::nearbyint(v * 1024);
    if (!std::isfinite(v) || std::abs(h) > 2e9)
        return { 2000000000, 0 };
    return { (long) h, std::lround((v * 1024 - h) * 1048576) };
}

// the polynomial that is the product of the affine functions
template <class C>
static auto polynomial(const std::vector<std::array<double, D + 1>> & factors)
{
    return functions::function([factors](const C & c) -> tensor::scalar_t {
        const vec x = position(c);
        double r = 1;
        for (const auto & a : factors) {
            double v = a[0];
            for (int i = 0; i < D; ++i)
                v += a[i + 1] * x[i];
            r *= v;
        }
        return r;
    });
}
// the field of a vector
template <class C>
static auto field(const vec & v)
{
    return functions::function([v](const C & c) -> vec { return components(c, v); });
}

// the manifold of a mesh, the volume form being given some vectors
template <class C, class M, class F>
static void with_manifold(const M & mesh, const geometry::coordinate_system_t<C> & sys, const std::vector<vec> & n, F f)
{
    constexpr int open = D - M::order;
    if constexpr (open == 0)
        f(manifolds::manifold(mesh, sys));
    else if constexpr (open == 1)
        f(manifolds::submanifold(mesh, sys, field<C>(n[0])));
    else
        f(manifolds::submanifold(mesh, sys, field<C>(n[0]), field<C>(n[1])));
}

template <int R, class M, class F>
static double integrate(const M & manifold, const F & f)
{
    return quadrature::integrator<quadrature::GAUSS, R>(manifold).integrate(f);
}
// with the rule of degree r
template <class M, class F>
static double integrate(const M & manifold, const F & f, int r)
{
    constexpr int n = M::cell_type::order;
    if (r == 1)
        return integrate<1>(manifold, f);
    if (r == 2)
        return integrate<2>(manifold, f);
    if constexpr (n == 2) {
        if (r == 3)
            return integrate<3>(manifold, f);
        if (r == 4)
            return integrate<4>(manifold, f);
    }
    return NAN;
}

// the flux of a function times a vector of the basis out of a mesh
template <class M, class W>
static void flux(vf::Event & e, M & mesh, const std::vector<int> & a, const std::vector<std::array<double, D + 1>> & f, W with)
{
    if constexpr (M::order == D && D > 1) {
        vec n;
        for (int i = 0; i < D; ++i)
            n[i] = i == a[1] - 1;
        auto boundary = mesh::boundary(mesh);
        with(a[0], [&]<class C>(const geometry::coordinate_system_t<C> & sys) {
            with_manifold(boundary, sys, { n }, [&](const auto & manifold) {
                e.put("value", exact(integrate(manifold, polynomial<C>(f), a[2])));
            });
        });
    }
}

static void run_case(const vf::Case & c)
{
    auto cartesian = geometry::coordinate_system<cartesian_t>();
    auto curvilinear = geometry::coordinate_system<curvilinear_t>();
    auto mesh = mesh::mesh<cell_t>();
    std::vector<node_t> nodes;
    for (const auto & line : c.ops) {
        auto w = vf::words(line);
        std::vector<int> a;
        for (size_t i = 1; i < w.size(); ++i)
            a.push_back(vf::num(w[i]));
        vf::Event e;
        e.put("op", w[0]).put("a", a);
        const auto & o = w[0];
        auto vectors = [&](size_t at, int n) {
            std::vector<vec> r;
            for (int k = 0; k < n; ++k) {
                vec v;
                for (int i = 0; i < D; ++i)
                    v[i] = a[at + k * D + i];
                r.push_back(v);
            }
            return r;
        };
        auto affines = [&](size_t at, int n) {
            std::vector<std::array<double, D + 1>> r(n);
            for (int k = 0; k < n; ++k)
                for (int i = 0; i <= D; ++i)
                    r[k][i] = a[at + k * (D + 1) + i];
            return r;
        };
        auto with = [&](int kind, auto f) {
            if (kind == 0)
                f(cartesian);
            else
                f(curvilinear);
        };
        if (o == "node") {
            const vec x = vectors(0, 1)[0];
            nodes.push_back(geometry::node(cartesian, from_position<cartesian_t>(x)));
            if constexpr (D > 1)
                curvilinear.place(nodes.back()->point(), from_position<curvilinear_t>(x));
        } else if (o == "cell") {
            [&]<int... I>(tensor::integer_sequence<I...>) {
                mesh.insert({ nodes[a[I] - 1]... });
            }(tensor::make_integer_sequence<N + 1>{});
        } else if (o == "volume") {
            const auto n = vectors(2, D - N);
            with(a[0], [&]<class C>(geometry::coordinate_system_t<C> & sys) {
                auto told_all = [&](const auto & manifold) {
                    e.put("all", exact(manifold.volume()));
                    std::string s = "[";
                    for (const auto & cell : manifold.elements())
                        s += (s.size() > 1 ? "," : "") + js(exact(manifold.volume(cell)));
                    e.raw("each", s + "]");
                    // the corners are where the coordinate system has them
                    int corners = 0;
                    for (const auto & cell : manifold.elements())
                        for (const auto & node : cell.nodes()) {
                            const auto & x = manifold.coordinates(node);
                            const auto & y = sys.coordinates(node->point());
                            bool same = true;
                            for (int i = 0; i < D; ++i)
                                same = same && x[i] == y[i];
                            corners += same;
                        }
                    e.put("corners", corners).put("n", manifold.nElements());
                };
                if (a[1] == 0)
                    with_manifold(mesh, sys, n, told_all);
                else {
                    auto refined = mesh::tetra(mesh, sys, a[1]);
                    with_manifold(refined, sys, n, told_all);
                }
            });
        } else if (o == "integral") {
            int r = a[1];
            const auto n = vectors(2, D - N);
            const auto f = affines(2 + (D - N) * D, r);
            with(a[0], [&]<class C>(const geometry::coordinate_system_t<C> & sys) {
                with_manifold(mesh, sys, n, [&](const auto & manifold) {
                    e.put("value", exact(integrate(manifold, polynomial<C>(f), r)));
                });
            });
        } else if (o == "flux") {
            flux(e, mesh, a, affines(3, a[2]), with);
        }
        e.emit();
    }
}

int main() { return vf::run(run_case, 20, 120); }
