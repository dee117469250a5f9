// Finite elements (P26, P27, P29), against Fem.tla
#include <mito/mesh.h>
#include <mito/manifolds.h>
#include <mito/quadrature.h>
#include <mito/discrete.h>
#include <mito/constraints.h>
#include <mito/fem.h>
#include <mito/solvers.h>
#include <map>
#include "coords.h"

#ifndef DEGREE
#define DEGREE 1
#endif
constexpr int N = D;
constexpr int K = DEGREE;
constexpr int exactness = N == 1 ? 2 : 4;
using cell_t = geometry::geometric_simplex_t<N, D>;
using facet_t = geometry::geometric_simplex_t<N - 1, D>;
using node_t = geometry::node_t<D>;
using element_t = fem::isoparametric_simplex_t<K, cell_t>;
using rule_t = quadrature::quadrature_rule_t<quadrature::GAUSS, typename cell_t::reference_simplex_type, exactness>;
using dnode_t = discrete::discretization_node_t;
constexpr int NN = element_t::n_nodes;
using parametric_t = typename element_t::parametric_coordinates_type;

static long fine(double v)
{
    v *= 1048576;
    return std::isfinite(v) && std::abs(v) < 2.1e9 ? std::lround(v) : 2147483647;
}

// what the library assembles goes here; the solution is 1, 2, 3...
struct System {
    static inline System * last = nullptr;
    int n = -1;
    std::vector<double> matrix, rhs, sol;
    System(const std::string &) { last = this; }
    void create(int size)
    {
        n = size;
        matrix.assign(n * n, 0);
        rhs.assign(n, 0);
        sol.assign(n, 0);
    }
    void solve()
    {
        for (int i = 0; i < n; ++i)
            sol[i] = i + 1;
    }
    int n_equations() const { return n; }
    void add_matrix_value(int i, int j, double v) { matrix.at(i * n + j) += v; }
    void add_rhs_value(int i, double v) { rhs.at(i) += v; }
    template <class V>
    void get_solution(V & u) const
    {
        for (int i = 0; i < n; ++i)
            u[i] = sol.at(i);
    }
};
// and is solved by this, which is too late where it has been read
struct Solver {
    System & system;
    bool made = false;
    Solver(System & x) : system(x) {}
    void create() { made = true; }
    void destroy() { made = false; }
    void solve()
    {
        if (made)
            system.solve();
    }
};

// the domain of a constraint: a mesh of facets, or a set of nodes of the line
template <class facet_t = ::facet_t>
static auto domain(const std::vector<node_t> & nodes, const std::vector<std::vector<int>> & fixed)
{
    if constexpr (facet_t::order == 0) {
        std::unordered_set<node_t, utilities::hash_function<node_t>> set;
        for (const auto & f : fixed)
            set.insert(nodes[f[0] - 1]);
        return set;
    } else {
        auto mesh = mesh::mesh<facet_t>();
        for (const auto & f : fixed)
            mesh.insert({ nodes[f[0] - 1], nodes[f[1] - 1] });
        return mesh;
    }
}

static auto affine(const std::array<double, D + 1> & a)
{
    if constexpr (D == 1)
        return a[0] + a[1] * functions::component<cartesian_t, 0>;
    else
        return a[0] + a[1] * functions::component<cartesian_t, 0> + a[2] * functions::component<cartesian_t, 1>;
}
// a polynomial, product of a few affine functions
template <class F>
static void polynomial(const std::vector<std::array<double, D + 1>> & f, F with)
{
    if (f.size() == 1)
        with(affine(f[0]));
    else if (f.size() == 2)
        with(affine(f[0]) * affine(f[1]));
    else if (f.size() == 3)
        with(affine(f[0]) * affine(f[1]) * affine(f[2]));
}

static void run_case(const vf::Case & c)
{
    auto sys = geometry::coordinate_system<cartesian_t>();
    auto mesh = mesh::mesh<cell_t>();
    std::vector<node_t> nodes;
    std::vector<std::vector<int>> fixed;
    for (const auto & line : c.ops) {
        auto w = vf::words(line);
        std::vector<int> a;
        for (size_t i = 1; i < w.size(); ++i)
            a.push_back(vf::num(w[i]));
        vf::Event e;
        e.put("op", w[0]).put("a", a);
        const auto & o = w[0];
        auto affines = [&](size_t at, int n) {
            std::vector<std::array<double, D + 1>> r(n < 0 ? 0 : n);
            for (int k = 0; k < n; ++k)
                for (int i = 0; i <= D; ++i)
                    r[k][i] = a.at(at + k * (D + 1) + i);
            return r;
        };
        // the function space constrained somewhere, and the numbers of its nodes
        auto space = [&](bool whole, auto f) {
            auto manifold = manifolds::manifold(mesh, sys);
            auto zero = functions::zero<cartesian_t>;
            auto go = [&](const auto & where) {
                auto constraint = constraints::dirichlet_bc(where, zero);
                auto fs = fem::function_space<element_t>(manifold, constraint);
                std::vector<dnode_t> ids;
                auto id = [&](const dnode_t & n) {
                    for (size_t i = 0; i < ids.size(); ++i)
                        if (ids[i] == n)
                            return (int) i + 1;
                    ids.push_back(n);
                    return (int) ids.size();
                };
                for (const auto & element : fs.elements())
                    for (const auto & n : element.connectivity())
                        id(n);
                f(fs, ids, id);
            };
            if (whole)
                go(mesh::boundary(mesh));
            else
                go(domain(nodes, fixed));
        };
        if (o == "node") {
            vec x;
            for (int i = 0; i < D; ++i)
                x[i] = a[i];
            nodes.push_back(geometry::node(sys, cartesian_t(x)));
        } else if (o == "cell") {
            [&]<int... I>(tensor::integer_sequence<I...>) {
                mesh.insert({ nodes[a[I] - 1]... });
            }(tensor::make_integer_sequence<N + 1>{});
        } else if (o == "fix") {
            fixed.push_back(a);
        } else if (o == "space") {
            space(a[0], [&](const auto & fs, auto & ids, auto id) {
                std::string s = "[";
                for (const auto & element : fs.elements()) {
                    std::vector<int> n;
                    for (const auto & x : element.connectivity())
                        n.push_back(id(x));
                    s += (s.size() > 1 ? "," : "") + vf::Event::val(n);
                }
                e.raw("connectivity", s + "]");
                std::vector<int> constrained;
                for (const auto & n : fs.constrained_nodes())
                    constrained.push_back(id(n));
                e.put("constrained", constrained);
                s = "[";
                for (const auto & [node, n] : fs.node_map()) {
                    int at = 0;
                    for (size_t i = 0; i < nodes.size(); ++i)
                        if (nodes[i] == node)
                            at = i + 1;
                    s += (s.size() > 1 ? "," : "") + vf::Event::val(std::vector<int>{ at, id(n) });
                }
                e.raw("map", s + "]");
                std::set<dnode_t> all;
                fem::get_discretization_nodes(fs, all);
                for (const auto & n : all)
                    id(n);
                e.put("nodes", all.size() == ids.size() ? (int) ids.size() : -1);
            });
        } else if (o == "system") {
            space(a[0], [&](const auto & fs, auto & ids, auto id) {
                auto weakform = fem::weakform<element_t>();
                auto mass = fem::blocks::mass_block<element_t, rule_t>();
                auto stiff = fem::blocks::grad_grad_block<element_t, rule_t>();
                for (int i = 0; i < a[1]; ++i)
                    weakform.add_block(mass);
                for (int i = 0; i < a[2]; ++i)
                    weakform.add_block(stiff);
                auto go = [&] {
                    auto system = fem::discrete_system<System>("system", fs, weakform);
                    if (c.id % 2) {
                        system.assemble();
                        system.linear_system().solve();
                        system.read_solution();
                    } else {
                        auto solver = solvers::linear_solver<Solver>(system);
                        solver.solve();
                        solver.destroy();
                    }
                    const auto & linear = system.linear_system();
                    std::vector<int> eq;
                    for (const auto & n : ids)
                        eq.push_back(std::lround(system.solution()(n)));
                    e.put("n", system.n_equations() == linear.n ? linear.n : -1).put("equations", eq);
                    std::string s = "[";
                    for (int i = 0; i < linear.n; ++i) {
                        std::vector<long> row;
                        for (int j = 0; j < linear.n; ++j)
                            row.push_back(fine(linear.matrix[i * linear.n + j]));
                        s += (i ? "," : "") + vf::Event::val(row);
                    }
                    e.raw("matrix", s + "]");
                    std::vector<long> rhs;
                    for (double v : linear.rhs)
                        rhs.push_back(fine(v));
                    e.put("rhs", rhs);
                };
                auto one = fem::blocks::source_term_block<element_t, rule_t>(functions::one<cartesian_t>);
                if (a[3] == 0) {
                    for (int i = 0; i < a[4]; ++i)
                        weakform.add_block(one);
                    go();
                } else
                    polynomial(affines(5, a[3]), [&](const auto & f) {
                        auto source = fem::blocks::source_term_block<element_t, rule_t>(f);
                        // (the blocks of one before and after)
                        for (int i = 0; i < a[4] / 2; ++i)
                            weakform.add_block(one);
                        weakform.add_block(source);
                        for (int i = a[4] / 2; i < a[4]; ++i)
                            weakform.add_block(one);
                        go();
                    });
            });
        } else if (o == "field") {
            space(false, [&](const auto & fs, auto & ids, auto id) {
                auto field = fs.template fem_field<tensor::scalar_t>("u");
                for (size_t i = 0; i < ids.size(); ++i)
                    field(ids[i]) = a.at(N + 1 + i);
                // parametric coordinates of the barycentric coordinates
                parametric_t xi;
                if constexpr (N == 1)
                    xi = parametric_t(a[1] / 4.);
                else
                    xi = parametric_t(a[0] / 4., a[1] / 4.);
                std::vector<long> values, jacobians;
                std::string places = "[", gradients = "[";
                for (const auto & element : fs.elements()) {
                    values.push_back(fine(fem::localize(field, element)(xi)));
                    jacobians.push_back(fine(tensor::determinant(element.jacobian()(xi))));
                    const auto x = element.parametrization()(xi);
                    vec g;
                    [&]<int... I>(tensor::integer_sequence<I...>) {
                        g = ((element.template gradient<I>()(xi) * field(element.connectivity()[I])) + ...);
                    }(tensor::make_integer_sequence<NN>{});
                    std::vector<long> px, pg;
                    for (int i = 0; i < D; ++i) {
                        px.push_back(fine(x[i]));
                        pg.push_back(fine(g[i]));
                    }
                    places += (places.size() > 1 ? "," : "") + vf::Event::val(px);
                    gradients += (gradients.size() > 1 ? "," : "") + vf::Event::val(pg);
                }
                e.put("values", values).put("jacobians", jacobians).raw("places", places + "]").raw("gradients", gradients + "]");
            });
        } else if (o == "norm") {
            space(false, [&](const auto & fs, auto & ids, auto id) {
                auto fill = [&](auto & field, int at) {
                    for (size_t i = 0; i < ids.size(); ++i)
                        field(ids[i]) = a.at(at + i);
                };
                auto u = fs.template fem_field<tensor::scalar_t>("u");
                fill(u, 2);
                auto told = [&](const auto & v) {
                    double n = a[0] ? fem::compute_h1_norm<rule_t>(fs, u, v) : fem::compute_l2_norm<rule_t>(fs, u, v);
                    e.put("square", fine(n * n));
                };
                if (a[1] < 0) {
                    auto v = fs.template fem_field<tensor::scalar_t>("v");
                    fill(v, 2 + ids.size());
                    told(v);
                } else
                    polynomial(affines(2 + ids.size(), a[1]), told);
            });
        }
        e.emit();
    }
}

int main() { return vf::run(run_case, 20, 120); }
