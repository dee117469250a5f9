// Points, coordinate systems and metric spaces (P21, P22), against Space.tla
#include "coords.h"

struct System {
    virtual ~System() = default;
    virtual void place(const point_type &, const vec &) = 0;
    virtual std::unique_ptr<System> change() const = 0;
    virtual void shift(const point_type & p, const point_type & q, const vec & v) = 0;
    virtual void middle(const point_type & p, const point_type & q, const point_type & m) = 0;
    virtual void dump(vf::Event &, const std::vector<point_type> &) const = 0;
    virtual void difference(vf::Event &, const point_type & p, const point_type & q) const = 0;
    virtual void cell(vf::Event &, const std::vector<point_type> &, const std::vector<double> &) const = 0;
    virtual void metric(vf::Event &, const point_type & p, const vec &, const vec &, const vec &, const vec &) const = 0;
};

template <class C>
struct SystemOf : System {
    using other_t = std::conditional_t<curved<C>, cartesian_t, curvilinear_t>;
    geometry::coordinate_system_t<C> sys;
    SystemOf() : sys(geometry::coordinate_system<C>()) {}
    template <class X>
    SystemOf(const geometry::coordinate_system_t<X> & x) : sys(geometry::coordinate_system<C>(x))
    {}
    void place(const point_type & p, const vec & x) override { sys.place(p, from_position<C>(x)); }
    std::unique_ptr<System> change() const override
    {
        if constexpr (D == 1)
            return {};
        else
            return std::make_unique<SystemOf<other_t>>(sys);
    }
    void shift(const point_type & p, const point_type & q, const vec & v) override
    {
        auto a = sys.coordinates(p);
        auto w = components(a, v);
        if (v[0] > 0) {
            // the other spelling
            a += w;
            sys.place(q, a);
        } else
            sys.place(q, a + w);
    }
    void middle(const point_type & p, const point_type & q, const point_type & m) override
    {
        sys.place(m, sys.midpoint(p, q));
    }
    void dump(vf::Event & e, const std::vector<point_type> & points) const override
    {
        std::vector<std::vector<long>> at(points.size(), std::vector<long>(D + 1));
        long n = 0;
        bool ok = true;
        for (const auto & [point, coord] : sys) {
            ++n;
            for (size_t i = 0; i < points.size(); ++i)
                if (points[i] == point) {
                    const auto & c = sys.coordinates(points[i]);
                    ok = ok && canonical(c) && c == coord && !(c < coord) && !(coord < c);
                    at[i] = told(position(c));
                    at[i].insert(at[i].begin(), 1);
                }
        }
        e.put("n", n).put("canonical", ok);
        e.raw("at", list(at.size(), [&](int i) { return js(at[i]); }));
    }
    void difference(vf::Event & e, const point_type & p, const point_type & q) const override
    {
        const auto & a = sys.coordinates(p);
        const auto & b = sys.coordinates(q);
        const vec v = b - a;
        e.put("vector", told(vector_of(a, v)));
        auto d = geometry::distance(p, q, sys), r = geometry::distance(b, a);
        e.put("distance2", told(d * d)).put("reverse2", told(r * r));
        e.put("there", told(position(a + v)));
        e.put("middle", told(position(sys.midpoint(p, q))));
    }
    template <int N>
    void cell_of(vf::Event & e, const std::vector<point_type> & c, const std::vector<double> & b) const
    {
        using cell_t = geometry::geometric_simplex_t<N, D>;
        auto nodes = [&]<int... I>(tensor::integer_sequence<I...>) {
            return typename cell_t::nodes_type{ geometry::node_t<D>(topology::vertex(), c[I])... };
        }(tensor::make_integer_sequence<N + 1>{});
        const cell_t cell(nodes);
        e.put("barycenter", told(position(geometry::barycenter(cell, sys))));
        auto [base, directors] = geometry::directors(cell, sys);
        e.put("base", told(position(base)));
        e.raw("directors", list(N, [&](int i) { return js(told(vector_of(base, directors[i]))); }));
        auto parametrization = cell.parametrization(sys);
        typename cell_t::parametric_coordinates_type xi = [&]<int... I>(tensor::integer_sequence<I...>) {
            return typename cell_t::parametric_coordinates_type(b[I]...);
        }(tensor::make_integer_sequence<N>{});
        e.put("point", told(position(sys.origin() + parametrization(xi))));
    }
    void cell(vf::Event & e, const std::vector<point_type> & c, const std::vector<double> & b) const override
    {
        if (c.size() == 2)
            cell_of<1>(e, c, b);
        if constexpr (D > 1)
            if (c.size() == 3)
                cell_of<2>(e, c, b);
        if constexpr (D > 2)
            if (c.size() == 4)
                cell_of<3>(e, c, b);
    }
    void metric(vf::Event & e, const point_type & p, const vec & u, const vec & v, const vec & w, const vec & a) const override
    {
        using space = geometry::metric_space<C>;
        using seq = tensor::make_integer_sequence<D>;
        constexpr int N = C::dim;
        const C x = sys.coordinates(p);
        const auto basis = []<int... I>(const C & x, tensor::integer_sequence<I...>) {
            return std::array<vec, D>{ vec(space::template e<I>(x))... };
        }(x, seq{});
        std::array<vec, D> named = basis;
        std::array<double, D> component;
        double lengths[3] = { 1, 1, 1 }, h2[3] = { 1, 1, 1 };
        if constexpr (!curved<C>) {
            named[0] = geometry::cartesian::e_0<N>(x);
            component[0] = geometry::cartesian::x_0<N>(x);
            if constexpr (D > 1) {
                named[1] = geometry::cartesian::e_1<N>(x);
                component[1] = geometry::cartesian::x_1<N>(x);
            }
            if constexpr (D > 2) {
                named[2] = geometry::cartesian::e_2<N>(x);
                component[2] = geometry::cartesian::x_2<N>(x);
            }
        } else if constexpr (D == 2) {
            lengths[0] = x[0];
            h2[1] = x[0] * x[0];
            named = { geometry::polar::e_r(x), geometry::polar::e_theta(x) };
            component = { geometry::polar::r(x), geometry::polar::theta(x) };
        } else {
            double rho = x[0] * std::sin(x[1]);
            lengths[0] = x[0];
            lengths[1] = rho;
            h2[1] = x[0] * x[0];
            h2[2] = rho * rho;
            named = { geometry::spherical::e_r(x), geometry::spherical::e_theta(x), geometry::spherical::e_phi(x) };
            component = { geometry::spherical::r(x), geometry::spherical::theta(x), geometry::spherical::phi(x) };
        }
        bool same = true;
        for (int i = 0; i < D; ++i)
            for (int j = 0; j < D; ++j)
                same = same && named[i][j] == basis[i][j];
        e.raw("e", list(D, [&](int i) {
                  vec b = (same ? lengths[i] : 12345) * basis[i];
                  return js(told(vector_of(x, b)));
              }));
        e.raw("x", list(D, [&](int i) { return std::to_string(told(component[i])); }));
        e.raw("y", list(D, [&](int i) { return std::to_string(told(x[i])); }));
        const auto g = space::g(x);
        const auto gi = space::g_inv(x);
        tensor::matrix_t<D> G, GI;
        for (int i = 0; i < D; ++i)
            for (int j = 0; j < D; ++j) {
                G[{ i, j }] = g[{ i, j }];
                GI[{ i, j }] = gi[{ i, j }];
            }
        e.raw("g", list(D, [&](int i) { return list(D, [&](int j) { return std::to_string(told(G[{ i, j }])); }); }));
        e.raw("gg", list(D, [&](int i) {
                  return list(D, [&](int j) {
                      double s = 0;
                      for (int k = 0; k < D; ++k)
                          s += G[{ i, k }] * GI[{ k, j }];
                      return std::to_string(told(s));
                  });
              }));
        const vec U = components(x, u), V = components(x, v), W = components(x, w);
        std::array<std::array<double, D>, D> dxe;
        std::array<double, D> dxv;
        [&]<int... I>(tensor::integer_sequence<I...>) {
            ((dxv[I] = space::template dx<I>(x)(V) * lengths[I] * h2[I]), ...);
            for (int j = 0; j < D; ++j)
                ((dxe[I][j] = space::template dx<I>(x)(basis[j])), ...);
        }(seq{});
        e.raw("dxv", list(D, [&](int i) { return std::to_string(told(dxv[i])); }));
        e.raw("dxe", list(D, [&](int i) { return list(D, [&](int j) { return std::to_string(told(dxe[i][j])); }); }));
        if constexpr (D > 1) {
            const auto wedge = fields::wedge(space::template dx<0>, space::template dx<1>);
            const auto product = fields::tensor(space::template dx<1>, space::template dx<0>);
            e.raw("wedge", list(D, [&](int i) {
                      return list(D, [&](int j) { return std::to_string(told(wedge(x)(basis[i], basis[j]))); });
                  }));
            e.raw("tensor", list(D, [&](int i) {
                      return list(D, [&](int j) { return std::to_string(told(product(x)(basis[i], basis[j]))); });
                  }));
        }
        if constexpr (D > 2) {
            const auto product = fields::tensor(space::template dx<2>, space::template dx<0>, space::template dx<1>);
            const auto wedge = fields::wedge(space::template dx<1>, space::template dx<0>, space::template dx<2>);
            auto all = [&](const auto & form) {
                return list(D, [&](int i) {
                    return list(D, [&](int j) {
                        return list(D, [&](int k) { return std::to_string(told(form(x)(basis[i], basis[j], basis[k]))); });
                    });
                });
            };
            e.raw("tensor3", all(product));
            e.raw("wedge3", all(wedge));
        }
        double volume;
        if constexpr (D == 1)
            volume = space::w(x)(U);
        else if constexpr (D == 2)
            volume = space::w(x)(U, V);
        else
            volume = space::w(x)(U, V, W);
        e.put("w", told(volume));
        const auto flat = space::metric_equivalent(functions::constant<C>(U));
        e.put("flat", told(flat(x)(V)));
        e.put("sharp", told(vector_of(x, space::metric_equivalent(flat)(x))));
        // the vector equivalent to sum a_i dx_i has the products a_i with the basis
        const auto form = [&]<int... I>(tensor::integer_sequence<I...>) {
            return functions::function([a](const C & y) { return ((a[I] * space::template dx<I>(y)) + ...); });
        }(seq{});
        const vec s = space::metric_equivalent(form)(x);
        e.raw("combination", list(D, [&](int i) { return std::to_string(told(s * basis[i])); }));
    }
};

// by how many the cloud of points grew, the points it has in use, and how often these are ours
static std::vector<long> cloud(long before, const std::vector<point_type> & points)
{
    const auto & all = geometry::point_cloud<D>();
    long n = 0, ours = 0;
    for (auto it = all.begin(); it != all.end(); ++it) {
        ++n;
        for (const auto & p : points)
            ours += (*it).id() == p.id() && *it == p;
    }
    return { all.size() - before, n, ours };
}

static void run_case(const vf::Case & c)
{
    const long before = geometry::point_cloud<D>().size();
    std::vector<std::unique_ptr<System>> systems;
    std::vector<point_type> points;
    auto make = [&]() -> point_type & {
        points.push_back(geometry::point_cloud<D>().point());
        return points.back();
    };
    for (const auto & line : c.ops) {
        auto w = vf::words(line);
        std::vector<int> a;
        for (size_t i = 1; i < w.size(); ++i)
            a.push_back(vf::num(w[i]));
        vf::Event e;
        e.put("op", w[0]).put("a", a);
        auto vector_at = [&](size_t at, double unit = 1) {
            vec v;
            for (int i = 0; i < D; ++i)
                v[i] = a[at + i] * unit;
            return v;
        };
        const auto & o = w[0];
        auto point = [&](int i) -> const point_type & { return points[a[i] - 1]; };
        if (o == "new") {
            if (a[0] == 0)
                systems.push_back(std::make_unique<SystemOf<cartesian_t>>());
            else
                systems.push_back(std::make_unique<SystemOf<curvilinear_t>>());
            systems.back()->dump(e, points);
            e.emit();
            continue;
        }
        auto & s = *systems[a[0] - 1];
        if (o == "place") {
            s.place(make(), vector_at(1, 0.25));
            s.dump(e, points);
        } else if (o == "also") {
            s.place(point(1), vector_at(2, 0.25));
            s.dump(e, points);
        } else if (o == "change") {
            systems.push_back(s.change());
            systems.back()->dump(e, points);
        } else if (o == "shift") {
            auto q = make();
            s.shift(point(1), q, vector_at(2));
            s.dump(e, points);
        } else if (o == "mid") {
            auto m = make();
            s.middle(point(1), point(2), m);
            s.dump(e, points);
        } else if (o == "diff") {
            s.difference(e, point(1), point(2));
        } else if (o == "cell") {
            int n = a[1];
            std::vector<point_type> nodes;
            for (int i = 0; i < n; ++i)
                nodes.push_back(point(2 + i));
            std::vector<double> b;
            for (int i = 0; i < n - 1; ++i)
                b.push_back(a[2 + n + i] * 0.25);
            s.cell(e, nodes, b);
        } else if (o == "metric") {
            s.metric(e, point(1), vector_at(2), vector_at(2 + D), vector_at(2 + 2 * D), vector_at(2 + 3 * D));
        }
        e.put("cloud", cloud(before, points));
        e.emit();
    }
}

int main() { return vf::run(run_case, 20, 120); }
