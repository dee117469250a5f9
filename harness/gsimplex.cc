// geometric simplices: nodes, orientation, faces, flips
#include <mito/geometry.h>
#include <cmath>
#include <map>
#include <optional>
#include "vf.h"

#ifndef CELL_D
#define CELL_D 2
#endif
constexpr int D = CELL_D;
constexpr int H = 5;

using namespace mito;
using coordinates_t = geometry::coordinates_t<D, geometry::CARTESIAN>;
using node_type = geometry::node_t<D>;
using point_type = geometry::point_t<D>;
template <int N>
using cell = geometry::geometric_simplex_t<N, D>;

static std::vector<topology::vertex_t> vertices;
static std::vector<point_type> points;
static std::vector<node_type> nodes;

template <class T>
static int index(const std::vector<T> & all, const T & x)
{
    for (size_t i = 0; i < all.size(); ++i)
        if (all[i] == x)
            return i + 1;
    return -1;
}

static coordinates_t where(long p)
{
    return [&]<int... I>(tensor::integer_sequence<I...>) {
        return coordinates_t{ 60.0
                              * ((p * p * (I + 2) + (I + 1) * p + (I + 1) * (I + 1)) % 11 - 5)... };
    }(tensor::make_integer_sequence<D>{});
}

static std::vector<int> ints(const auto & x, double scale)
{
    std::vector<int> r;
    for (int d = 0; d < D; ++d) {
        double y = scale * x[d];
        r.push_back(std::abs(y) < 1e9 && std::abs(y - std::round(y)) < 1e-6 ? std::lround(y) : 999999999);
    }
    return r;
}

struct Handle {
    std::optional<node_type> h0;
    std::optional<cell<1>> h1;
    std::optional<cell<(D > 1 ? 2 : 1)>> h2;
    std::optional<cell<(D > 2 ? 3 : 1)>> h3;
    template <int N>
    auto & get()
    {
        if constexpr (N == 0)
            return h0;
        else if constexpr (N == 1)
            return h1;
        else if constexpr (N == 2)
            return h2;
        else
            return h3;
    }
    void clear()
    {
        h0.reset();
        h1.reset();
        h2.reset();
        h3.reset();
    }
    template <int N>
    void set(const auto & s)
    {
        auto keep = s;
        // a cell already there is assigned to
        if (get<N>())
            *get<N>() = keep;
        else {
            clear();
            get<N>().emplace(keep);
        }
    }
    template <class F>
    void with(F f)
    {
        auto one = [&]<int N>(std::integral_constant<int, N> n) {
            if constexpr (N <= D)
                if (get<N>())
                    f(*get<N>(), n);
        };
        one(std::integral_constant<int, 0>{});
        one(std::integral_constant<int, 1>{});
        one(std::integral_constant<int, 2>{});
        one(std::integral_constant<int, 3>{});
    }
};

template <int N>
static std::string observe(const cell<N> & x, const auto & system, int id)
{
    std::vector<int> ns, vs;
    for (const auto & n : x.nodes())
        ns.push_back(index(nodes, n));
    for (const auto & v : x.simplex()->vertices())
        vs.push_back(index(vertices, v));
    std::string s = "{\"null\":false,\"n\":" + vf::Event::val(ns) + ",\"vs\":" + vf::Event::val(vs)
                  + ",\"id\":" + std::to_string(id);
    auto bary = geometry::barycenter(x, system);
    s += ",\"bary\":" + vf::Event::val(ints(bary, N + 1));
    auto [at, dir] = geometry::directors(x, system);
    s += ",\"at\":" + vf::Event::val(ints(at, 1)) + ",\"dir\":[";
    for (size_t i = 0; i < dir.size(); ++i)
        s += (i ? "," : "") + vf::Event::val(ints(dir[i], 1));
    s += "],\"par\":[";
    // the position with given weights of the nodes
    auto map = x.parametrization(system);
    std::vector<std::array<int, 4>> weights{ { 4, 0, 0, 0 }, { 0, 4, 0, 0 }, { 1, 3, 0, 0 } };
    if (N > 1) {
        weights.push_back({ 0, 0, 4, 0 });
        weights.push_back({ 1, 1, 2, 0 });
    }
    if (N > 2) {
        weights.push_back({ 0, 0, 0, 4 });
        weights.push_back({ 1, 1, 1, 1 });
        weights.push_back({ 3, 2, 1, -2 });
    }
    for (size_t i = 0; i < weights.size(); ++i) {
        auto xi = [&]<int... I>(tensor::integer_sequence<I...>) {
            return typename cell<N>::parametric_coordinates_type{ 0.25 * weights[i][I]... };
        }(tensor::make_integer_sequence<N>{});
        auto y = map(xi);
        auto yy = ints(y, 4);
        s += std::string(i ? "," : "") + "{\"w\":"
           + vf::Event::val(std::vector<int>(weights[i].begin(), weights[i].begin() + N + 1))
           + ",\"x\":" + vf::Event::val(yy) + "}";
    }
    return s + "]}";
}

static void run_case(const vf::Case & c)
{
    auto & cloud = geometry::point_cloud<D>();
    geometry::coordinate_system_t<coordinates_t> system;
    vertices.clear();
    points.clear();
    nodes.clear();
    std::vector<Handle> h(H);

    for (const auto & op : c.ops) {
        auto w = vf::words(op);
        std::vector<int> a;
        for (size_t i = 1; i < w.size(); ++i)
            a.push_back(vf::num(w[i]));
        vf::Event e;
        e.put("op", w[0]).put("a", a);
        auto hd = [&](int i) -> Handle & { return h[a[i] - 1]; };
        // call f with the order n as a constant
        auto order = [&](int n, auto f) {
            if (n == 1)
                f(std::integral_constant<int, 1>{});
            if constexpr (D > 1)
                if (n == 2)
                    f(std::integral_constant<int, 2>{});
            if constexpr (D > 2)
                if (n == 3)
                    f(std::integral_constant<int, 3>{});
        };
        auto nodes_at = [&]<int N>(std::integral_constant<int, N>, int from) {
            return [&]<int... J>(tensor::integer_sequence<J...>) ->
                typename cell<N>::nodes_type { return { nodes[a[from + J] - 1]... }; }(
                    tensor::make_integer_sequence<N + 1>{});
        };
        auto new_point = [&]() {
            points.push_back(cloud.point());
            system.place(points.back(), where(points.size()));
        };
        if (w[0] == "node") {
            if (a[0] > static_cast<int>(vertices.size()))
                vertices.push_back(topology::vertex());
            if (a[1] > static_cast<int>(points.size()))
                new_point();
            nodes.push_back(node_type(vertices[a[0] - 1], points[a[1] - 1]));
        } else if (w[0] == "place") {
            nodes.push_back(geometry::node(system, where(points.size() + 1)));
            vertices.push_back(nodes.back()->vertex());
            points.push_back(nodes.back()->point());
        } else if (w[0] == "point") {
            new_point();
        } else if (w[0] == "mk") {
            order(a[1], [&](auto n) {
                auto q = nodes_at(n, 2);
                if (c.id % 2)
                    hd(0).template set<n>(cell<n>(q));
                else if constexpr (n == 1)
                    hd(0).template set<1>(geometry::segment<D>(std::move(q)));
                else if constexpr (n == 2)
                    hd(0).template set<2>(geometry::triangle<D>(std::move(q)));
                else
                    hd(0).template set<3>(geometry::tetrahedron<D>(std::move(q)));
            });
        } else if (w[0] == "on") {
            order(a[1], [&](auto n) {
                auto q = nodes_at(n, 2);
                auto s = [&]<int... J>(tensor::integer_sequence<J...>) {
                    return topology::topology().simplex<n>({ q[a[3 + n + J] - 1]->vertex()... });
                }(tensor::make_integer_sequence<n + 1>{});
                hd(0).template set<n>(cell<n>(s, q));
            });
        } else if (w[0] == "re") {
            Handle from = hd(1);
            from.with([&](auto & x, auto n) {
                if constexpr (n > 0)
                    hd(0).template set<n>(cell<n>(x.simplex(), nodes_at(n, 2)));
            });
        } else if (w[0] == "flip") {
            Handle from = hd(1);
            from.with([&](auto & x, auto n) {
                if constexpr (n > 0)
                    hd(0).template set<n>(geometry::flip(x));
            });
        } else if (w[0] == "face") {
            Handle from = hd(1);
            from.with([&](auto & x, auto n) {
                if constexpr (n > 0)
                    for (const auto & f : x.simplex()->composition()) {
                        bool opposite = true;
                        if constexpr (n == 1)
                            opposite = !(f->footprint() == vertices[a[2] - 1]);
                        else
                            for (const auto & v : f->vertices())
                                opposite = opposite && !(v == vertices[a[2] - 1]);
                        if (opposite) {
                            auto y = geometry::geometric_simplex<D>(f, x.nodes());
                            hd(0).template set<n - 1>(y);
                            break;
                        }
                    }
            });
        } else if (w[0] == "copy") {
            Handle from = hd(1);
            if (a[0] != a[1])
                hd(0).clear();
            from.with([&](auto & x, auto n) { hd(0).template set<n>(x); });
        } else if (w[0] == "drop") {
            hd(0).clear();
        } else if (w[0] == "diag") {
            [&]<int E>(std::integral_constant<int, E>) {
                if constexpr (E > 1) {
                    using triangle = geometry::geometric_simplex_t<2, E>;
                    triangle x = *hd(2).h2, y = *hd(3).h2;
                    auto r = geometry::flip_diagonal<E>({ x, y });
                    // the one with the first vertex of the old edge is bound to the first handle
                    auto has = [](const triangle & t, int v) {
                        for (const auto & u : t.simplex()->vertices())
                            if (index(vertices, u) == v)
                                return true;
                        return false;
                    };
                    int first = 1;
                    while (first < 100 && !(has(x, first) && has(y, first)))
                        ++first;
                    if (!has(r.first, first))
                        std::swap(r.first, r.second);
                    hd(0).template set<2>(r.first);
                    hd(1).template set<2>(r.second);
                }
            }(std::integral_constant<int, D>{});
        }

        std::string all = "[";
        for (int k = 0; k < H; ++k) {
            std::string s = "{\"null\":true}";
            h[k].with([&](auto & x, auto n) {
                if constexpr (n == 0)
                    s = "{\"null\":false,\"n\":" + vf::Event::val(std::vector<int>{ index(nodes, x) }) + "}";
                else {
                    int id = 0;
                    for (int j = H - 1; j >= 0; --j)
                        h[j].with([&](auto & y, auto m) {
                            if constexpr (m == n)
                                if (y.simplex() == x.simplex())
                                    id = j + 1;
                        });
                    s = observe<n>(x, system, id);
                }
            });
            all += (k ? "," : "") + s;
        }
        e.raw("h", all + "]");
        all = "[";
        for (size_t i = 0; i < nodes.size(); ++i)
            all += std::string(i ? "," : "")
                 + vf::Event::val(std::vector<int>{ index(vertices, nodes[i]->vertex()),
                                                    index(points, nodes[i]->point()) });
        e.raw("nodes", all + "]");
        std::vector<int> ps;
        for (const auto & p : cloud)
            ps.push_back(index(points, p));
        e.raw("cloud", "{\"size\":" + std::to_string(cloud.size()) + ",\"points\":" + vf::Event::val(ps) + "}");
        e.emit();
    }
}

int main() { return vf::run(run_case, 1, 120); }
