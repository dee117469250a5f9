// what meshes are put to: discrete fields, partitions, Summit files, and, with GRIDS, VTK grids
#ifdef GRIDS
#define WITH_VTK
#define WITH_PARALLEL_VTK
#include <mito/manifolds.h>
#include <mito/constraints.h>
#include <mito/fem.h>
#endif
#include <mito/mesh.h>
#include <mito/discrete.h>
#include <mito/io.h>
#include <cmath>
#include <filesystem>
#include <functional>
#include <fstream>
#include <map>
#include <optional>
#include <set>
#include "vf.h"

#ifndef CELL_N
#define CELL_N 2
#endif
#ifndef CELL_D
#define CELL_D CELL_N
#endif
constexpr int N = CELL_N;
constexpr int D = CELL_D;
constexpr int M = 2;
constexpr int F = 3;

using namespace mito;
#ifdef CURVED
using coordinates_t = geometry::coordinates_t<D, D == 3 ? geometry::SPHERICAL : D == 2 ? geometry::POLAR : geometry::CARTESIAN>;
#else
using coordinates_t = geometry::coordinates_t<D, geometry::CARTESIAN>;
#endif
using cell_t = geometry::geometric_simplex_t<N, D>;
using mesh_type = mesh::mesh_t<cell_t>;
using node_type = geometry::node_t<D>;
using value_t = tensor::vector_t<2>;
using on_mesh = discrete::mesh_field_t<D, value_t>;
using on_points = discrete::point_field_t<D, double>;
using on_cells = discrete::quadrature_field_t<cell_t::simplex_type, 2, int>;

static std::vector<node_type> nodes;
static std::vector<topology::vertex_t> vertices;
static std::vector<geometry::point_t<D>> points;

template <class T>
static int index(const std::vector<T> & all, const T & x)
{
    for (size_t i = 0; i < all.size(); ++i)
        if (all[i] == x)
            return i + 1;
    return -1;
}
static int whole(double y)
{
    return std::abs(y) < 1e9 && std::abs(y - std::round(y)) < 1e-6 ? std::lround(y) : 1999999999;
}
#ifndef FINE
#define FINE 0
#endif
static double coordinate(long s, long d)
{
    double coarse = d == 1 ? (7 * s) % 31 - 15 : (s * s * (d + 2) + 3 * s * d + d) % 17 - 8;
    return FINE ? (s % 5 ? 0.25 * coarse : 0) + (s * 7919 + d * 37) % 10007 / 1048576.0 : 0.25 * coarse;
}
template <class coordT>
static coordT somewhere(long s)
{
#ifdef CURVED
    if constexpr (coordT::dim == 2)
        return coordT{ std::hypot(coordinate(s, 1), coordinate(s, 2)), std::atan2(coordinate(s, 2), coordinate(s, 1)) };
    else if constexpr (coordT::dim == 3) {
        double x = coordinate(s, 1), y = coordinate(s, 2), z = coordinate(s, 3);
        return coordT{ std::sqrt(x * x + y * y + z * z), std::atan2(std::hypot(x, y), z), std::atan2(y, x) };
    } else
#endif
        return [&]<int... I>(tensor::integer_sequence<I...>) {
            return coordT{ coordinate(s, I + 1)... };
        }(tensor::make_integer_sequence<coordT::dim>{});
}
static coordinates_t where(long s) { return somewhere<coordinates_t>(s); }
// Cartesian coordinates
template <class coordT>
static auto place(const coordT & x) -> std::array<double, coordT::dim>
{
#ifdef CURVED
    if constexpr (coordT::dim == 2)
        return { x[0] * std::cos(x[1]), x[0] * std::sin(x[1]) };
    else if constexpr (coordT::dim == 3)
        return { x[0] * std::sin(x[1]) * std::cos(x[2]), x[0] * std::sin(x[1]) * std::sin(x[2]), x[0] * std::cos(x[1]) };
    else
#endif
        return [&]<int... I>(tensor::integer_sequence<I...>) -> std::array<double, coordT::dim> {
            return { x[I]... };
        }(tensor::make_integer_sequence<coordT::dim>{});
}

struct Field {
    std::optional<on_mesh> m;
    std::optional<on_points> p;
    std::optional<on_cells> c;
    void clear()
    {
        m.reset();
        p.reset();
        c.reset();
    }
};

// values as pairs of integers: a point has one number, standing for both
static std::vector<int> pair(const value_t & v) { return { whole(v[0]), whole(v[1]) }; }
static std::vector<int> pair(double v)
{
    int x = whole(v);
    return { x / 4096 - 2048, x % 4096 - 2048 };
}
static std::vector<int> pair(const std::array<int, 2> & v) { return { v[0], v[1] }; }
static double one(int a, int b) { return (a + 2048) * 4096.0 + b + 2048; }

template <class F1>
static std::string observe(const F1 & f, const char * kind, auto key)
{
    std::string s = std::string("{\"kind\":\"") + kind + "\",\"n\":" + std::to_string(f.size())
                  + ",\"name\":" + f.name() + ",\"e\":[";
    bool first = true;
    for (const auto & [k, v] : f) {
        bool same = pair(f(k)) == pair(v);
        s += std::string(first ? "" : ",") + "{\"k\":" + vf::Event::val(key(k))
           + ",\"v\":" + vf::Event::val(same ? pair(v) : std::vector<int>{}) + "}";
        first = false;
    }
    return s + "]}";
}
static std::vector<int> key_of(const cell_t::simplex_type & x)
{
    std::vector<int> r;
    for (const auto & v : x->vertices())
        r.push_back(index(vertices, v));
    return r;
}
template <class F1, class K>
static std::vector<int> ask(F1 & f, const K & k, bool constant)
{
    try {
        return constant ? pair(std::as_const(f)(k)) : pair(f(k));
    } catch (const std::out_of_range &) {
        return {};
    }
}

#ifndef GRIDS
// write the mesh in another layout that means the same: a reader of text sees words
static void rewrite(const std::string & name, int layout)
{
    if (layout == 0)
        return;
    std::ifstream in(name);
    std::stringstream all;
    all << in.rdbuf();
    in.close();
    std::string s = all.str();
    if (layout == 1) {
        for (auto & ch : s)
            if (ch == '\n')
                ch = ' ';
    } else if (layout == 2) {
        std::string t;
        for (auto ch : s)
            t += ch == '\n' ? std::string("\r\n\n  ") : std::string(1, ch);
        s = t;
    } else {
        std::string t;
        for (auto ch : s)
            t += ch == ' ' ? std::string("\t \t") : std::string(1, ch);
        s = t;
    }
    std::ofstream(name) << s;
}

template <io::summit::GalerkinMeshType G>
static void file(vf::Event & e, const mesh_type & mesh, const auto & system, const std::string & type, int layout)
{
    namespace fs = std::filesystem;
    std::string dir = "/tmp/vf_summit_XXXXXX";
    if (!::mkdtemp(dir.data()))
        ::_exit(98);
    std::string name = dir + "/mesh";
    io::summit::writer(name, mesh, system, type);
    rewrite(name + ".summit", layout);
    auto there = geometry::coordinate_system<coordinates_t>();
    int before = std::distance(there.begin(), there.end());
    bool ok = false;
    std::string cells = "[";
    std::set<const void *> ns, vs, ps;
    int count = 0;
    {
        std::ifstream in(name + ".summit");
        auto copy = io::summit::reader<cell_t, G>(in, there);
        ok = before == 0;
        count = copy.nCells();
        for (const auto & cell : copy.cells()) {
            cells += cells.size() > 1 ? ",[" : "[";
            bool first = true;
            for (const auto & n : cell.nodes()) {
                const auto & x = there.coordinates(n->point());
                std::vector<int> at;
                for (int d = 0; d < D; ++d)
                    at.push_back(whole((FINE ? 1048576 : 4) * x[d]));
                cells += (first ? "" : ",") + vf::Event::val(at);
                first = false;
                ns.insert(reinterpret_cast<const void *>(n.id()));
                vs.insert(reinterpret_cast<const void *>(n->vertex().id()));
                ps.insert(reinterpret_cast<const void *>(n->point().id()));
            }
            cells += "]";
        }
    }
    fs::remove_all(dir);
    e.put("read", ok).put("count", count).raw("cells", cells + "]");
    // the points of the file are those of the cells
    int all = std::distance(there.begin(), there.end());
    e.put("points", static_cast<int>(ps.size()) == all ? all : -1).put("vertices", vs.size()).put("nodes", ns.size());
}

#else
// something that writes grids
struct Grid {
    std::function<bool(const Field &, const std::string &)> record;
    // values a + b k at the node k
    std::function<void(const std::string &, int, int)> spread;
    std::function<void()> write;
    void clear() { record = nullptr, spread = nullptr, write = nullptr; }
};
constexpr int W = 2;
template <class F1>
static void record(auto & writer, F1 & f, const std::string & name)
{
    if (name == "")
        writer.record(f);
    else
        writer.record(f, name);
}
static void on_nodes(Grid & g, const mesh_type & mesh, auto writer)
{
    std::set<int> keys;
    for (const auto & x : mesh.cells())
        for (const auto & n : x.nodes())
            keys.insert(index(nodes, n));
    g.record = [writer](const Field & f, const std::string & name) { return f.m && (record(*writer, *f.m, name), true); };
    g.spread = [writer, keys](const std::string & name, int a, int b) {
        discrete::mesh_field_t<D, double> f(name);
        for (int k : keys)
            f.insert(nodes[k - 1], a + b * k);
        writer->record(f);
    };
    g.write = [writer] { writer->write(); };
}
static void on_cloud(Grid & g, auto writer)
{
    auto all = points;
    g.record = [writer](const Field & f, const std::string & name) { return f.p && (record(*writer, *f.p, name), true); };
    g.spread = [writer, all](const std::string & name, int a, int b) {
        discrete::point_field_t<D, double> f(name);
        for (size_t k = 0; k < all.size(); ++k)
            f.insert(all[k], a + b * (k + 1.0));
        writer->record(f);
    };
    g.write = [writer] { writer->write(); };
}
template <class space_t>
static void on_space(Grid & g, const space_t & space, auto & fem_field, const mesh_type & mesh, auto writer)
{
    using dnode_t = typename space_t::discretization_node_type;
    std::map<int, dnode_t> keys;
    for (const auto & x : mesh.cells())
        for (const auto & n : x.nodes())
            keys.insert({ index(nodes, n), space.node_map().at(n) });
    g.record = [](const Field &, const std::string &) { return false; };
    // the whole of a field on the discretization nodes, some of which may not be in the grid
    auto shared = std::make_shared<std::decay_t<decltype(fem_field)>>(std::move(fem_field));
    g.spread = [writer, keys, shared](const std::string & name, int a, int b) {
        auto & f = *shared;
        for (auto & [k, v] : f)
            v = -5;
        for (auto & [k, n] : keys)
            f(n) = a + b * k;
        writer->record(f.nodal_values(), name);
    };
    g.write = [writer] { writer->write(); };
}
// no constraints: a domain of them is a set of nodes or a mesh of facets
template <int K>
static auto nowhere()
{
    if constexpr (K == 1)
        return std::unordered_set<node_type, utilities::hash_function<node_type>>();
    else
        return mesh::mesh<geometry::geometric_simplex_t<K - 1, D>>();
}
template <class T, class F1>
static auto hold(F1 make)
{
    return std::shared_ptr<T>(new T(make()));
}
#define HOLD(expression) hold<decltype(expression)>([&] { return expression; })
static std::string written()
{
    std::string s = "[";
    for (const auto & f : vtkstandin::files()) {
        s += std::string(s.size() > 1 ? "," : "") + "{\"name\":\"" + f.name + "\",\"pieces\":" + vf::Event::val(f.pieces) + ",\"points\":[";
        for (size_t i = 0; i < f.points.size(); ++i) {
            std::vector<int> x;
            for (double y : f.points[i])
                x.push_back(whole(4 * y));
            s += (i ? "," : "") + vf::Event::val(x);
        }
        s += "],\"cells\":[";
        for (size_t i = 0; i < f.cells.size(); ++i) {
            std::vector<int> x{ f.cells[i].first };
            for (auto k : f.cells[i].second)
                x.push_back(k + 1);
            s += (i ? "," : "") + vf::Event::val(x);
        }
        s += "],\"arrays\":[";
        for (size_t i = 0; i < f.arrays.size(); ++i) {
            const auto & a = f.arrays[i];
            s += std::string(i ? "," : "") + "{\"name\":" + a.name + ",\"t\":[";
            for (size_t k = 0; k + a.components <= a.values.size(); k += a.components) {
                std::vector<int> x;
                for (int j = 0; j < a.components; ++j)
                    x.push_back(whole(a.values[k + j]));
                s += (k ? "," : "") + vf::Event::val(x);
            }
            s += "]}";
        }
        s += "]}";
    }
    return s + "]";
}
#endif

static void run_case(const vf::Case & c)
{
    geometry::coordinate_system_t<coordinates_t> system;
    nodes.clear();
    vertices.clear();
    points.clear();
    std::vector<mesh_type> mesh(M);
    std::vector<Field> f(F);
    std::map<int, cell_t *> cell;
    int nc = 0;
#ifdef GRIDS
    std::vector<Grid> grid(W);
    vtkstandin::misuses().clear();
#endif

    for (const auto & op : c.ops) {
        auto w = vf::words(op);
        std::vector<int> a;
        for (size_t i = 1; i < w.size(); ++i)
            a.push_back(vf::num(w[i]));
        vf::Event e;
        e.put("op", w[0]).put("a", a);
        auto fd = [&](int i) -> Field & { return f[a[i] - 1]; };
        auto m = [&](int i) -> mesh_type & { return mesh[a[i] - 1]; };
        if (w[0] == "node") {
            nodes.push_back(geometry::node(system, where(points.size() + 1)));
            vertices.push_back(nodes.back()->vertex());
            points.push_back(nodes.back()->point());
        } else if (w[0] == "twin") {
            auto & n = nodes[a[0] - 1];
            nodes.push_back(node_type(n->vertex(), n->point()));
        } else if (w[0] == "insert") {
            auto q = [&]<int... J>(tensor::integer_sequence<J...>) -> cell_t::nodes_type {
                return { nodes[a[1 + J] - 1]... };
            }(tensor::make_integer_sequence<N + 1>{});
            cell[++nc] = &m(0).insert(q);
        } else if (w[0] == "erase") {
            m(0).erase(*cell.at(a[1]));
        } else if (w[0] == "onmesh") {
            fd(0).clear();
            fd(0).m.emplace(discrete::mesh_field<value_t>(m(1), std::to_string(a[2])));
        } else if (w[0] == "sampled") {
            double p = a[3], q = a[4];
            auto field = functions::function([p, q](const coordinates_t & x) -> value_t {
                auto y = place(x);
                return value_t{ p + q * 4 * y[0], q * 4 * y[D - 1] - p };
            });
            fd(0).clear();
            fd(0).m.emplace(discrete::mesh_field(m(1), system, field, std::to_string(a[2])));
        } else if (w[0] == "onpoints") {
            fd(0).clear();
            fd(0).p.emplace(discrete::point_field<double>(geometry::point_cloud<D>(), std::to_string(a[1])));
            // numbers stand for pairs
            for (auto & [k, v] : *fd(0).p)
                v = one(static_cast<int>(v), static_cast<int>(v));
        } else if (w[0] == "oncells") {
            fd(0).clear();
            fd(0).c.emplace(discrete::quadrature_field<int, 2>(m(1), std::to_string(a[2])));
        } else if (w[0] == "empty") {
            fd(0).clear();
            if (a[1] == 0)
                fd(0).m.emplace(std::to_string(a[2]));
            else
                fd(0).p.emplace(std::to_string(a[2]));
        } else if (w[0] == "nothing") {
            fd(0).clear();
        } else if (w[0] == "put") {
            if (fd(0).m)
                (*fd(0).m)(nodes[a[1] - 1]) = value_t{ double(a[2]), double(a[3]) };
            else
                (*fd(0).p)(points[a[1] - 1]) = one(a[2], a[3]);
        } else if (w[0] == "enter") {
            if (fd(0).m)
                fd(0).m->insert(nodes[a[1] - 1], value_t{ double(a[2]), double(a[3]) });
            else
                fd(0).p->insert(points[a[1] - 1], one(a[2], a[3]));
        } else if (w[0] == "putcell") {
            (*fd(0).c)(cell.at(a[2])->simplex()) = { a[3], a[4] };
        } else if (w[0] == "entercell") {
            fd(0).c->insert(cell.at(a[2])->simplex(), { a[3], a[4] });
        } else if (w[0] == "shift") {
            if (fd(0).m)
                for (auto & [k, v] : *fd(0).m)
                    v = value_t{ v[0] + a[1], 2 * v[1] - a[1] };
            if (fd(0).p)
                for (auto & [k, v] : *fd(0).p) {
                    auto x = pair(v);
                    v = one(x[0] + a[1], 2 * x[1] - a[1]);
                }
            if (fd(0).c)
                for (auto & [k, v] : *fd(0).c)
                    v = { v[0] + a[1], 2 * v[1] - a[1] };
        } else if (w[0] == "movefield") {
            fd(1).clear();
            if (fd(0).m)
                fd(1).m.emplace(std::move(*fd(0).m));
            if (fd(0).p)
                fd(1).p.emplace(std::move(*fd(0).p));
            if (fd(0).c)
                fd(1).c.emplace(std::move(*fd(0).c));
            fd(0).clear();
        } else if (w[0] == "ask") {
            e.put("ret", fd(0).m ? ask(*fd(0).m, nodes[a[1] - 1], c.id % 2) : ask(*fd(0).p, points[a[1] - 1], c.id % 2));
        } else if (w[0] == "askcell") {
            e.put("ret", ask(*fd(0).c, cell.at(a[2])->simplex(), c.id % 2));
        } else if (w[0] == "parts") {
            std::string parts = "[";
            bool again = true;
            for (int r = 0; r < a[1]; ++r) {
                auto part = mesh::metis::partition(m(0), a[1], r);
                std::string s = "[";
                for (const auto & x : part.cells()) {
                    std::vector<int> q;
                    for (const auto & n : x.nodes())
                        q.push_back(index(nodes, n));
                    s += (s.size() > 1 ? "," : "") + vf::Event::val(q);
                    std::vector<int> t, u;
                    for (const auto & v : x.simplex()->vertices())
                        t.push_back(index(vertices, v));
                    for (int n : q)
                        u.push_back(n > 0 ? index(vertices, nodes[n - 1]->vertex()) : -1);
                    again = again && std::is_permutation(t.begin(), t.end(), u.begin());
                }
                again = again && mesh::metis::partition(m(0), a[1], r).nCells() == part.nCells();
                parts += (r ? "," : "") + s + "]";
            }
            e.raw("parts", parts + "]").put("again", again);
        }
#ifdef GRIDS
        else if (w[0].substr(0, 4) == "open") {
            auto & g = grid[a[0] - 1];
            g.clear();
            std::string name = "w" + std::to_string(a[0]);
            auto & on = m(1);
            bool parallel = a[2];
            if (w[0] == "openmesh") {
                if (parallel)
                    on_nodes(g, on, HOLD(io::vtk::parallel_field_writer(name, on, system)));
                else
                    on_nodes(g, on, HOLD(io::vtk::field_writer(name, on, system)));
            } else if (w[0] == "opencloud") {
                auto & cloud = geometry::point_cloud<D>();
                if (parallel)
                    on_cloud(g, HOLD(io::vtk::parallel_field_writer(name, cloud, system)));
                else
                    on_cloud(g, HOLD(io::vtk::field_writer(name, cloud, system)));
            }
#ifdef ELEMENT
            else if (w[0] == "openspace") {
                auto manifold = manifolds::manifold(on, system);
                auto zero = functions::zero<coordinates_t>;
                auto go = [&](const auto & where) {
                    auto constraint = constraints::dirichlet_bc(where, zero);
                    auto space = fem::function_space<fem::isoparametric_simplex_t<ELEMENT, cell_t>>(manifold, constraint);
                    auto field = space.template fem_field<double>("space");
                    if (parallel)
                        on_space(g, space, field, on, HOLD(io::vtk::parallel_field_writer(name, space, system)));
                    else
                        on_space(g, space, field, on, HOLD(io::vtk::field_writer(name, space, system)));
                };
                go(nowhere<N>());
            }
#endif
            else if (w[0] == "openplain") {
                // nothing is recorded on this one
                if (parallel) {
                    auto writer = HOLD(io::vtk::parallel_grid_writer(name, on, system));
                    g.write = [writer] { writer->write(); };
                } else {
                    auto writer = HOLD(io::vtk::grid_writer(name, on, system));
                    g.write = [writer] { writer->write(); };
                }
            }
            if (g.spread)
                g.spread("0", 0, 1);
        } else if (w[0] == "close") {
            grid[a[0] - 1].clear();
        } else if (w[0] == "record") {
            e.put("ok", grid[a[0] - 1].record(fd(1), a[2] ? std::to_string(a[2]) : ""));
        } else if (w[0] == "spread") {
            grid[a[0] - 1].spread(std::to_string(a[1]), a[2], a[3]);
        } else if (w[0] == "write") {
            vtkstandin::files().clear();
            vtkstandin::size = a[1];
            vtkstandin::rank = a[2];
            grid[a[0] - 1].write();
            for (const auto & x : vtkstandin::misuses())
                ::fprintf(stderr, "misuse of VTK: %s\n", x.c_str());
            e.raw("files", written()).put("ok", vtkstandin::misuses().empty() && vtkstandin::controllers == 0);
        }
#else
        else if (w[0] == "file") {
            std::string type = a[1] ? "T" + std::to_string(N + 1) : "";
            if (a[2])
                file<io::summit::DG>(e, m(0), system, type, a[3]);
            else
                file<io::summit::CG>(e, m(0), system, type, a[3]);
            e.put("x", a[1]);
        }
#endif

        std::string all = "[";
        for (int k = 0; k < F; ++k) {
            all += k ? "," : "";
            if (f[k].m)
                all += observe(*f[k].m, "mesh", [](const node_type & n) { return std::vector<int>{ index(nodes, n) }; });
            else if (f[k].p)
                all += observe(*f[k].p, "point", [](const geometry::point_t<D> & n) { return std::vector<int>{ index(points, n) }; });
            else if (f[k].c)
                all += observe(*f[k].c, "cell", key_of);
            else
                all += "{\"kind\":\"none\"}";
        }
        e.raw("f", all + "]");
        std::vector<int> n;
        for (auto & x : mesh)
            n.push_back(x.nCells());
        e.put("n", n);
        e.emit();
    }
}

int main() { return vf::run(run_case, 1, 120); }
