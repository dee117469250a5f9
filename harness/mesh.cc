// meshes: contents, boundary, subcells, duplicates
#include <mito/mesh.h>
#include <map>
#include <optional>
#include <unordered_set>
#include "vf.h"

#ifndef CELL_N
#define CELL_N 2
#endif
#ifndef CELL_D
#define CELL_D CELL_N
#endif

constexpr int N = CELL_N;
constexpr int D = CELL_D;
constexpr int M = 3;

using namespace mito;
using coordinates_t = geometry::coordinates_t<D, geometry::CARTESIAN>;
using cell_t = geometry::geometric_simplex_t<N, D>;
using mesh_type = mesh::mesh_t<cell_t>;
using node_type = geometry::node_t<D>;

static std::vector<node_type> nodes;

static int num_of(const topology::vertex_t & v)
{
    for (size_t i = 0; i < nodes.size(); ++i)
        if (nodes[i]->vertex() == v)
            return i + 1;
    return -1;
}
// the number of a node: where both its vertex and its point are
static int num_of(const node_type & n)
{
    for (size_t i = 0; i < nodes.size(); ++i)
        if (nodes[i]->vertex() == n->vertex())
            return nodes[i]->point() == n->point() && nodes[i] == n ? i + 1 : -2;
    return -1;
}

template <class cellT>
static std::vector<int> nodes_of(const cellT & c)
{
    std::vector<int> r;
    for (const auto & n : c.nodes())
        r.push_back(num_of(n));
    return r;
}

template <class T>
static std::string list(const std::vector<T> & v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i)
        s += (i ? "," : "") + v[i];
    return s + "]";
}

template <class meshT>
static std::string cells_of(const meshT & m)
{
    std::vector<std::string> r;
    for (const auto & c : m.cells())
        r.push_back(vf::Event::val(nodes_of(c)));
    return list(r);
}

template <class meshT>
static std::string observe(const meshT & x, const std::map<const void *, int> & number)
{
            std::string s = "{\"live\":true";
            s += ",\"n\":" + std::to_string(x.nCells());
            std::vector<std::string> cells, simp, onb, ends;
            for (const auto & cell : x.cells()) {
                auto v = nodes_of(cell);
                v.insert(v.begin(), number.count(&cell) ? number.at(&cell) : -1);
                cells.push_back(vf::Event::val(v));
                std::vector<int> vs;
                for (const auto & y : cell.simplex()->vertices())
                    vs.push_back(num_of(y));
                simp.push_back(vf::Event::val(vs));
                for (const auto & f : cell.simplex()->composition()) {
                    std::vector<int> fs;
                    if constexpr (N == 1)
                        fs.push_back(num_of(f->footprint()));
                    else
                        for (const auto & y : f->vertices())
                            fs.push_back(num_of(y));
                    onb.push_back(
                        "[" + vf::Event::val(fs) + "," + vf::Event::val(x.isOnBoundary(f)) + "]");
                }
            }
            s += ",\"cells\":" + list(cells) + ",\"simp\":" + list(simp) + ",\"onb\":" + list(onb);
            s += ",\"bsize\":" + std::to_string(mesh::boundary_size(x));
            auto b = mesh::boundary(x);
            if constexpr (N == 1) {
                std::vector<int> bn;
                for (const auto & n : b)
                    bn.push_back(num_of(n));
                s += ",\"boundary\":" + vf::Event::val(bn);
            } else {
                s += ",\"boundary\":" + cells_of(b);
                if constexpr (N == 2)
                    s += ",\"bb\":" + std::to_string(std::size(mesh::boundary(b)));
                else
                    s += ",\"bb\":" + std::to_string(mesh::boundary(b).nCells());
            }
            if constexpr (N > 1)
                s += ",\"faces\":" + cells_of(mesh::filter<N - 1>(x));
            if constexpr (N > 2)
                s += ",\"edges\":" + cells_of(mesh::filter<1>(x));
            std::set<node_type> ns;
            mesh::get_nodes(x, ns);
            std::vector<int> nsn;
            for (const auto & n : ns)
                nsn.push_back(num_of(n));
            s += ",\"nodes\":" + vf::Event::val(nsn);
    return s;
}

static void run_case(const vf::Case & c)
{
    nodes.clear();
    geometry::coordinate_system_t<coordinates_t> system;
    std::array<std::optional<mesh_type>, M> mesh;
    // the cell at an address, and where a cell is
    std::map<const void *, int> number;
    std::map<int, cell_t *> where;
    int nc = 0;

    for (const auto & op : c.ops) {
        auto w = vf::words(op);
        std::vector<int> a;
        for (size_t i = 1; i < w.size(); ++i)
            a.push_back(vf::num(w[i]));
        vf::Event e;
        e.put("op", w[0]).put("a", a);
        auto m = [&](int i) -> std::optional<mesh_type> & { return mesh[a[i] - 1]; };
        auto cell_nodes = [&]() {
            return [&]<int... J>(tensor::integer_sequence<J...>) -> cell_t::nodes_type {
                return { nodes[a[1 + J] - 1]... };
            }(tensor::make_integer_sequence<N + 1>{});
        };
        auto inserted = [&](cell_t & cell) {
            number[&cell] = ++nc;
            where[nc] = &cell;
        };
        if (w[0] == "node") {
            int k = nodes.size();
            auto x = [&]<int... I>(tensor::integer_sequence<I...>) {
                return coordinates_t{ ((k * (I + 3) * (k + I)) % 17 + 0.25 * k)... };
            }(tensor::make_integer_sequence<D>{});
            nodes.push_back(geometry::node(system, x));
        } else if (w[0] == "new") {
            m(0).emplace();
        } else if (w[0] == "end") {
            m(0).reset();
        } else if (w[0] == "move") {
            m(1).emplace(std::move(*m(0)));
            m(0).reset();
        } else if (w[0] == "insert") {
            inserted(m(0)->insert(cell_nodes()));
        } else if (w[0] == "insertcell") {
            // a cell on a simplex requested with its vertices turned around
            auto ns = cell_nodes();
            if constexpr (N > 1) {
                auto simplex = [&]<int... J>(tensor::integer_sequence<J...>) {
                    auto t = ns;
                    std::rotate(t.begin(), t.begin() + 1, t.begin() + 3);
                    return topology::topology().simplex<N>({ t[J]->vertex()... });
                }(tensor::make_integer_sequence<N + 1>{});
                inserted(m(0)->insert(cell_t(simplex, ns)));
            } else
                inserted(m(0)->insert(cell_t(ns)));
        } else if (w[0] == "erase") {
            // a cell that was erased may be erased again, as long as its place is not taken
            auto it = where.find(a[1]);
            bool mine = false;
            if (it != where.end() && number[it->second] == a[1]) {
                for (auto & cell : m(0)->cells())
                    mine = mine || &cell == it->second;
                if (mine || !it->second->is_valid())
                    m(0)->erase(*it->second);
            }
        } else if (w[0] == "topo") {
            m(0)->erase_topological_duplicates();
        } else if (w[0] == "geo") {
            m(0)->erase_geometrical_duplicates();
        }

        std::string all = "[";
        for (int k = 0; k < M; ++k) {
            all += k ? "," : "";
            if (!mesh[k]) {
                all += "{\"live\":false}";
                continue;
            }
            all += observe(*mesh[k], number) + "}";
        }
        e.raw("m", all + "]");
        e.emit();
    }
}

int main() { return vf::run(run_case, 1, 120); }
