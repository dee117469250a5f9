// uniform refinement of meshes
#include <mito/mesh.h>
#include <cmath>
#include <map>
#include <optional>
#include "vf.h"

constexpr int N = CELL_N;
constexpr int D = CELL_D;

using namespace mito;
using coordinates_t = geometry::coordinates_t<D, geometry::CARTESIAN>;
using cell_t = geometry::geometric_simplex_t<N, D>;
using mesh_type = mesh::mesh_t<cell_t>;
using node_type = geometry::node_t<D>;

static const double unit = UNIT;

static std::string list(const std::vector<std::string> & v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i)
        s += (i ? "," : "") + v[i];
    return s + "]";
}

static void run_case(const vf::Case & c)
{
    auto system = geometry::coordinate_system<coordinates_t>();
    std::map<std::vector<int>, node_type> at;
    std::vector<node_type> known;
    // the meshes so far stay
    std::vector<std::unique_ptr<mesh_type>> meshes;
    meshes.push_back(std::make_unique<mesh_type>());

    auto name = [&](const node_type & n) -> int {
        for (size_t i = 0; i < known.size(); ++i)
            if (known[i] == n)
                return i + 1;
        known.push_back(n);
        return known.size();
    };

    for (auto & op : c.ops) {
        auto w = vf::words(op);
        vf::Event e;
        e.put("op", w[0] == "nth" ? "erase" : w[0].c_str());
        auto & mesh = *meshes.back();
        if (w[0] == "insert") {
            std::vector<node_type> ns;
            std::vector<std::string> points;
            for (int i = 0; i <= N; ++i) {
                std::vector<int> x;
                for (int j = 0; j < D; ++j)
                    x.push_back(vf::num(w[1 + i * D + j]));
                points.push_back(vf::Event::val(x));
                auto it = at.find(x);
                if (it == at.end()) {
                    auto p = [&]<int... J>(tensor::integer_sequence<J...>) {
                        return coordinates_t{ (x[J] / unit)... };
                    }(tensor::make_integer_sequence<D>{});
                    it = at.emplace(x, geometry::node(system, p)).first;
                    name(it->second);
                }
                ns.push_back(it->second);
            }
            [&]<int... J>(tensor::integer_sequence<J...>) {
                mesh.insert({ ns[J]... });
            }(tensor::make_integer_sequence<N + 1>{});
            e.raw("a", list(points));
        } else if (w[0] == "erase") {
            // the cell with these nodes
            std::array<node_type *, N + 1> ns;
            for (int i = 0; i <= N; ++i) {
                std::vector<int> x;
                for (int j = 0; j < D; ++j)
                    x.push_back(vf::num(w[1 + i * D + j]));
                ns[i] = &at.at(x);
            }
            for (auto & cell : mesh.cells()) {
                bool same = true;
                for (int i = 0; i <= N; ++i)
                    same = same && cell.nodes()[i] == *ns[i];
                if (same) {
                    mesh.erase(cell);
                    break;
                }
            }
        } else if (w[0] == "nth") {
            int n = mesh.nCells();
            if (n > 0) {
                int k = vf::num(w[1]) % n;
                for (auto & cell : mesh.cells())
                    if (k-- == 0) {
                        mesh.erase(cell);
                        break;
                    }
            }
        } else if (w[0] == "refine") {
            e.put("a", vf::num(w[1]));
            meshes.push_back(
                std::make_unique<mesh_type>(mesh::tetra(mesh, system, vf::num(w[1]))));
        }

        auto & now = *meshes.back();
        std::map<int, int> index;
        std::vector<std::pair<int, node_type>> nodes;
        std::vector<std::string> cells, points;
        for (auto & cell : now.cells()) {
            std::vector<int> ns;
            for (auto & n : cell.nodes()) {
                auto k = name(n);
                if (!index.count(k)) {
                    nodes.emplace_back(k, n);
                    index[k] = nodes.size();
                }
                ns.push_back(index[k]);
            }
            cells.push_back(vf::Event::val(ns));
        }
        for (auto & [k, n] : nodes) {
            auto & x = system.coordinates(n->point());
            std::vector<int> p = { k };
            for (int j = 0; j < D; ++j) {
                double y = x[j] * unit;
                p.push_back(std::abs(y - std::round(y)) < 1e-6 ? std::lround(y) : -99999);
            }
            points.push_back(vf::Event::val(p));
        }
        e.raw("cells", list(cells));
        e.raw("nodes", list(points));
        e.put("bsize", (int) mesh::boundary_size(now));
        e.emit();
    }
}

int main() { return vf::run(run_case, 1, 120); }
