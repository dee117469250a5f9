#include <mito/topology.h>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <tuple>
#include <unordered_set>
#include "vf.h"

using mito::topology::simplex_t;
using mito::topology::vertex_t;

// vertices are numbered as they are created
static std::map<mito::utilities::index_t<vertex_t>, int> number;
static int num_of(const vertex_t & v) { return number.count(v.id()) ? number[v.id()] : -1; }

template <int N>
static std::vector<int> vertices_of(const simplex_t<N> & s)
{
    std::vector<int> r;
    if constexpr (N == 0)
        r.push_back(num_of(s->footprint()));
    else
        for (const auto & v : s->vertices())
            r.push_back(num_of(v));
    return r;
}

template <int N>
static std::string facet_of(const simplex_t<N> & s)
{
    return "{\"vs\":" + vf::Event::val(vertices_of<N>(s))
         + ",\"o\":" + std::to_string(s->orientation()) + "}";
}

// a handle of any dimension
struct Handle {
    int dim = -1;
    std::optional<simplex_t<0>> h0;
    std::optional<simplex_t<1>> h1;
    std::optional<simplex_t<2>> h2;
    std::optional<simplex_t<3>> h3;
    template <int N>
    auto & get()
    {
        if constexpr (N == 0)
            return h0;
        else if constexpr (N == 1)
            return h1;
        else if constexpr (N == 2)
            return h2;
        else
            return h3;
    }
    void clear()
    {
        dim = -1;
        h0.reset();
        h1.reset();
        h2.reset();
        h3.reset();
    }
    template <int N>
    void set(const simplex_t<N> & s)
    {
        simplex_t<N> keep = s;
        clear();
        dim = N;
        get<N>().emplace(keep);
    }
    bool bound()
    {
        bool b = false;
        with([&](auto &, auto) { b = true; });
        return b;
    }
    // call f on the simplex, with its dimension
    template <class F>
    void with(F f)
    {
        auto one = [&]<int N>(std::integral_constant<int, N> n) {
            if (dim == N && get<N>() && !get<N>()->is_nullptr())
                f(*get<N>(), n);
        };
        one(std::integral_constant<int, 0>{});
        one(std::integral_constant<int, 1>{});
        one(std::integral_constant<int, 2>{});
        one(std::integral_constant<int, 3>{});
    }
};

constexpr int H = 6;

static void run_case(const vf::Case & c)
{
    auto & topology = mito::topology::topology();
    number.clear();
    std::map<int, vertex_t> vh;
    int nv = 0;
    std::vector<Handle> h(H);

    for (const auto & op : c.ops) {
        auto w = vf::words(op);
        auto arg = [&](int i) { return vf::num(w[i]); };
        auto hd = [&](int i) -> Handle & { return h[arg(i) - 1]; };
        auto v = [&](int i) { return vh.at(arg(i)); };
        vf::Event e;
        std::vector<int> a;
        for (size_t i = 1; i < w.size(); ++i)
            a.push_back(vf::num(w[i]));
        e.put("op", w[0]).put("a", a);
        if (w[0] == "vertex") {
            auto x = c.id % 2 ? topology.vertex() : mito::topology::vertex();
            number[x.id()] = ++nv;
            vh.emplace(nv, x);
        } else if (w[0] == "dropv") {
            vh.erase(arg(1));
        } else if (w[0] == "ov") {
            hd(1).set<0>(topology.simplex(v(2), arg(3)));
        } else if (w[0] == "mk" && c.id % 2) {
            if (arg(2) == 1)
                hd(1).set<1>(mito::topology::segment({ v(3), v(4) }));
            else if (arg(2) == 2)
                hd(1).set<2>(mito::topology::triangle({ v(3), v(4), v(5) }));
            else
                hd(1).set<3>(mito::topology::tetrahedron({ v(3), v(4), v(5), v(6) }));
        } else if (w[0] == "mk") {
            if (arg(2) == 1)
                hd(1).set<1>(topology.segment({ v(3), v(4) }));
            else if (arg(2) == 2)
                hd(1).set<2>(topology.triangle({ v(3), v(4), v(5) }));
            else
                hd(1).set<3>(topology.tetrahedron({ v(3), v(4), v(5), v(6) }));
        } else if (w[0] == "build" && c.id % 2) {
            if (arg(2) == 1)
                hd(1).set<1>(mito::topology::segment(
                    { topology.simplex(v(3), -1), topology.simplex(v(4), +1) }));
            else if (arg(2) == 2)
                hd(1).set<2>(mito::topology::triangle({ mito::topology::segment({ v(3), v(4) }),
                                                        mito::topology::segment({ v(4), v(5) }),
                                                        mito::topology::segment({ v(5), v(3) }) }));
            else
                hd(1).set<3>(
                    mito::topology::tetrahedron({ mito::topology::triangle({ v(3), v(4), v(5) }),
                                                  mito::topology::triangle({ v(4), v(6), v(5) }),
                                                  mito::topology::triangle({ v(6), v(4), v(3) }),
                                                  mito::topology::triangle({ v(6), v(3), v(5) }) }));
        } else if (w[0] == "build") {
            if (arg(2) == 1)
                hd(1).set<1>(topology.segment(
                    { topology.simplex(v(3), -1), topology.simplex(v(4), +1) }));
            else if (arg(2) == 2)
                hd(1).set<2>(topology.triangle({ topology.simplex<1>({ v(3), v(4) }),
                                                 topology.simplex<1>({ v(4), v(5) }),
                                                 topology.simplex<1>({ v(5), v(3) }) }));
            else
                hd(1).set<3>(
                    topology.tetrahedron({ topology.simplex<2>({ v(3), v(4), v(5) }),
                                           topology.simplex<2>({ v(4), v(6), v(5) }),
                                           topology.simplex<2>({ v(6), v(4), v(3) }),
                                           topology.simplex<2>({ v(6), v(3), v(5) }) }));
        } else if (w[0] == "comp") {
            auto make = [&]<int N>(const mito::topology::simplex_composition_t<N> & f) {
                e.put("was", topology.exists<N>(f));
                hd(1).template set<N>(topology.simplex<N>(f));
            };
            if (arg(2) == 1)
                make.operator()<1>({ *hd(3).h0, *hd(4).h0 });
            else if (arg(2) == 2)
                make.operator()<2>({ *hd(3).h1, *hd(4).h1, *hd(5).h1 });
            else
                make.operator()<3>({ *hd(3).h2, *hd(4).h2, *hd(5).h2, *hd(6).h2 });
        } else if (w[0] == "recomp") {
            Handle from = hd(2);
            from.with([&](auto & s, auto n) {
                if constexpr (n > 0)
                    hd(1).template set<n>(topology.simplex<n>(s->composition()));
            });
        } else if (w[0] == "flip") {
            Handle from = hd(2);
            from.with([&](auto & s, auto n) {
                if (c.id % 2)
                    hd(1).template set<n>(topology.flip<n>(s));
                else
                    hd(1).template set<n>(mito::topology::flip<n>(s));
            });
        } else if (w[0] == "copy") {
            Handle from = hd(2);
            if (from.bound())
                from.with([&](auto & s, auto n) { hd(1).template set<n>(s); });
            else
                hd(1).clear();
        } else if (w[0] == "drop") {
            hd(1).clear();
        } else if (w[0] == "face") {
            Handle from = hd(2);
            from.with([&](auto & s, auto n) {
                if constexpr (n > 0) {
                    for (const auto & f : s->composition()) {
                        auto vs = vertices_of<n - 1>(f);
                        if (std::find(vs.begin(), vs.end(), arg(3)) == vs.end()) {
                            hd(1).template set<n - 1>(f);
                            break;
                        }
                    }
                }
            });
        } else if (w[0] == "erase") {
            if (hd(1).bound())
                hd(1).with([&](auto & s, auto n) { topology.erase<n>(s); });
            else {
                // erasing through a null handle is allowed
                simplex_t<1> null;
                topology.erase<1>(null);
            }
        } else if (w[0] == "diag") {
            auto r = mito::topology::flip_diagonal({ *hd(3).h2, *hd(4).h2 });
            // the one with the first vertex of the old edge is bound to the first handle
            auto a = vertices_of<2>(*hd(3).h2), b = vertices_of<2>(*hd(4).h2);
            int first = 1000;
            for (int x : a)
                if (std::find(b.begin(), b.end(), x) != b.end())
                    first = std::min(first, x);
            auto n = vertices_of<2>(r.first);
            if (std::find(n.begin(), n.end(), first) == n.end())
                std::swap(r.first, r.second);
            hd(1).set<2>(r.first);
            hd(2).set<2>(r.second);
        } else if (w[0] == "valid") {
            bool ret = false;
            if (arg(1) == 2) {
                mito::topology::simplex_composition_t<2> f{ topology.segment({ v(2), v(3) }),
                                                            topology.segment({ v(3), v(4) }),
                                                            topology.segment({ v(4), v(2) }) };
                for (int i = 0; i < 3; ++i)
                    if (arg(5 + i))
                        f[i] = topology.flip<1>(f[i]);
                ret = mito::topology::isValid<2>(f);
            } else {
                mito::topology::simplex_composition_t<3> f{
                    topology.triangle({ v(2), v(3), v(4) }),
                    topology.triangle({ v(3), v(5), v(4) }),
                    topology.triangle({ v(5), v(3), v(2) }),
                    topology.triangle({ v(5), v(2), v(4) })
                };
                for (int i = 0; i < 4; ++i)
                    if (arg(6 + i))
                        f[i] = topology.flip<2>(f[i]);
                ret = mito::topology::isValid<3>(f);
            }
            e.put("ret", ret);
        }

        // observations
        std::string all = "[";
        for (int k = 0; k < H; ++k) {
            std::string s = "{\"null\":true}";
            h[k].with([&](auto & x, auto n) {
                constexpr int N = n;
                int id = 0, fid = 0;
                for (int j = H - 1; j >= 0; --j)
                    h[j].with([&](auto & y, auto m) {
                        if constexpr (m == n) {
                            if (y.id() == x.id() && y == x)
                                id = j + 1;
                            if (y->footprint().id() == x->footprint().id())
                                fid = j + 1;
                        }
                    });
                s = "{\"null\":false,\"vs\":" + vf::Event::val(vertices_of<N>(x))
                  + ",\"o\":" + std::to_string(x->orientation())
                  + ",\"ori\":" + std::to_string(x->orientation())
                  + ",\"id\":" + std::to_string(id) + ",\"fid\":" + std::to_string(fid)
                  + ",\"refs\":" + std::to_string(x.references())
                  + ",\"ef\":" + vf::Event::val(topology.exists_flipped<N>(x));
                bool ok = x->sanityCheck();
                if constexpr (N > 0) {
                    auto composition = x->composition();
                    // its facets in any even, or odd, order
                    auto order = composition;
                    bool even = topology.exists<N>(order);
                    if constexpr (N > 1) {
                        std::rotate(order.begin(), order.begin() + 1, order.begin() + 3);
                        even = even && topology.exists<N>(order);
                        order = composition;
                    }
                    std::swap(order[0], order[1]);
                    bool odd = topology.exists<N>(order);
                    if constexpr (N > 1) {
                        order = composition;
                        std::swap(order[1], order[N]);
                        if (topology.exists<N>(order) != odd)
                            even = false;
                    }
                    s += ",\"ex\":" + vf::Event::val(even) + ",\"exf\":" + vf::Event::val(odd);
                    ok = ok && mito::topology::isValid<N>(composition);
                    // the vertex set and the vertex sequence agree
                    std::set<vertex_t> vset;
                    x->vertices(vset);
                    auto vseq = x->vertices();
                    ok = ok && vset == std::set<vertex_t>(vseq.begin(), vseq.end());
                    s += ",\"comp\":[";
                    bool first = true;
                    for (const auto & f : composition) {
                        s += (first ? "" : ",") + facet_of<N - 1>(f);
                        first = false;
                    }
                    s += "]";
                }
                if constexpr (N > 1) {
                    std::unordered_set<
                        simplex_t<1>, mito::utilities::hash_function<simplex_t<1>>>
                        edges;
                    x->edges(edges);
                    s += ",\"edges\":[";
                    bool first = true;
                    for (const auto & f : edges) {
                        s += (first ? "" : ",") + vf::Event::val(vertices_of<1>(f));
                        first = false;
                    }
                    s += "]";
                }
                s += ",\"ok\":" + vf::Event::val(ok) + "}";
            });
            all += (k ? "," : "") + s;
        }
        all += "]";
        e.raw("h", all);
        e.put("nsimp", std::vector<int>{ topology.n_simplices<0>(), topology.n_simplices<1>(),
                                         topology.n_simplices<2>(), topology.n_simplices<3>() });
        std::string pairs = "[";
        bool first = true;
        for (auto & [i, x] : vh)
            for (auto & [j, y] : vh)
                if (i != j && topology.exists({ x, y })) {
                    pairs += std::string(first ? "" : ",") + "[" + std::to_string(i) + ","
                           + std::to_string(j) + "]";
                    first = false;
                }
        e.raw("pairs", pairs + "]");
        e.emit();
    }
}

int main() { return vf::run(run_case, 1, 120); }
