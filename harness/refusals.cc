// what makes no sense is refused, and changes nothing
#include <mito/mesh.h>
#include <mito/io.h>
#include <mito/discrete.h>
#include <map>
#include <memory>
#include <optional>
#include "vf.h"

using namespace mito;
using topology::simplex_t;
using topology::vertex_t;
using coordinates_t = geometry::coordinates_t<3, geometry::CARTESIAN>;
using point_type = geometry::point_t<3>;
using node_type = geometry::node_t<3>;
using triangle_t = geometry::geometric_simplex_t<2, 3>;

// vertices are numbered as they are created
static std::map<mito::utilities::index_t<vertex_t>, int> number;
static int num_of(const vertex_t & v) { return number.count(v.id()) ? number[v.id()] : -1; }

template <int N>
static std::vector<int> vertices_of(const simplex_t<N> & s)
{
    std::vector<int> r;
    if constexpr (N == 0)
        r.push_back(num_of(s->footprint()));
    else
        for (const auto & v : s->vertices())
            r.push_back(num_of(v));
    return r;
}

// a handle of any dimension
struct Handle {
    int dim = -1;
    std::optional<simplex_t<0>> h0;
    std::optional<simplex_t<1>> h1;
    std::optional<simplex_t<2>> h2;
    std::optional<simplex_t<3>> h3;
    template <int N>
    auto & get()
    {
        if constexpr (N == 0)
            return h0;
        else if constexpr (N == 1)
            return h1;
        else if constexpr (N == 2)
            return h2;
        else
            return h3;
    }
    void clear()
    {
        dim = -1;
        h0.reset();
        h1.reset();
        h2.reset();
        h3.reset();
    }
    template <int N>
    void set(const simplex_t<N> & s)
    {
        simplex_t<N> keep = s;
        clear();
        dim = N;
        get<N>().emplace(keep);
    }
    bool bound()
    {
        bool b = false;
        with([&](auto &, auto) { b = true; });
        return b;
    }
    // call f on the simplex, with its dimension
    template <class F>
    void with(F f)
    {
        auto one = [&]<int N>(std::integral_constant<int, N> n) {
            if (dim == N && get<N>() && !get<N>()->is_nullptr())
                f(*get<N>(), n);
        };
        one(std::integral_constant<int, 0>{});
        one(std::integral_constant<int, 1>{});
        one(std::integral_constant<int, 2>{});
        one(std::integral_constant<int, 3>{});
    }
};


constexpr int H = 8, FRAMES = 2, FIELDS = 2;

// attempt something apart from everything else
template <class F>
static std::string attempt(const F & f)
{
    pid_t pid = ::fork();
    if (pid == 0) {
        ::alarm(20);
        bool ok = true;
        try {
            ok = f();
        } catch (...) {
            ::_exit(41);
        }
        ::_exit(ok ? 40 : 42);
    }
    int status = 0;
    ::waitpid(pid, &status, 0);
    if (WIFEXITED(status) && WEXITSTATUS(status) == 40)
        return "done";
    if (WIFEXITED(status) && WEXITSTATUS(status) == 41) {
        // refused with an exception: nothing may come of it
        try {
            f();
        } catch (...) {
            return "refused";
        }
        return "fickle";
    }
    if (WIFSIGNALED(status) && WTERMSIG(status) == SIGABRT)
        return "refused";
    if (WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM)
        return "hang";
    return "fault";
}

static std::string file(int kind)
{
    std::string name = "/tmp/vf_refusals_" + std::to_string(::getpid()) + "_" + std::to_string(kind);
    ::unlink(name.c_str());
    if (kind == 2)
        return name;
    std::ofstream out(name);
    out << (kind == 3 ? 2 : 3) << "\n4 " << (kind == 4 ? 3 : 2) << " 1\n";
    for (int i = 0; i < 4; ++i)
        out << i << " " << i * i << " " << 7 << "\n";
    int type = io::summit::cell<triangle_t>::type + (kind == 5 ? 20 : 0);
    out << type << " 1 2 3 1\n" << type << " 2 4 3 1\n";
    return name;
}

static void run_case(const vf::Case & c)
{
    auto & topology = topology::topology();
    number.clear();
    std::vector<node_type> nodes;
    std::vector<Handle> h(H);
    std::array<geometry::coordinate_system_t<coordinates_t>, FRAMES> frames;
    std::vector<std::unique_ptr<discrete::point_field_t<3, double>>> fields;
    for (int i = 0; i < FIELDS; ++i)
        fields.push_back(std::make_unique<discrete::point_field_t<3, double>>("field"));
    auto mesh = mesh::mesh<triangle_t>();
    auto & cloud = geometry::point_cloud<3>();
    std::array<int, 4> before{ topology.n_simplices<0>(), topology.n_simplices<1>(),
                               topology.n_simplices<2>(), topology.n_simplices<3>() };

    for (const auto & op : c.ops) {
        auto w = vf::words(op);
        bool trying = w[0] == "try";
        int first = trying ? 2 : 1;
        std::vector<int> a;
        for (size_t i = first; i < w.size(); ++i)
            a.push_back(vf::num(w[i]));
        vf::Event e;
        e.put("op", w[0]).put("a", a);
        auto v = [&](int i) { return nodes.at(a.at(i) - 1)->vertex(); };
        auto p = [&](int i) { return nodes.at(a.at(i) - 1)->point(); };
        auto hd = [&](int i) -> Handle & { return h.at(a.at(i) - 1); };
        // a simplex from its vertices, starting with the i-th argument
        auto simplex = [&](Handle & to, int i) {
            if (a.size() - i == 2)
                to.set<1>(topology.segment({ v(i), v(i + 1) }));
            else if (a.size() - i == 3)
                to.set<2>(topology.triangle({ v(i), v(i + 1), v(i + 2) }));
            else
                to.set<3>(topology.tetrahedron({ v(i), v(i + 1), v(i + 2), v(i + 3) }));
        };
        if (w[0] == "node") {
            auto x = topology.vertex();
            nodes.push_back(node_type(x, cloud.point()));
            number[x.id()] = nodes.size();
        } else if (w[0] == "simplex") {
            simplex(hd(0), 1);
        } else if (w[0] == "tip") {
            hd(0).set<0>(topology.simplex(v(1), a[2]));
        } else if (w[0] == "flip") {
            Handle from = hd(1);
            from.with([&](auto & s, auto n) { hd(0).template set<n>(topology.flip<n>(s)); });
        } else if (w[0] == "place") {
            frames[a[0] - 1].place(p(1), coordinates_t{ 1.0 * a[2], 1.0 * a[3], 0.0 });
        } else if (w[0] == "fill") {
            fields[a[0] - 1]->insert(p(1), a[2]);
        } else if (w[0] == "write") {
            (*fields[a[0] - 1])(p(1)) = a[2];
        } else if (w[0] == "insert") {
            mesh.insert({ nodes[a[0] - 1], nodes[a[1] - 1], nodes[a[2] - 1] });
        } else if (trying) {
            std::string what = w[1], name;
            e.put("what", what);
            if (what == "file")
                name = file(a[0]);
            // tells whether what is carried out is what was asked
            std::string out = attempt([&]() -> bool {
                Handle to;
                if (what == "compose") {
                    if (a.size() == 2)
                        topology.segment({ *hd(0).h0, *hd(1).h0 });
                    else if (a.size() == 3)
                        topology.triangle({ *hd(0).h1, *hd(1).h1, *hd(2).h1 });
                    else
                        topology.tetrahedron({ *hd(0).h2, *hd(1).h2, *hd(2).h2, *hd(3).h2 });
                } else if (what == "vertices") {
                    simplex(to, 0);
                } else if (what == "diagonal") {
                    topology::flip_diagonal({ *hd(0).h2, *hd(1).h2 });
                } else if (what == "place") {
                    frames[a[0] - 1].place(p(1), coordinates_t{ 8.0, 9.0, 0.0 });
                    return frames[a[0] - 1].coordinates(p(1))[1] == 9.0;
                } else if (what == "where") {
                    return frames[a[0] - 1].coordinates(p(1))[2] == 0.0;
                } else if (what == "fill") {
                    fields[a[0] - 1]->insert(p(1), 77.0);
                    return (*fields[a[0] - 1])(p(1)) == 77.0;
                } else if (what == "read") {
                    const auto & field = *fields[a[0] - 1];
                    return field(p(1)) >= 0.0;
                } else if (what == "write") {
                    (*fields[a[0] - 1])(p(1)) = 77.0;
                    return (*fields[a[0] - 1])(p(1)) == 77.0;
                } else if (what == "cell") {
                    auto n = [&](int i) { return nodes.at(a.at(i) - 1); };
                    if (hd(0).dim == 1)
                        geometry::geometric_simplex_t<1, 3>(*hd(0).h1, { n(1), n(2) });
                    else if (hd(0).dim == 2)
                        geometry::geometric_simplex_t<2, 3>(*hd(0).h2, { n(1), n(2), n(3) });
                    else
                        geometry::geometric_simplex_t<3, 3>(*hd(0).h3, { n(1), n(2), n(3), n(4) });
                } else if (what == "side") {
                    mesh.isOnBoundary(*hd(0).h1);
                } else if (what == "file") {
                    std::ifstream in(name);
                    return io::summit::reader<triangle_t>(in, frames[0]).nCells() == 2;
                }
                return true;
            });
            if (what == "file")
                ::unlink(name.c_str());
            e.put("out", out);
        }
        std::vector<int> n{ topology.n_simplices<0>() - before[0], topology.n_simplices<1>() - before[1],
                            topology.n_simplices<2>() - before[2], topology.n_simplices<3>() - before[3] };
        e.put("nsimp", n);
        auto who = [&](const point_type & x) {
            for (size_t i = 0; i < nodes.size(); ++i)
                if (nodes[i]->point() == x)
                    return int(i + 1);
            return -1;
        };
        std::string s;
        for (auto & frame : frames) {
            s += s.empty() ? "[" : ",[";
            bool one = true;
            for (const auto & [x, at] : frame) {
                s += std::string(one ? "" : ",") + "{\"p\":" + std::to_string(who(x)) + ",\"x\":["
                   + std::to_string(std::lround(at[0])) + "," + std::to_string(std::lround(at[1])) + "]}";
                one = false;
            }
            s += "]";
        }
        e.raw("at", "[" + s + "]");
        s.clear();
        for (const auto & field : fields) {
            s += s.empty() ? "[" : ",[";
            bool one = true;
            for (const auto & [x, y] : *field) {
                s += std::string(one ? "" : ",") + "{\"p\":" + std::to_string(who(x))
                   + ",\"x\":" + std::to_string(std::lround(y)) + "}";
                one = false;
            }
            s += "]";
        }
        e.raw("field", "[" + s + "]");
        e.put("ncells", mesh.nCells());
        s.clear();
        for (auto & k : h) {
            std::vector<int> vs;
            k.with([&](auto & x, auto n) { vs = vertices_of<int(n)>(x); });
            s += (s.empty() ? "" : ",") + vf::Event::val(vs);
        }
        e.raw("h", "[" + s + "]");
        e.emit();
    }
}

int main() { return vf::run(run_case, 1, 300); }
