// linear systems and the solvers on them, as PETSc solves them
#include <mito/matrix_solvers.h>
#include <cmath>
#include <map>
#include <memory>
#include "vf.h"

using namespace mito;
using linear_t = decltype(matrix_solvers::petsc::linear_system(std::string()));
using krylov_t = decltype(matrix_solvers::petsc::ksp(std::declval<linear_t &>()));

static const char * type_words[] = { "", "-ksp_type preonly", "-ksp_type richardson -ksp_max_it 1" };
static const char * pc_words[] = { "", "-pc_type lu", "-pc_type none", "-pc_type jacobi" };

// a number, as numbers may be written
static std::string number(int x, int style)
{
    return style == 2 ? std::string(x < 0 ? "-" : "") + "." + std::to_string(std::abs(x)) + "e1" : std::to_string(x) + (style == 1 ? ".0" : "");
}
static void run_case(const vf::Case & c)
{
    static bool ready = false;
    if (!ready) {
        // alone, whatever started this
        ::setenv("OMPI_MCA_ess_singleton_isolated", "1", 1);
        ::setenv("OMPI_MCA_btl", "self", 1);
        ::setenv("OMPI_MCA_plm_rsh_agent", "", 1);
        petsc::initialize();
        ready = true;
    }
    constexpr int S = 3, K = 4;
    std::vector<std::unique_ptr<linear_t>> sys(S);
    std::vector<std::unique_ptr<krylov_t>> ksp(K);
    std::vector<bool> made(S, false);
    std::vector<int> on(K, -1), n(S, 0);
    std::vector<bool> solved(S, false);
    std::string mine = "c" + std::to_string(c.id) + "_";

    for (const auto & op : c.ops) {
        auto w = vf::words(op);
        auto num = [&](int i) { return vf::num(w[i]); };
        vf::Event e;
        e.put("op", w[0]);
        std::string args = "[";
        for (size_t i = 1; i < w.size(); ++i)
            args += (i > 1 ? "," : "")
                  + (std::isalpha(w[i][0]) ? vf::Event::str(w[i]) : vf::Event::val(vf::num(w[i])));
        e.raw("a", args + "]");
        if (w[0] == "system") {
            int s = num(1) - 1;
            std::string label = mine + std::to_string(num(3));
            // the object of a system that was destroyed is used again
            if (!sys[s] || sys[s]->label() != label)
                sys[s] = std::make_unique<linear_t>(matrix_solvers::petsc::linear_system(label));
            sys[s]->create(num(2));
            made[s] = true;
            solved[s] = false;
            n[s] = num(2);
        } else if (w[0] == "solver") {
            int k = num(1) - 1, s = num(2) - 1;
            ksp[k] = std::make_unique<krylov_t>(matrix_solvers::petsc::ksp(*sys[s]));
            ksp[k]->create();
            on[k] = s;
        } else if (w[0] == "entry") {
            auto & x = *sys[num(1) - 1];
            if (w[2] == "set")
                x.insert_matrix_value(num(3) - 1, num(4) - 1, num(5));
            else
                x.add_matrix_value(num(3) - 1, num(4) - 1, num(5));
        } else if (w[0] == "side") {
            auto & x = *sys[num(1) - 1];
            if (w[2] == "set")
                x.insert_rhs_value(num(3) - 1, num(4));
            else
                x.add_rhs_value(num(3) - 1, num(4));
        } else if (w[0] == "band" || w[0] == "row") {
            auto & x = *sys[num(1) - 1];
            int size = n[num(1) - 1];
            auto put = [&](int i, int j, int v) {
                w[2] == "set" ? x.insert_matrix_value(i, j, v) : x.add_matrix_value(i, j, v);
            };
            for (int i = 0; i < size; ++i)
                if (w[0] == "row")
                    put(num(3) - 1, i, num(4));
                else {
                    put(i, i, num(3));
                    for (int j : { i - num(4), i + num(4) })
                        if (j >= 0 && j < size)
                            put(i, j, num(5));
                }
        } else if (w[0] == "sides") {
            auto & x = *sys[num(1) - 1];
            for (int i = n[num(1) - 1]; i >= 1; --i) {
                int v = num(3) + num(4) * (i % 5);
                w[2] == "set" ? x.insert_rhs_value(i - 1, v) : x.add_rhs_value(i - 1, v);
            }
        } else if (w[0] == "assemble") {
            sys[num(1) - 1]->assemble();
        } else if (w[0] == "options") {
            std::string gap(num(2) + 1, ' ');
            std::string s = num(2) == 2 ? "  " : "";
            for (size_t i = 3; i + 1 < w.size(); i += 2) {
                s += i > 3 ? gap : "";
                if (w[i] == "type")
                    s += type_words[num(i + 1)];
                else if (w[i] == "pc")
                    s += pc_words[num(i + 1)];
                else
                    s += "-ksp_richardson_scale" + gap + number(num(i + 1), num(2));
            }
            if (num(2) == 2)
                s += " ";
            ksp[num(1) - 1]->set_options(s);
        } else if (w[0] == "solve") {
            ksp[num(1) - 1]->solve();
            solved[on[num(1) - 1]] = true;
        } else if (w[0] == "destroy") {
            int k = num(1) - 1;
            ksp[k]->destroy();
            ksp[k].reset();
            made[on[k]] = false;
            on[k] = -1;
        }
        std::vector<int> sizes, labels;
        std::string sol = "[";
        for (int s = 0; s < S; ++s) {
            sizes.push_back(made[s] ? sys[s]->n_equations() : 0);
            std::string label = made[s] ? sys[s]->label() : mine + "0";
            labels.push_back(label.rfind(mine, 0) == 0 ? vf::num(label.substr(mine.size())) : -1);
            std::vector<long> x;
            if (made[s] && solved[s]) {
                std::vector<double> u(n[s], 1e5);
                sys[s]->get_solution(u);
                for (double v : u)
                    x.push_back(std::abs(v) < 3e3 ? std::lround(v * 1e4) : 30000000);
            }
            sol += (s ? "," : "") + vf::Event::val(x);
        }
        e.put("n", sizes).put("labels", labels).raw("sol", sol + "]");
        e.emit();
    }
}

int main() { return vf::run(run_case, 40, 120); }
