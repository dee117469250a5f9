// forms: linear combinations, tensor and wedge products, contractions
#include <mito/tensor.h>
#include <cmath>
#include <functional>
#include <variant>
#include "vf.h"

#ifndef DIM
#define DIM 3
#endif
constexpr int D = DIM;
namespace tensor = mito::tensor;
using mito::tensor::_;
using vec = tensor::vector_t<D>;

// the action of a form of any construction
struct Act1 {
    std::function<double(const vec &)> f;
    double operator()(const vec & x) const { return f(x); }
};
struct Act2 {
    std::function<double(const vec &, const vec &)> f;
    double operator()(const vec & x, const vec & y) const { return f(x, y); }
};
struct Act3 {
    std::function<double(const vec &, const vec &, const vec &)> f;
    double operator()(const vec & x, const vec & y, const vec & z) const { return f(x, y, z); }
};
using Form1 = tensor::form_t<1, Act1>;
using Form2 = tensor::form_t<2, Act2>;
using Form3 = tensor::form_t<3, Act3>;
using AnyForm = std::variant<Form1, Form2, Form3>;

template <class F>
static AnyForm erase1(const tensor::form_t<1, F> & f)
{
    return Form1(Act1 { [f](const vec & x) -> double { return f(x); } });
}
template <class F>
static AnyForm erase2(const tensor::form_t<2, F> & f)
{
    return Form2(Act2 { [f](const vec & x, const vec & y) -> double { return f(x, y); } });
}
template <class F>
static AnyForm erase3(const tensor::form_t<3, F> & f)
{
    return Form3(Act3 { [f](const vec & x, const vec & y, const vec & z) -> double { return f(x, y, z); } });
}

// contract with the vectors where the pattern says 0, leave the other arguments open
template <class F>
static AnyForm ask2(const F & f, const int * open, const vec * v)
{
    int key = open[0] * 2 + open[1];
    switch (key) {
        case 3:
            return erase2(f);
        case 2:
            return erase1(f(_, v[1]));
        default:
            return erase1(f(v[0], _));
    }
}
template <class F>
static AnyForm ask3(const F & f, const int * open, const vec * v)
{
    switch (open[0] * 4 + open[1] * 2 + open[2]) {
        case 7:
            return erase3(f);
        case 6:
            return erase2(f(_, _, v[2]));
        case 5:
            return erase2(f(_, v[1], _));
        case 3:
            return erase2(f(v[0], _, _));
        case 4:
            return erase1(f(_, v[1], v[2]));
        case 2:
            return erase1(f(v[0], _, v[2]));
        default:
            return erase1(f(v[0], v[1], _));
    }
}

static vec basis(int i)
{
    vec v;
    for (int j = 0; j < D; ++j)
        v[j] = i == j;
    return v;
}
static std::string exact(double x)
{
    if (x == std::floor(x) && std::fabs(x) < 2e9)
        return std::to_string((long) x);
    return "\"" + std::to_string(x) + "\"";
}
static double value(const AnyForm & f, const vec * v)
{
    if (auto p = std::get_if<Form1>(&f))
        return (*p)(v[0]);
    if (auto p = std::get_if<Form2>(&f))
        return (*p)(v[0], v[1]);
    return std::get<Form3>(f)(v[0], v[1], v[2]);
}

static void run_case(const vf::Case & c)
{
    std::vector<AnyForm> forms;
    for (const auto & op : c.ops) {
        auto w = vf::words(op);
        std::vector<int> a;
        for (size_t i = 1; i < w.size(); ++i)
            a.push_back(vf::num(w[i]));
        vf::Event e;
        e.put("op", w[0]).put("a", a);
        auto vector_at = [&](size_t at) {
            vec v;
            for (int i = 0; i < D; ++i)
                v[i] = at + i < a.size() ? a[at + i] : 0;
            return v;
        };
        auto f = [&](int i) -> const AnyForm & { return forms[a[i] - 1]; };
        auto f1 = [&](int i) -> const Form1 & { return std::get<Form1>(f(i)); };
        const auto & o = w[0];
        auto vs = [&](int p, int at) {
            std::vector<vec> r;
            for (int k = 0; k < p; ++k)
                r.push_back(vector_at(at + p + k * D));
            return r;
        };
        if (o == "eval") {
            int p = f(0).index() + 1;
            std::vector<vec> v;
            for (int k = 0; k < p; ++k)
                v.push_back(vector_at(1 + k * D));
            e.raw("value", exact(value(f(0), v.data())));
            e.emit();
            continue;
        }
        auto linear = [&](auto combine) {
            forms.push_back(std::visit(
                [&]<class F>(const F & x) -> AnyForm {
                    if constexpr (std::is_same_v<F, Form1>)
                        return erase1(combine(x));
                    else if constexpr (std::is_same_v<F, Form2>)
                        return erase2(combine(x));
                    else
                        return erase3(combine(x));
                },
                AnyForm(o == "scale" || o == "wedge0" ? f(1) : f(0))));
        };
        if (o == "one") {
            const vec v = vector_at(0);
            forms.push_back(erase1(tensor::one_form(v)));
        } else if (o == "diag") {
            tensor::diagonal_matrix_t<D> g;
            for (int i = 0; i < D; ++i)
                g[{ i, i }] = a[D + i];
            forms.push_back(erase1(tensor::one_form(vector_at(0), g)));
        } else if (o == "sym") {
            tensor::symmetric_matrix_t<D> g;
            for (int i = 0; i < D; ++i)
                for (int j = i; j < D; ++j)
                    g[{ i, j }] = a[D + i * D + j];
            forms.push_back(erase1(tensor::one_form(vector_at(0), g)));
        } else if (o == "add") {
            linear([&]<class F>(const F & x) { return x + std::get<F>(f(1)); });
        } else if (o == "sub") {
            linear([&]<class F>(const F & x) { return x - std::get<F>(f(1)); });
        } else if (o == "neg") {
            linear([&](const auto & x) { return -x; });
        } else if (o == "scale") {
            if (a[0] % 2)
                linear([&](const auto & x) { return (double) a[0] * x; });
            else
                linear([&](const auto & x) { return x * (double) a[0]; });
        } else if (o == "wedge0") {
            if (a[0] % 2)
                linear([&](const auto & x) { return tensor::wedge((double) a[0], x); });
            else
                linear([&](const auto & x) { return tensor::wedge(x, (double) a[0]); });
        } else if (o == "tensor2") {
            // both spellings
            if ((a[0] + a[1]) % 2)
                forms.push_back(ask2(tensor::tensor(f1(0), f1(1)), &a[2], vs(2, 2).data()));
            else
                forms.push_back(ask2(f1(0) * f1(1), &a[2], vs(2, 2).data()));
        } else if (o == "wedge2") {
            forms.push_back(ask2(tensor::wedge(f1(0), f1(1)), &a[2], vs(2, 2).data()));
        } else if (o == "mixed2") {
            forms.push_back(ask2(
                (double) a[0] * tensor::wedge(f1(1), f1(2)) - tensor::tensor(f1(2), f1(1)), &a[3],
                vs(2, 3).data()));
        } else if (o == "tensor3") {
            forms.push_back(ask3(tensor::tensor(f1(0), f1(1), f1(2)), &a[3], vs(3, 3).data()));
        } else if (o == "wedge3") {
            forms.push_back(ask3(tensor::wedge(f1(0), f1(1), f1(2)), &a[3], vs(3, 3).data()));
        } else if (o == "mixed3") {
            forms.push_back(ask3(
                tensor::tensor(f1(3), f1(2), f1(1)) * (double) a[0]
                    - tensor::wedge(f1(1), f1(2), f1(3)),
                &a[4], vs(3, 4).data()));
        } else if (o == "wedge12") {
            forms.push_back(erase3(tensor::wedge(f1(0), std::get<Form2>(f(1)))));
        }
        int p = forms.back().index() + 1;
        e.put("p", p);
        int n = 1;
        for (int k = 0; k < p; ++k)
            n *= D;
        std::string s = "[";
        for (int x = 0; x < n; ++x) {
            std::vector<vec> v(p);
            for (int k = p - 1, y = x; k >= 0; --k, y /= D)
                v[k] = basis(y % D);
            s += (x ? "," : "") + exact(value(forms.back(), v.data()));
        }
        e.raw("c", s + "]");
        e.emit();
    }
}

int main() { return vf::run(run_case, 20, 120); }
