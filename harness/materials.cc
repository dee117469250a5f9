// elastic materials, against Materials.tla
#include <mito/materials.h>
#include <cmath>
#include "vf.h"

using namespace mito;
using matrix = tensor::matrix_t<3>;
constexpr int Q = 2;

static long whole(double v)
{
    return std::isfinite(v) && std::abs(v) < 2.1e9 && std::abs(v - std::round(v)) < 1e-4 * (1 + 1e-5 * std::abs(v)) ?
               std::lround(v) : 2147483647;
}

// a material that says something else in one component
template <class materialT>
struct Other {
    using deformation_gradient_type = matrix;
    using stress_type = matrix;
    using tangents_type = tensor::fourth_order_tensor_t<3>;
    const materialT & material;
    int stress_at, tangent_at;
    double by;
    auto energy(const matrix & F) const { return material.energy(F); }
    auto stress(const matrix & F) const
    {
        matrix P;
        const auto S = material.stress(F);
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j)
                P[{ i, j }] = S[{ i, j }] + (3 * i + j == stress_at ? by : 0);
        return P;
    }
    auto tangents(const matrix & F) const
    {
        auto C = material.tangents(F);
        if (tangent_at >= 0)
            C[{ tangent_at / 27, tangent_at / 9 % 3, tangent_at / 3 % 3, tangent_at % 3 }] += by;
        return C;
    }
};

static void run_case(const vf::Case & c)
{
    long M[3][3], lame[2] = { 1, 1 }, gent[3] = { 1, 1, 3 };
    auto rest = [&] {
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j)
                M[i][j] = i == j ? Q : 0;
    };
    rest();
    int step = 0;
    for (const auto & op : c.ops) {
        auto w = vf::words(op);
        std::vector<int> a;
        for (size_t i = 1; i < w.size(); ++i)
            a.push_back(vf::num(w[i]));
        vf::Event e;
        e.put("op", w[0]).put("a", a);
        e.emit();
        ++step;
        if (w[0] == "nudge")
            M[a[0] - 1][a[1] - 1] += a[2];
        else if (w[0] == "rotate") {
            long t[3][3] = {}, r[3][3] = {};
            int p = a[0] - 1, q = (p + 1) % 3, s = (p + 2) % 3;
            t[p][p] = 1;
            t[q][s] = -1;
            t[s][q] = 1;
            for (int i = 0; i < 3; ++i)
                for (int j = 0; j < 3; ++j)
                    for (int k = 0; k < 3; ++k)
                        r[i][j] += a[1] ? M[i][k] * t[k][j] : t[i][k] * M[k][j];
            std::memcpy(M, r, sizeof M);
        } else if (w[0] == "mirror") {
            for (auto & row : M)
                for (auto & x : row)
                    x = -x;
        } else if (w[0] == "flip") {
            for (int i = 0; i < 3; ++i)
                for (int j = 0; j < i; ++j)
                    std::swap(M[i][j], M[j][i]);
        } else if (w[0] == "rest")
            rest();
        else if (w[0] == "lame")
            std::copy(a.begin(), a.end(), lame);
        else if (w[0] == "gent")
            std::copy(a.begin(), a.end(), gent);

        matrix F;
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j)
                F[{ i, j }] = M[i][j] / double(Q);

        vf::Event t;
        t.put("op", "told");
        {
            double l = lame[0], m = lame[1];
            auto material = materials::linear_elastic(3.0 * step, m * (3 * l + 2 * m) / (l + m), l / (2 * (l + m)));
            t.put("energy", whole(8 * Q * Q * material.energy(F)));
            const auto S = material.stress(F);
            const auto C = material.tangents(F);
            std::vector<long> s, d;
            for (int i = 0; i < 3; ++i)
                for (int j = 0; j < 3; ++j) {
                    s.push_back(whole(2 * Q * S[{ i, j }]));
                    for (int k = 0; k < 3; ++k)
                        for (int n = 0; n < 3; ++n)
                            d.push_back(whole(C[{ i, j, k, n }]));
                }
            t.put("stress", s).put("moduli", d);
            // (the numbers it is made with may go before it)
            auto test = materials::consistency_test(material, 1e-3, 1e-9 * (1 + step % 2));
            t.put("consistent", test.test_stress(F) && test.test_tangents(F));
            bool strict = true;
            for (int x = step % 4; x < 81; x += 4) {
                auto other = Other<decltype(material)>{ material, x % 9, x, step % 2 ? 0.01 : -0.01 };
                auto check = materials::consistency_test(other, 1e-3, 1e-9);
                strict = strict && !check.test_stress(F) && !check.test_tangents(F);
            }
            t.put("strict", strict);
        }
        {
            double k = gent[0], m = gent[1], Jm = gent[2];
            long det = M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1]) - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0])
                     + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0]);
            long room = (gent[2] + 3) * Q * Q;
            for (auto & row : M)
                for (auto x : row)
                    room -= x * x;
            bool bears = det > 0 && room > 0;
            t.put("bears", bears);
            if (bears) {
                double J = det / std::pow(Q, 3), A = (J * J - 1) / 2 - std::log(J);
                bool isochoric = det == Q * Q * Q;
                auto both = materials::gent(1, k, m, Jm);
                auto bulk = materials::gent(1.0 + step, k, 0, Jm);
                auto shear = materials::gent(0.5, 0, m, Jm);
                double wm = shear.energy(F), wk = bulk.energy(F);
                t.put("room", whole(Q * Q * Jm * std::exp((-2 * wm / m - 2 * std::log(J)) / Jm)));
                t.put("isochoric", isochoric);
                t.put("quartic", whole(isochoric ? 1e6 * wk : 1e6 * 2 * wk / k / std::pow(A, 4)));
                const auto S = both.stress(F), Sk = bulk.stress(F), Sm = shear.stress(F);
                const auto T = both.tangents(F), Tk = bulk.tangents(F), Tm = shear.tangents(F);
                bool additive = std::abs(both.energy(F) - wm - wk) < 1e-9 * (1 + std::abs(wm) + std::abs(wk));
                std::vector<long> smu, skappa, tmu, tkappa;
                for (int i = 0; i < 3; ++i)
                    for (int b = 0; b < 3; ++b) {
                        double sm = 0, sk = 0;
                        for (int n = 0; n < 3; ++n) {
                            sm += Sm[{ i, n }] * F[{ b, n }];
                            sk += Sk[{ i, n }] * F[{ b, n }];
                        }
                        additive = additive && std::abs(S[{ i, b }] - Sm[{ i, b }] - Sk[{ i, b }]) < 1e-8 * (1 + std::abs(S[{ i, b }]));
                        smu.push_back(whole(sm / m * room));
                        skappa.push_back(whole(isochoric ? 1e3 * sk : sk / k / std::pow(A, 3) * std::pow(Q, 6)));
                        for (int p = 0; p < 3; ++p)
                            for (int d = 0; d < 3; ++d) {
                                double tm = 0, tk = 0;
                                for (int n = 0; n < 3; ++n)
                                    for (int o = 0; o < 3; ++o) {
                                        tm += Tm[{ i, n, p, o }] * F[{ b, n }] * F[{ d, o }];
                                        tk += Tk[{ i, n, p, o }] * F[{ b, n }] * F[{ d, o }];
                                    }
                                double sum = T[{ i, b, p, d }] - Tm[{ i, b, p, d }] - Tk[{ i, b, p, d }];
                                additive = additive && std::abs(sum) < 1e-8 * (1 + std::abs(T[{ i, b, p, d }]));
                                tmu.push_back(whole(tm / m * room * room));
                                double r = isochoric ? 1e3 * tk : tk / k / A / A * std::pow(Q, 12);
                                tkappa.push_back(std::abs(r) < 2e9 ? std::lround(r) : 2147483647);
                            }
                    }
                t.put("smu", smu).put("skappa", skappa).put("tmu", tmu).put("tkappa", tkappa);
                t.put("A", std::lround(1000 * A)).put("additive", additive);
                auto test = materials::consistency_test(both, 1e-5, 2e-8 * (k + m));
                t.put("gentconsistent", room < Q * Q || (test.test_stress(F) && test.test_tangents(F)));
            }
        }
        t.emit();
    }
}

int main() { return vf::run(run_case, 1, 120); }
