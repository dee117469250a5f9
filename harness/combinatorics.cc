// signs of permutations
#include <algorithm>
#include <array>
#include <cassert>
#include <string>
#include <vector>
#include <mito/math.h>
#include "vf.h"

using namespace mito;

template <int N, class F>
static auto as_array(const std::vector<int> & v, F f)
{
    std::array<decltype(f(0)), N> r;
    for (int i = 0; i < N; ++i)
        r[i] = f(v[i]);
    return r;
}

constexpr int MAX = 8;

template <class F>
static void with_size(size_t n, F f)
{
    [&]<int... I>(std::integer_sequence<int, I...>) {
        ((n == I + 1 ? (f(std::integral_constant<int, I + 1>{}), 0) : 0), ...);
    }(std::make_integer_sequence<int, MAX>{});
}

static std::string word(int x) { return "element number " + std::to_string(x); }

static void run_case(const vf::Case & c)
{
    std::vector<int> ref { 1 }, cur { 1 };
    for (const auto & op : c.ops) {
        auto w = vf::words(op);
        std::vector<int> a;
        for (size_t i = 1; i < w.size(); ++i)
            a.push_back(vf::num(w[i]));
        vf::Event e;
        e.put("op", w[0]).put("a", a);
        std::vector<int> swaps, sign;
        std::vector<bool> same;
        auto compare = [&](const auto & x, const auto & y) {
            same.push_back(math::same_elements(x, y));
            // the lists are left alone
            if (w[0] != "same") {
                sign.push_back(math::permutation_sign(x, y));
                swaps.push_back(math::swap_sort(x, y));
            }
        };
        auto all = [&](const std::vector<int> & x, const std::vector<int> & y) {
            compare(x, y);
            with_size(x.size(), [&](auto n) {
                constexpr int N = decltype(n)::value;
                auto id = [](int k) { return k; };
                compare(as_array<N>(x, id), as_array<N>(y, id));
                compare(as_array<N>(x, word), as_array<N>(y, word));
            });
        };
        if (w[0] == "begin")
            ref = cur = a;
        else if (w[0] == "swap")
            std::swap(cur[a[0] - 1], cur[a[1] - 1]);
        else if (w[0] == "rotate")
            std::rotate(cur.begin(), cur.begin() + 1, cur.end());
        else if (w[0] == "rebase")
            std::swap(ref, cur);
        if (w[0] == "same")
            all(std::vector<int>(a.begin(), a.begin() + a.size() / 2),
                std::vector<int>(a.begin() + a.size() / 2, a.end()));
        else
            all(cur, ref);
        e.put("sign", sign).put("swaps", swaps).put("same", same);
        e.emit();
    }
}

int main() { return vf::run(run_case, 50, 120); }
