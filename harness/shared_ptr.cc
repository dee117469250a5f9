#include <mito/utilities.h>
#include <array>
#include <memory>
#include <optional>
#include "vf.h"

struct Resource : public mito::utilities::Shareable {
    int payload;
    Resource(int p) : payload(p) {}
};
using ptr_t = mito::utilities::shared_ptr<Resource>;

static void run_case(const vf::Case & c)
{
    constexpr int S = 4, R = 3;
    std::vector<std::unique_ptr<Resource>> res;
    for (int r = 1; r <= R; ++r)
        res.push_back(std::make_unique<Resource>(r));
    std::vector<std::optional<ptr_t>> slot(S);
    std::vector<std::vector<ptr_t>> crowd(R);

    for (const auto & op : c.ops) {
        auto w = vf::words(op);
        auto arg = [&](int i) { return vf::num(w[i]); };
        auto sl = [&](int i) -> std::optional<ptr_t> & { return slot[arg(i) - 1]; };
        if (w[0] == "wrap")
            sl(1).emplace(res[arg(2) - 1].get());
        else if (w[0] == "null")
            sl(1).emplace();
        else if (w[0] == "copy") {
            const ptr_t & from = *sl(2);
            sl(1).emplace(from);
        } else if (w[0] == "move")
            sl(1).emplace(std::move(*sl(2)));
        else if (w[0] == "assign") {
            const ptr_t & from = *sl(2);
            *sl(1) = from;
        } else if (w[0] == "massign") {
            ptr_t & from = *sl(2);
            *sl(1) = std::move(from);
        } else if (w[0] == "join") {
            const ptr_t & from = *sl(1);
            auto & all = crowd[from->payload - 1];
            for (int i = 0; i < arg(2); ++i)
                all.push_back(from);
        } else if (w[0] == "leave") {
            auto & all = crowd[arg(1) - 1];
            for (int i = 0; i < arg(2); ++i)
                all.pop_back();
        } else if (w[0] == "pull") {
            auto & all = crowd[arg(2) - 1];
            *sl(1) = std::move(all.back());
            all.pop_back();
        } else if (w[0] == "drop")
            sl(1).reset();

        std::vector<int> a, h, refs;
        for (size_t i = 1; i < w.size(); ++i)
            a.push_back(vf::num(w[i]));
        for (auto & s : slot) {
            if (!s) {
                h.push_back(-1);
                refs.push_back(-1);
            } else if (s->is_nullptr()) {
                h.push_back(0);
                refs.push_back(-1);
            } else {
                int p = (*s)->payload;
                bool ok = p >= 1 && p <= R && (*s).operator->() == res[p - 1].get();
                h.push_back(ok ? p : -2);
                refs.push_back(s->references());
            }
        }
        std::vector<int> in, said;
        for (auto & all : crowd) {
            in.push_back(all.size());
            said.push_back(all.empty() ? -1 : all.back().references());
        }
        std::string same = "[";
        for (int i = 0; i < S; ++i) {
            std::vector<bool> row;
            for (int j = 0; j < S; ++j) {
                bool both = h[i] > 0 && h[j] > 0;
                row.push_back(both && *slot[i] == *slot[j] && ((*slot[i] <=> *slot[j]) == 0)
                              && slot[i]->id() == slot[j]->id());
            }
            same += (i ? "," : "") + vf::Event::val(row);
        }
        same += "]";
        vf::Event e;
        e.put("op", w[0]).put("a", a).put("h", h).put("refs", refs).put("crowd", in).put("crefs", said).raw("same", same);
        e.emit();
    }
}

int main() { return vf::run(run_case, 2000, 120); }
