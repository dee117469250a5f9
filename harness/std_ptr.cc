#include <mito/utilities.h>
#include <optional>
#include <set>
#include <unordered_set>
#include "vf.h"

// resources note when they end
static std::vector<int> alive;
static int made = 0;
struct Resource {
    int number, twice;
    Resource(int a, const int & b) : number(a), twice(b)
    {
        ++made;
        alive.push_back(a);
    }
    Resource(const Resource &) = delete;
    ~Resource()
    {
        auto i = std::find(alive.begin(), alive.end(), number);
        if (i == alive.end())
            alive.push_back(-number);
        else
            alive.erase(i);
        twice = 0;
    }
};
using ptr_t = mito::utilities::std_shared_ptr<const Resource>;

static void run_case(const vf::Case & c)
{
    constexpr int S = 4;
    alive.clear();
    made = 0;
    std::vector<std::optional<ptr_t>> slot(S);
    std::unordered_set<ptr_t, mito::utilities::hash_function<ptr_t>> kept;
    std::set<ptr_t> ranked;

    for (const auto & op : c.ops) {
        auto w = vf::words(op);
        std::vector<int> a;
        for (size_t i = 1; i < w.size(); ++i)
            a.push_back(vf::num(w[i]));
        auto sl = [&](int i) -> std::optional<ptr_t> & { return slot[a[i] - 1]; };
        if (w[0] == "make") {
            int k = made + 1;
            sl(0).emplace(k, 2 * k);
        } else if (w[0] == "copy") {
            const ptr_t & from = *sl(1);
            sl(0).emplace(from);
        } else if (w[0] == "move")
            sl(0).emplace(std::move(*sl(1)));
        else if (w[0] == "assign") {
            const ptr_t & from = *sl(1);
            *sl(0) = from;
        } else if (w[0] == "massign") {
            ptr_t & from = *sl(1);
            *sl(0) = std::move(from);
        } else if (w[0] == "drop")
            sl(0).reset();
        else if (w[0] == "keep")
            kept.insert(*sl(0));
        else if (w[0] == "forget")
            kept.erase(*sl(0));
        else if (w[0] == "rank")
            ranked.insert(*sl(0));
        else if (w[0] == "unrank")
            ranked.erase(*sl(0));
        else if (w[0] == "clear") {
            kept.clear();
            ranked.clear();
        }

        auto number = [](const ptr_t & p) {
            const Resource & r = *p.operator->();
            return p->twice == 2 * r.number ? p->number : -9;
        };
        std::vector<int> h, k, r;
        for (auto & s : slot)
            h.push_back(!s ? -1 : !s->operator->() ? 0 : number(*s));
        std::string same = "[", order = "[", found = "[";
        for (int i = 0; i < S; ++i) {
            std::vector<bool> row;
            std::vector<int> cmp;
            for (int j = 0; j < S; ++j) {
                bool both = h[i] > 0 && h[j] > 0;
                row.push_back(both && *slot[i] == *slot[j] && !(*slot[i] != *slot[j]) && slot[i]->id() == slot[j]->id());
                auto o = both ? *slot[i] <=> *slot[j] : std::strong_ordering::equal;
                cmp.push_back(o < 0 ? -1 : o > 0);
            }
            same += (i ? "," : "") + vf::Event::val(row);
            order += (i ? "," : "") + vf::Event::val(cmp);
            found += (i ? "," : "") + vf::Event::val(std::vector<bool>{ h[i] > 0 && kept.contains(*slot[i]), h[i] > 0 && ranked.contains(*slot[i]) });
        }
        for (const auto & p : kept)
            k.push_back(number(p));
        for (const auto & p : ranked)
            r.push_back(number(p));
        vf::Event e;
        e.put("op", w[0]).put("a", a).put("h", h).put("made", made).put("alive", alive).put("kept", k).put("ranked", r);
        e.raw("same", same + "]").raw("order", order + "]").raw("found", found + "]");
        e.emit();
    }
}

int main() { return vf::run(run_case, 2000, 120); }
