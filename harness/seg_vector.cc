#include <mito/utilities.h>
#include <memory>
#include <optional>
#include "vf.h"

static std::vector<int> died;
static int created = 0;

// objects are numbered as they are constructed
struct Resource : public mito::utilities::Invalidatable {
    int number;
    long guard;
    std::unique_ptr<int> owned;    // a double destruction is also a double free
    Resource(int) : number(++created), guard(0x600dL), owned(new int(number)) {}
    ~Resource()
    {
        died.push_back(guard == 0x600dL ? number : -number);
        guard = 0xdeadL;
    }
};
using vector_t = mito::utilities::segmented_vector_t<Resource>;

struct Container {
    std::unique_ptr<vector_t> v;
    std::vector<Resource *> address;    // of each slot, when first used
};

static int read(const Resource * r)
{
    // an object that is there and intact
    return (r->guard == 0x600dL && *r->owned == r->number) ? r->number : -1;
}

static void run_case(const vf::Case & c)
{
    constexpr int K = 2;
    created = 0;
    died.clear();
    std::vector<Container> cont(K);
    for (const auto & op : c.ops) {
        auto w = vf::words(op);
        auto arg = [&](int i) { return vf::num(w[i]); };
        vf::Event e;
        std::vector<int> a;
        for (size_t i = 1; i < w.size(); ++i)
            a.push_back(vf::num(w[i]));
        e.put("op", w[0]).put("a", a);
        died.clear();
        auto & x = cont[arg(1) - 1];
        if (w[0] == "new") {
            x.v = std::make_unique<vector_t>(arg(2));
            x.address.clear();
        } else if (w[0] == "emplace") {
            Resource & r = x.v->emplace(7);
            int slot = 0;
            for (size_t i = 0; i < x.address.size(); ++i)
                if (x.address[i] == &r)
                    slot = static_cast<int>(i) + 1;
            if (slot == 0) {
                x.address.push_back(&r);
                slot = static_cast<int>(x.address.size());
            }
            e.put("slot", slot);
        } else if (w[0] == "erase") {
            bool ret = x.v->erase(*x.address.at(arg(2) - 1));
            e.put("ret", ret);
        } else if (w[0] == "eraseif") {
            for (auto & r : *x.v) {
                if (r.number % arg(2) == arg(3))
                    x.v->erase(r);
            }
        } else if (w[0] == "burst") {
            for (int n = 0; n < arg(2); ++n)
                x.address.push_back(&x.v->emplace(7));
        } else if (w[0] == "range") {
            for (int n = arg(2); n <= arg(3); ++n)
                x.v->erase(*x.address.at(n - 1));
        } else if (w[0] == "move") {
            auto & y = cont[arg(2) - 1];
            y.v = std::make_unique<vector_t>(std::move(*x.v));
            y.address = x.address;
            x.address.clear();
        } else if (w[0] == "destroy") {
            x.v.reset();
            x.address.clear();
        }
        e.put("died", died);
        std::string all = "[";
        for (int k = 0; k < K; ++k) {
            std::string s = k ? ",{" : "{";
            auto & y = cont[k];
            if (!y.v) {
                all += s + "\"gone\":true}";
                continue;
            }
            const vector_t & cv = *y.v;
            std::vector<int> iter, post, arrow, at, kept;
            size_t limit = y.address.size() + 5;
            for (const auto & r : cv) {
                iter.push_back(read(&r));
                if (iter.size() > limit)
                    break;
            }
            for (auto it = cv.begin(); it != cv.end();) {
                auto here = it++;
                post.push_back(read(&*here));
                if (post.size() > limit)
                    break;
            }
            for (auto it = y.v->begin(); !(it == y.v->end()); ++it) {
                arrow.push_back(read(it.operator->()));
                if (arrow.size() > limit)
                    break;
            }
            for (size_t i = 0; i < y.address.size(); ++i) {
                const Resource & r = cv[static_cast<int>(i)];
                const Resource & r2 = (*y.v)[static_cast<int>(i)];
                at.push_back(!r.is_valid() ? 0 : (&r == &r2 ? read(&r) : -2));
                kept.push_back(!y.address[i]->is_valid() ? 0 : read(y.address[i]));
            }
            s += "\"gone\":false,\"size\":" + std::to_string(cv.size())
               + ",\"capacity\":" + std::to_string(cv.capacity())
               + ",\"iter\":" + vf::Event::val(iter) + ",\"post\":" + vf::Event::val(post)
               + ",\"arrow\":" + vf::Event::val(arrow) + ",\"at\":" + vf::Event::val(at)
               + ",\"kept\":" + vf::Event::val(kept) + "}";
            all += s;
        }
        all += "]";
        e.raw("c", all);
        e.emit();
    }
}

int main()
{
    // iterations must not take stack in proportion to the container
    struct rlimit stack = { 256 * 1024, 256 * 1024 };
    ::setrlimit(RLIMIT_STACK, &stack);
    return vf::run(run_case, 500, 120);
}
