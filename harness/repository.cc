#include <mito/utilities.h>
#include <memory>
#include <map>
#include "vf.h"

static std::vector<int> died;
static int created = 0;

struct Resource : public mito::utilities::Shareable {
    int number;
    long guard;
    std::unique_ptr<int> owned;    // a double destruction is also a double free
    Resource(int) : number(++created), guard(0x600dL), owned(new int(number)) {}
    ~Resource()
    {
        died.push_back(guard == 0x600dL ? number : -number);
        guard = 0xdeadL;
    }
};
using ptr_t = mito::utilities::shared_ptr<Resource>;
using repo_t = mito::utilities::repository_t<ptr_t>;

static int read(const Resource * r)
{
    return (r->guard == 0x600dL && *r->owned == r->number) ? r->number : -1;
}

static void run_case(const vf::Case & c)
{
    constexpr int H = 6;
    created = 0;
    died.clear();
    std::unique_ptr<repo_t> repo;
    std::vector<Resource *> address;
    std::map<int, mito::utilities::index_t<Resource>> id;
    std::vector<ptr_t> h(H);
    const ptr_t null;
    for (const auto & op : c.ops) {
        auto w = vf::words(op);
        auto arg = [&](int i) { return vf::num(w[i]); };
        vf::Event e;
        std::vector<int> a;
        for (size_t i = 1; i < w.size(); ++i)
            a.push_back(vf::num(w[i]));
        e.put("op", w[0]).put("a", a);
        died.clear();
        if (w[0] == "new") {
            repo = std::make_unique<repo_t>(arg(1));
            address.clear();
        } else if (w[0] == "emplace") {
            h[arg(1) - 1] = repo->emplace(7);
            Resource * r = h[arg(1) - 1].operator->();
            int slot = 0;
            for (size_t i = 0; i < address.size(); ++i)
                if (address[i] == r)
                    slot = static_cast<int>(i) + 1;
            if (slot == 0) {
                address.push_back(r);
                slot = static_cast<int>(address.size());
            }
            id[r->number] = h[arg(1) - 1].id();
            e.put("slot", slot);
        } else if (w[0] == "drop") {
            h[arg(1) - 1] = null;
        } else if (w[0] == "copy") {
            const ptr_t & from = h[arg(2) - 1];
            h[arg(1) - 1] = from;
        } else if (w[0] == "lookup") {
            h[arg(1) - 1] = repo_t::resource(id.at(arg(2)));
        } else if (w[0] == "take") {
            int n = 0;
            for (auto it = repo->begin(); it != repo->end(); ++it)
                if (++n == arg(2)) {
                    h[arg(1) - 1] = *it;
                    break;
                }
        } else if (w[0] == "erase") {
            bool ret = repo->erase(h[arg(1) - 1]);
            e.put("ret", ret);
        } else if (w[0] == "destroy") {
            for (auto & p : h)
                p = null;
            repo.reset();
        }
        e.put("died", died).put("gone", !repo);
        std::vector<int> hs, refs;
        for (auto & p : h) {
            hs.push_back(p.is_nullptr() ? 0 : read(p.operator->()));
            refs.push_back(p.is_nullptr() ? 0 : p.references());
        }
        e.put("h", hs).put("refs", refs);
        if (repo) {
            std::vector<int> iter, post, byid;
            size_t limit = address.size() + 5;
            for (const auto & r : *repo) {
                iter.push_back(read(r.operator->()));
                byid.push_back(read(repo_t::resource(r.id()).operator->()));
                if (iter.size() > limit)
                    break;
            }
            for (auto it = repo->begin(); !(it == repo->end());) {
                auto here = it++;
                post.push_back(read((*here).operator->()));
                if (post.size() > limit)
                    break;
            }
            e.put("size", repo->size()).put("capacity", repo->capacity());
            e.put("iter", iter).put("post", post).put("byid", byid);
        }
        e.emit();
    }
    for (auto & p : h)
        p = null;
}

int main() { return vf::run(run_case, 500, 120); }
