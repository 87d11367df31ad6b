// C14: concurrent draws from the shared generator are one seeded sequence.
#include "scn.h"
#include "ldaplusplus/utils.hpp"
using namespace sim;
using L::math_utils::ThreadSafePRNG;

namespace { struct Draw { uint64_t inv, ret; uint64_t v; int thread; }; }
template <typename G> static void c14() {
    int seed = (int)pick_w("seedkind", {3, 1}) ? (int)(derive("seed") & 0x7fffffff) : (int)pick("seed", 0, 20);
    int nt = (int)pick("threads", 1, 8), per = sized_pick("draws", 1, 6, 30, 200); int mode = (int)pick_w("copies", {2, 2, 2}); bool chain = pick_p("chain", 0.3), drop = pick_p("drop", 0.3);
    std::vector<Draw> all; uint64_t clock = 0;
    set_race_detection(true); default_schedule();
    std::unique_ptr<ThreadSafePRNG<G>> g; { Sut s; g.reset(new ThreadSafePRNG<G>(seed)); }
    if (ThreadSafePRNG<G>::min() != G::min() || ThreadSafePRNG<G>::max() != G::max()) fail("prng:range", "the generator reports another range than its engine");
    auto body = [&](ThreadSafePRNG<G> &p, int n) {
        Quiet q;
        for (int i = 0; i < n; i++) {
            Draw d; d.thread = self(); d.inv = ++clock;
            { Sut s; d.v = p(); }
            d.ret = ++clock; Oracle o; all.push_back(d);
        }
    };
    std::vector<std::thread> ts;
    // the handles: the object itself, copies made beforehand, or copies made by the threads
    for (int t = 0; t < nt; t++) {
        if (mode == 0) ts.emplace_back([&]() { body(*g, per); });
        else if (mode == 1) { auto mine = std::make_shared<ThreadSafePRNG<G>>(*g); ts.emplace_back([&, mine]() { body(*mine, per); }); }
        else ts.emplace_back([&]() { ThreadSafePRNG<G> mine(*g); body(mine, per / 2); if (chain) { ThreadSafePRNG<G> other(mine); body(other, per - per / 2); mine = other; } else body(*g, per - per / 2); });
    }
    body(*g, per / 3);
    if (drop && mode == 1) g.reset();      // the copies live on
    for (auto &t : ts) t.join();
    if (g) body(*g, 2);
    sequential_schedule();
    Oracle o; G ref(seed); size_t N = all.size(); std::multimap<uint64_t, size_t> where; std::vector<uint64_t> seq;
    for (size_t i = 0; i < N; i++) { uint64_t v = ref(); seq.push_back(v); where.insert({v, i}); }
    std::sort(all.begin(), all.end(), [](const Draw &a, const Draw &b) { return a.inv < b.inv; });
    std::vector<size_t> idx;
    for (auto &d : all) {
        auto it = where.find(d.v); if (it == where.end()) fail("prng:sequence", "%zu draws: value %lu is not one of the first %zu of the seeded sequence, or was handed out twice", N, (unsigned long)d.v, N);
        idx.push_back(it->second); where.erase(it);
        note("%d %lu", d.thread, (unsigned long)d.v);
    }
    bool dup = false; { std::vector<uint64_t> s2 = seq; std::sort(s2.begin(), s2.end()); dup = std::unique(s2.begin(), s2.end()) != s2.end(); }
    if (!dup) for (size_t i = 0; i < N; i++) {
        for (size_t j = i + 1; j < N; j++) if (all[i].ret < all[j].inv && idx[i] > idx[j]) fail("prng:order", "a draw that had returned got element %zu, a later one element %zu", idx[i], idx[j]);
    }
    probe(0);
}
SCENARIO("C14", c14_default_engine, 3) { c14<std::default_random_engine>(); }
SCENARIO("C14", c14_mt19937, 2) { c14<std::mt19937>(); }
