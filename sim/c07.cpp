// C07: failures in callbacks, steps, corpora, thread creation and memory are contained.
#include "spy.h"
using namespace sim;

namespace {
struct Boom { int n; };
struct Odd : std::exception { int n; Odd(int x) : n(x) {} const char *what() const noexcept override { return "odd"; } };
inline std::string boom(int n) { return "boom " + std::to_string(n); }
struct Bomb {       // throws at the n-th .. (n+len-1)-th passage
    int at = -1, len = 1, seen = 0, kind = 0; std::vector<int> thrown;
    void arm(int a, int l, int k) { at = a; len = l; seen = 0; kind = k; thrown.clear(); }
    void disarm() { at = -1; }
    void pass() { int n; { Quiet q; n = seen++; if (at < 0 || n < at || n >= at + len) return; Oracle o; thrown.push_back(n); } if (kind == 0) throw Boom{n}; if (kind == 1) throw std::runtime_error(boom(n)); if (kind == 2) throw n; if (kind == 3) throw std::out_of_range(boom(n)); if (kind == 4) throw std::invalid_argument(boom(n)); if (kind == 5) throw Odd(n); if (kind == 6) throw std::bad_alloc(); throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again), boom(n)); }
};
struct Bombs { Bomb lis, max, edoc, mdoc, mstep, estep, at; };
template <typename S> struct BombE : L::em::EStepInterface<S> {
    EStepP<S> in; Bombs *b; BombE(EStepP<S> i, Bombs *bb) : in(i), b(bb) {}
    ParamP doc_e_step(const std::shared_ptr<L::corpus::Document> d, const ParamP p) override { b->edoc.pass(); return in->doc_e_step(d, p); }
    void e_step() override { b->estep.pass(); in->e_step(); }
};
template <typename S> struct BombM : L::em::MStepInterface<S> {
    // mirror: a second step that is given the same documents and never meets a failure. A failure outside the
    // step, or a listener failing inside it, must not make the two differ; after a failed allocation inside the
    // step nothing more is compared.
    MStepP<S> in, mirror; Bombs *b; bool tainted = false, online; uint64_t compared = 0; BombM(MStepP<S> i, Bombs *bb, MStepP<S> mir, bool on) : in(i), mirror(mir), b(bb), online(on) {}
    static uint64_t allocs() { return sh->fault_fired[K_ALLOC]; }
    void run(const std::shared_ptr<L::corpus::Document> d, const ParamP v, ParamP m, bool end) {
        SModelP<S> want; { Oracle o; if (!tainted) { want = copy_model(*std::static_pointer_cast<SModel<S>>(m)); if (end) mirror->m_step(want); else mirror->doc_m_step(d, v, want); } }
        uint64_t a0 = allocs();
        try { if (end) in->m_step(m); else in->doc_m_step(d, v, m); } catch (...) { Oracle o; if (allocs() != a0) tainted = true; throw; }
        Oracle o; if (allocs() != a0) tainted = true;
        if (!want || tainted || !(end || online)) return;
        if (!model_bits_equal(*want, *std::static_pointer_cast<SModel<S>>(m))) fail("contained:model", "after a failure the maximisation gives another model than the documents it consumed give (difference %g)", model_diff(*want, *std::static_pointer_cast<SModel<S>>(m)));
        compared++;
    }
    void doc_m_step(const std::shared_ptr<L::corpus::Document> d, const ParamP v, ParamP m) override { b->mdoc.pass(); run(d, v, m, false); }
    void m_step(ParamP m) override { b->mstep.pass(); run(nullptr, nullptr, m, true); }
};
// a corpus of the user that may fail
struct BombCorpus : L::corpus::ClassificationCorpus {
    L::corpus::EigenClassificationCorpus in; Bombs *b; BombCorpus(const Data &d, Bombs *bb) : in(d.X, d.y, 1), b(bb) {}
    size_t size() const override { return in.size(); }
    const std::shared_ptr<L::corpus::Document> at(size_t i) const override { b->at.pass(); return in.at(i); }
    void shuffle() override { in.shuffle(); }
    float get_prior(int y) const override { return in.get_prior(y); }
};
enum Fault { F_LISTENER, F_EDOC, F_MDOC, F_MSTEP, F_ESTEP, F_CORPUS, F_ALLOC, F_THREAD, F_MAX, NFAULTS };
const char *fault_names[] = {"listener", "inference step", "maximisation step", "end of the maximisation", "end of the expectation", "corpus", "allocation", "thread creation", "maximisation listener"};
}
template <typename S> static void c07() {
    ConfLimits lim; lim.docs_large = 40; lim.iters = 2; Conf c = pick_conf(ALL_VARIANTS, lim);
    auto model = gen_model<S>("m", c); bool sup = c.supervised();
    Ledger<S> led(c, *model); Bombs bombs;
    auto ie = make_e<S>(c); auto im = make_m<S>(c);
    auto se = std::make_shared<SpyE<S>>(ie, &led); auto sm = std::make_shared<SpyM<S>>(im, &led);
    auto lda = make_lda<S>(c, *model, EStepP<S>(std::make_shared<BombE<S>>(se, &bombs)), MStepP<S>(std::make_shared<BombM<S>>(sm, &bombs, make_m<S>(c), c.variant == ref::ONLINE)));
    ie->set_event_dispatcher(lda->get_event_dispatcher()); im->set_event_dispatcher(lda->get_event_dispatcher());
    int ev_e = 0, ev_p = 0;
    auto listener = lda->get_event_dispatcher()->add_listener([&](EventP e) { { Quiet q; if (e->id() == "ExpectationProgressEvent") ev_e++; else if (e->id() == "EpochProgressEvent") ev_p++; } bombs.lis.pass(); if (e->id() == "MaximizationProgressEvent") bombs.max.pass(); });
    // the harness keeps a second listener that never fails
    int n2 = 0; auto l2 = lda->get_event_dispatcher()->add_listener([&](EventP) { Quiet q; n2++; });
    int ops = (int)pick("ops", 1, 4);
    struct Op { int kind; Data d; int fault, at, len, ex; };      // kind 0 fit 1 partial_fit(corpus of the user) 2 transform
    std::vector<Op> plan;
    for (int i = 0; i < ops; i++) {
        std::string t = std::to_string(i); Op o;
        o.kind = (int)pick_w(("op" + t).c_str(), {3, 3, c.variant == ref::UNSUP ? 4 : 0});
        o.d = gen_data("d" + t, i == 0 ? c.D : (int)pick(("docs" + t).c_str(), 1, 14), c.V, c.C, c.data_flags());
        bool faulty = i + 1 < ops || ops == 1 ? pick_p(("faulty" + t).c_str(), 0.8) : false;
        o.fault = faulty ? (int)pick_w(("fault" + t).c_str(), {3, 3, 3, 1, 1, 2, 5, 3, sup ? 2 : 0}) : -1;
        int hi = o.fault == F_ALLOC ? 400 : o.fault == F_THREAD ? (int)c.workers * (o.kind == 0 ? (int)c.iters : 1) - 1 : o.fault == F_MAX ? 6 : o.fault == F_MSTEP || o.fault == F_ESTEP ? (o.kind == 0 ? (int)c.iters - 1 : 0) : o.d.docs() * (o.kind == 0 ? (int)c.iters : 1);
        o.at = (int)pick(("at" + t).c_str(), 0, std::max(hi, 0)); o.len = pick_p(("many" + t).c_str(), 0.3) ? 1000000 : 1; o.ex = (int)pick(("ex" + t).c_str(), 0, 7);
        plan.push_back(o);
    }
    default_schedule();
    for (int i = 0; i < ops; i++) {
        Op &o = plan[i]; bool infer = o.kind == 2; Bomb *bomb = nullptr;
        switch (o.fault) { case F_LISTENER: bomb = &bombs.lis; break; case F_MAX: bomb = &bombs.max; break; case F_EDOC: bomb = &bombs.edoc; break; case F_MDOC: bomb = &bombs.mdoc; break; case F_MSTEP: bomb = &bombs.mstep; break; case F_ESTEP: bomb = &bombs.estep; break; case F_CORPUS: bomb = &bombs.at; break; }
        { Oracle q; if (bomb) bomb->arm(o.at, o.len, o.ex); led.infer = infer; led.infer_calls = 0; ev_e = ev_p = 0;
          if (!led.epochs.back().e.empty() || !led.epochs.back().m.empty()) { led.epochs.back().keep.clear(); led.epochs.back() = typename Ledger<S>::Epoch(); }
          led.cur = copy_model(*model_of(*lda)); led.epochs.back().start = copy_model(*led.cur); }
        size_t epochs0 = led.epochs.size() - 1;
        uint64_t fired0 = sh->fault_fired[K_ALLOC] + sh->fault_fired[K_THREAD];
        if (o.fault == F_ALLOC) set_fault_at(K_ALLOC, fault_index(K_ALLOC) + o.at, 1);
        if (o.fault == F_THREAD) set_fault_at(K_THREAD, fault_index(K_THREAD) + o.at, 1);
        std::shared_ptr<L::corpus::Corpus> cp; if (o.kind == 1) cp = std::make_shared<BombCorpus>(o.d, &bombs);
        bool threw = false, original = false; Mat<S> out; std::string what;
        try { Sut s; if (o.kind == 0) train(*lda, o.d, c); else if (o.kind == 1) lda->partial_fit(cp); else out = lda->transform(o.d.X); }
        catch (Boom &b) { threw = true; Oracle q; if (bomb) for (int n : bomb->thrown) original |= n == b.n && bomb->kind == 0; what = "Boom"; }
        catch (int n) { threw = true; Oracle q; if (bomb) for (int k : bomb->thrown) original |= n == k && bomb->kind == 2; what = "int"; }
        catch (std::bad_alloc &) { threw = true; original = o.fault == F_ALLOC; Oracle q; if (bomb) original |= bomb->kind == 6 && !bomb->thrown.empty(); what = "bad_alloc"; }
        catch (std::system_error &e) { threw = true; original = o.fault == F_THREAD || o.fault == F_ALLOC; Oracle q; if (bomb) for (int n : bomb->thrown) original |= bomb->kind == 7 && std::string(e.what()).find(boom(n)) == 0; what = e.what(); }
        catch (Odd &e) { threw = true; Oracle q; if (bomb) for (int n : bomb->thrown) original |= n == e.n && bomb->kind == 5; what = "Odd"; }
        catch (std::out_of_range &e) { threw = true; Oracle q; if (bomb) for (int n : bomb->thrown) original |= bomb->kind == 3 && e.what() == boom(n); what = e.what(); }
        catch (std::invalid_argument &e) { threw = true; Oracle q; if (bomb) for (int n : bomb->thrown) original |= bomb->kind == 4 && e.what() == boom(n); what = e.what(); }
        catch (std::exception &e) { threw = true; Oracle q; if (bomb) for (int n : bomb->thrown) original |= bomb->kind == 1 && typeid(e) == typeid(std::runtime_error) && e.what() == boom(n); what = e.what(); }
        Oracle q;
        bool fired = bomb ? !bomb->thrown.empty() : sh->fault_fired[K_ALLOC] + sh->fault_fired[K_THREAD] > fired0;
        if (bomb) bomb->disarm();
        clear_planned_faults();
        const char *fn = o.fault < 0 ? "none" : fault_names[o.fault];
        check_threads("failed call");
        if (fired && !threw && o.fault != F_ALLOC) fail("contained:silent", "a failing %s was not reported to the caller", fn);
        if (threw && !fired) fail("contained:spurious", "nothing failed but the call threw %s", what.c_str());
        if (threw && !original) fail("contained:other", "a failing %s was reported as another exception (%s)", fn, what.c_str());
        if (fired) probe(o.fault == F_MAX ? 12 : 1 + o.fault);
        note("op %d fault %d fired %d threw %d", o.kind, o.fault, fired, threw);
        if (threw) continue;
        // a call that returned normally has done its own work and only that
        int calls = o.kind == 0 ? (int)c.iters : 1; auto want = doc_count(o.d, sup);
        if (infer) {
            if (led.infer_calls != o.d.docs()) fail("contained:documents", "inference of %d documents after a failure ran inference %d times", o.d.docs(), led.infer_calls);
            Conf c1 = c; c1.workers = 1; auto fresh = make_lda<S>(c1, *model_of(*lda)); Mat<S> exp = fresh->transform(o.d.X);
            if (!bits_equal(out, exp)) fail("contained:inference", "inference after a failure differs from inference on a fresh object with the same model");
            if (ev_e != o.d.docs()) fail("contained:events", "inference of %d documents after a failure delivered %d expectation events", o.d.docs(), ev_e);
            probe(10);
        } else {
            if (led.epochs.size() - 1 - epochs0 != (size_t)calls) fail("contained:epochs", "%d epochs after a failure were finished %d times", calls, (int)(led.epochs.size() - 1 - epochs0));
            for (size_t k = epochs0; k + 1 < led.epochs.size(); k++) {
                std::map<DocKey, int> e, m; for (auto &x : led.epochs[k].e) e[x.key]++; for (auto &x : led.epochs[k].m) m[x.key]++;
                if (e != want || m != want) fail("contained:documents", "an epoch after a failure processed %d and consumed %d documents of a corpus of %d, or other documents", (int)led.epochs[k].e.size(), (int)led.epochs[k].m.size(), o.d.docs());
            }
            if (ev_e != calls * o.d.docs() || ev_p != calls) fail("contained:events", "%d epochs over %d documents after a failure delivered %d expectation and %d epoch events", calls, o.d.docs(), ev_e, ev_p);
            probe(11);
        }
    }
    { Sut s; lda.reset(); }
    check_threads("destruction"); sequential_schedule();
}
SCENARIO("C07", c07_double, 2) { c07<double>(); }
SCENARIO("C07", c07_float, 1) { c07<float>(); }
