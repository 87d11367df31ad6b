// C03: progress events, exactly once, in order, on the caller's thread.
#include "spy.h"
using namespace sim;

struct Ev { char kind; double lik; int thread; const void *model; uint64_t seq; };
template <typename S> struct Log {
    std::vector<Ev> ev; std::vector<SModelP<S>> models;
    void take(const EventP &e) {
        Oracle o; Ev x{'?', 0, self(), nullptr, event_seq()};
        if (e->id() == "ExpectationProgressEvent") { x.kind = 'E'; x.lik = (double)std::static_pointer_cast<L::events::ExpectationProgressEvent<S>>(e)->likelihood(); }
        else if (e->id() == "MaximizationProgressEvent") { x.kind = 'M'; x.lik = (double)std::static_pointer_cast<L::events::MaximizationProgressEvent<S>>(e)->likelihood(); }
        else if (e->id() == "EpochProgressEvent") { x.kind = 'P'; auto m = std::static_pointer_cast<L::events::EpochProgressEvent<S>>(e)->model_parameters(); x.model = m.get(); models.push_back(copy_model(*std::static_pointer_cast<SModel<S>>(m))); }
        ev.push_back(x);
    }
};
template <typename S> struct LogListener : L::events::EventListenerInterface { Log<S> *l; int lag; LogListener(Log<S> *ll, int g) : l(ll), lag(g) {} void on_event(EventP e) override { l->take(e); for (int i = 0; i < lag; i++) yield_point(); } };

// one epoch's events of one listener; `pos` is moved behind them
template <typename S> struct EpochCheck { const Conf &c; int carry; };
static bool in_sorted(const std::vector<double> &v, double x) { return std::binary_search(v.begin(), v.end(), x); }

template <typename S> static void c03() {
    ConfLimits lim; lim.long_fits = true; lim.no_iteration = true; lim.docs_large = 60; Conf c = pick_conf(ALL_VARIANTS, lim);
    bool elsewhere = pick_p("caller_thread", 0.25);
    auto model = gen_model<S>("m", c);
    int nops = (int)pick("ops", 1, 4);
    std::vector<Data> data; std::vector<int> op;
    for (int i = 0; i < nops; i++) {
        std::string t = "d" + std::to_string(i); int D = i == 0 ? c.D : (int)pick(("docs" + t).c_str(), 1, 12);
        data.push_back(gen_data(t, D, c.V, c.C, c.data_flags())); op.push_back((int)pick_w(("op" + t).c_str(), {3, 3, c.variant == ref::UNSUP ? 3 : 0, 1}));
    }
    int nl = (int)pick("listeners", 1, 3);
    struct Reg { Log<S> log; std::shared_ptr<L::events::EventListenerInterface> h; bool on = false; int first_epoch = 0; };
    std::vector<Reg> regs(nl + 1);   // the last one is for the harness itself: always registered, keeps the models
    struct OpRec { int op, data, epochs; std::vector<int> from, to; std::vector<bool> on; int first_epoch; };
    std::vector<OpRec> recs; SModelP<S> final_model; const void *model_ptr = nullptr; int caller = -1, epochs = 0;
    std::vector<int> plan;   // listener changes before each op
    for (int i = 0; i < nops; i++) for (int k = 0; k < nl; k++) plan.push_back((int)pick_w(("reg" + std::to_string(i) + "." + std::to_string(k)).c_str(), {i == 0 ? 1 : 4, i == 0 ? 6 : 2}));
    int lag = (int)pick("lag", 0, 3);
    default_schedule();
    auto body = [&]() {
        caller = self();
        auto lda = make_lda<S>(c, *model);
        auto disp = lda->get_event_dispatcher(); model_ptr = lda->model_parameters().get();
        regs[nl].h = disp->add_listener([&](EventP e) { regs[nl].log.take(e); }); regs[nl].on = true;
        for (int i = 0; i < nops; i++) {
            for (int k = 0; k < nl; k++) if (plan[i * nl + k]) {
                Reg &r = regs[k];
                if (r.on) { disp->remove_listener(r.h); r.on = false; }
                else { if (!r.h) { Log<S> *lp = &r.log; if (k % 2) r.h = disp->template add_listener<LogListener<S>>(lp, lag); else r.h = disp->add_listener([lp](EventP e) { lp->take(e); }); } else disp->add_listener(r.h); r.on = true; }
            }
            OpRec rec; { Oracle o; rec.op = op[i]; rec.data = i; rec.first_epoch = epochs; rec.epochs = op[i] == 0 ? (int)c.iters : op[i] == 2 ? 0 : op[i] == 3 ? 2 : 1; for (auto &r : regs) { rec.from.push_back((int)r.log.ev.size()); rec.on.push_back(r.on); } }
            epochs += rec.epochs;
            if (op[i] == 0) { Sut s; train(*lda, data[i], c); }
            else if (op[i] == 1) { Sut s; train_epoch(*lda, data[i], c); }
            else if (op[i] == 2) { Sut s; lda->transform(data[i].X); }
            else { std::shared_ptr<L::corpus::Corpus> cp; if (c.variant == ref::UNSUP) cp = std::make_shared<L::corpus::EigenCorpus>(data[i].X, 3); else cp = std::make_shared<L::corpus::EigenClassificationCorpus>(data[i].X, data[i].y, 3); for (int k = 0; k < 2; k++) { Sut s; lda->partial_fit(cp); } }
            Oracle o; for (auto &r : regs) rec.to.push_back((int)r.log.ev.size()); recs.push_back(rec);
            if (rec.epochs) final_model = copy_model(*model_of(*lda));
        }
    };
    if (elsewhere) { std::thread t([&]() { Quiet q; body(); }); t.join(); } else body();
    check_threads("training");
    sequential_schedule();
    Oracle o;
    // models at the start of each epoch, from the harness' own listener
    std::vector<SModelP<S>> start; start.push_back(copy_model(*model)); for (auto &m : regs[nl].log.models) start.push_back(m);
    if ((int)start.size() != epochs + 1) fail("events:epoch", "%d epochs were trained and %d epoch events delivered", epochs, (int)start.size() - 1);
    if (final_model && !model_bits_equal(*start.back(), *final_model)) fail("events:model", "the last epoch event does not carry the trained model");
    for (int k = 0; k <= nl; k++) {
        auto &lg = regs[k].log; int at = 0, carry = 0; size_t mi = 0;
        for (auto &r : recs) {
            int D = data[r.data].docs(); const Data &d = data[r.data];
            if (lg.ev.size() && r.from[k] != at) fail("events:late", "listener %d got %d events between two calls", k, r.from[k] - at);
            at = r.to[k];
            if (!r.on[k]) { if (r.to[k] != r.from[k]) fail("events:unregistered", "listener %d got %d events while not registered", k, r.to[k] - r.from[k]); if (c.variant == ref::ONLINE) carry = (carry + D * r.epochs) % c.batch; continue; }
            int p = r.from[k];
            for (int i = p; i < r.to[k]; i++) if (lg.ev[i].thread != caller) fail("events:thread", "an event was delivered on thread t%d, the caller is t%d", lg.ev[i].thread, caller);
            auto expect_block = [&](int epoch, bool training, const SModel<S> &from) {
                std::vector<double> got; int m = 0; std::vector<double> mv;
                int updates = c.variant == ref::ONLINE && training ? (carry + D) / c.batch : 0;
                if (c.variant == ref::ONLINE && training) carry = (carry + D) % c.batch;
                while (p < r.to[k] && lg.ev[p].kind != 'P' && (int)got.size() < D) { if (lg.ev[p].kind == 'E') got.push_back(lg.ev[p].lik); else if (lg.ev[p].kind == 'M' && c.variant == ref::ONLINE) m++; else fail("events:order", "listener %d, epoch %d: event '%c' after %d of %d expectation events", k, epoch, lg.ev[p].kind, (int)got.size(), D); p++; }
                if ((int)got.size() != D) fail("events:expectation", "listener %d, epoch %d: %d expectation events for %d documents", k, epoch, (int)got.size(), D);
                while (p < r.to[k] && lg.ev[p].kind == 'M') { mv.push_back(lg.ev[p].lik); m++; p++; }
                if (p < r.to[k] && lg.ev[p].kind == 'E' && training) fail("events:expectation", "listener %d, epoch %d: more expectation events than documents", k, epoch);
                // likelihoods
                int nan = 0; for (double x : got) nan += std::isnan(x);
                if (c.like == 0 && nan != D) fail("events:likelihood", "likelihoods were reported although none were asked for");
                if (c.like == 1 && nan) { bool ok = false; (void)ok; }
                if (c.variant != ref::ONLINE) {
                    Conf c1 = c; c1.like = 1; auto fe = make_e<S>(c1); for (int i = 0; i < epoch; i++) fe->e_step();
                    std::vector<double> want; auto from_p = copy_model(from);
                    std::shared_ptr<L::events::EventDispatcherInterface> ds = std::make_shared<L::events::EventDispatcher>(); ds->add_listener([&](EventP e) { want.push_back((double)std::static_pointer_cast<L::events::ExpectationProgressEvent<S>>(e)->likelihood()); });
                    fe->set_event_dispatcher(ds);
                    if (c.variant == ref::SEMI) { L::LDABuilder<S> b; auto a = semi_part<S>(c, 1, 0); auto u = b.get_classic_e_step(c.e_it, (S)c.e_tol, 1, 0); fe = b.get_semi_supervised_e_step(a, u); fe->set_event_dispatcher(ds); a->set_event_dispatcher(ds); u->set_event_dispatcher(ds); for (int i = 0; i < epoch; i++) fe->e_step(); }
                    std::shared_ptr<L::corpus::Corpus> cp; if (c.variant == ref::UNSUP) cp = std::make_shared<L::corpus::EigenCorpus>(d.X); else cp = std::make_shared<L::corpus::EigenClassificationCorpus>(d.X, d.y);
                    for (int i = 0; i < D; i++) fe->doc_e_step(cp->at(i), from_p);
                    if ((int)want.size() != D) fail("events:expectation", "one E step over %d documents reports %d events", D, (int)want.size());
                    std::vector<double> g2, w2; for (double x : got) if (!std::isnan(x)) g2.push_back(x); for (double x : want) if (!std::isnan(x)) w2.push_back(x);
                    std::sort(g2.begin(), g2.end()); std::sort(w2.begin(), w2.end());
                    if (c.like == 1 && g2 != w2) fail("events:likelihood", "listener %d, epoch %d: the reported likelihoods are not those of the epoch's documents", k, epoch);
                    size_t j = 0; for (double x : g2) { while (j < w2.size() && w2[j] < x) j++; if (j >= w2.size() || w2[j] != x) fail("events:likelihood", "listener %d, epoch %d: likelihood %.17g belongs to no document of the epoch (or twice to one)", k, epoch, x); j++; }
                    if (std::is_same<S, double>::value && k == nl) {
                        ref::Model rm = to_ref(from); bool amb = false; std::vector<double> rl; std::vector<ref::Doc> docs; std::vector<ref::VP> vps;
                        for (int i = 0; i < D; i++) { docs.push_back(to_ref(col(d.X, i), c.supervised() ? d.y[i] : 0)); vps.push_back(ref::e_step(c, rm, docs.back(), epoch, D, c.supervised() && d.y[i] >= 0 ? prior_of(d, d.y[i]) : 1)); amb |= vps.back().ambiguous; if (!std::isnan(vps.back().lik)) rl.push_back(vps.back().lik); }
                        if (!amb && training) {
                            std::sort(rl.begin(), rl.end());
                            if (rl.size() == w2.size()) { probe(2); for (size_t i = 0; i < rl.size(); i++) if (rl[i] != w2[i] && !(std::fabs(rl[i] - w2[i]) <= 1e-6 * (1 + std::fabs(rl[i])))) fail("events:reference", "%s: reported likelihood %.12g, reference %.12g", ref::variant_names[c.variant], w2[i], rl[i]); }
                            ref::Vec rep; ref::m_step(c, docs, vps, rm, &rep, &amb);
                            if (!amb && c.variant != ref::UNSUP) {
                                probe(3);
                                if (rep.size() != mv.size()) fail("events:maximisation", "%s epoch %d: %d maximisation events, the optimisation makes %d reports", ref::variant_names[c.variant], epoch, (int)mv.size(), (int)rep.size());
                                for (size_t i = 0; i < rep.size(); i++) if (!(std::fabs(rep[i] - mv[i]) <= 1e-6 * (1 + std::fabs(rep[i])))) fail("events:maximisation", "%s epoch %d: maximisation event %d reports %.12g instead of %.12g", ref::variant_names[c.variant], epoch, (int)i, mv[i], rep[i]);
                            } else probe(1);
                        }
                    }
                }
                if (!training) { if (m) fail("events:inference", "inference reported %d maximisation events", m); return; }
                int lo = 0, hi = 0;
                switch (c.variant) { case ref::UNSUP: break; case ref::MULTI: case ref::CORR: lo = hi = 1; break; case ref::ONLINE: lo = hi = updates; break; default: lo = 1; hi = c.m_it + 1; }
                if (m < lo || m > hi) fail("events:maximisation", "listener %d, %s epoch %d: %d maximisation events, expected %d..%d", k, ref::variant_names[c.variant], epoch, m, lo, hi);
                if (p >= r.to[k] || lg.ev[p].kind != 'P') fail("events:epoch", "listener %d, epoch %d: no epoch event at its end", k, epoch);
                if (lg.ev[p].model != model_ptr) fail("events:model", "listener %d: the epoch event carries another model object", k);
                if (!model_bits_equal(*lg.models[mi], *start[epoch + 1])) fail("events:model", "listener %d: the epoch event carries another model than the one other listeners saw", k);
                mi++; p++;
            };
            if (r.epochs == 0) expect_block(r.first_epoch, false, *start[r.first_epoch]);
            for (int e = 0; e < r.epochs; e++) expect_block(r.first_epoch + e, true, *start[r.first_epoch + e]);
            if (p != r.to[k]) fail("events:extra", "listener %d got %d more events than the call explains, first '%c'", k, r.to[k] - p, lg.ev[p].kind);
        }
        if ((int)lg.ev.size() != at) fail("events:late", "listener %d got %d events after the last call", k, (int)lg.ev.size() - at);
        note("listener %d events %d", k, (int)lg.ev.size());
    }
    probe(0);
}
SCENARIO("C03", c03_double, 3) { c03<double>(); }
SCENARIO("C03", c03_float, 1) { c03<float>(); }
