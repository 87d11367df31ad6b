// Seeded search, gate, minimiser and replay.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "scenario.h"
#include <algorithm>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <poll.h>
#include <set>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>
using namespace sim;
Scenario *Scenario::head = nullptr;

static double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static uint64_t mixs(uint64_t a, uint64_t b) { uint64_t z = a * 0x9E3779B97F4A7C15ULL + b + 0x632BE59BD9B4E019ULL; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
static uint64_t hs(const char *s) { uint64_t h = 1469598103934665603ULL; while (*s) h = (h ^ (uint8_t)*s++) * 1099511628211ULL; return h; }

static std::string scratch;           // created by mkdtemp; everything simulated programs write goes here
static double run_timeout = 120;
static bool keep_out = false;

static void empty_dir(const std::string &d) {
    DIR *D = opendir(d.c_str()); if (!D) return;
    std::vector<std::string> v; while (struct dirent *e = readdir(D)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(d + "/" + e->d_name);
    closedir(D);
    for (auto &p : v) { struct stat st; if (!lstat(p.c_str(), &st) && S_ISDIR(st.st_mode)) { empty_dir(p); rmdir(p.c_str()); } else unlink(p.c_str()); }
}
static void make_scratch() {
    const char *base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
    std::string t = std::string(base) + "/ldasim.XXXXXX"; std::vector<char> b(t.begin(), t.end()); b.push_back(0);
    if (!mkdtemp(b.data())) { perror("mkdtemp"); exit(2); }
    scratch = b.data();
}
static void drop_scratch() { if (!scratch.empty()) { empty_dir(scratch); rmdir(scratch.c_str()); scratch.clear(); } }

struct Res { int status = 0; std::string cls, msg, where, known; uint64_t hash = 0; std::vector<Pick> picks; std::vector<Dev> devs; bool overflow = false; };

static void scn_entry(void *p) { ((Scenario *)p)->fn(); finish_ok(); }
static Res run_once(Scenario *s, uint64_t seed, bool replay, const std::vector<Pick> *over, const std::vector<Dev> *devs, bool trace) {
    reset_shared();
    cfg = Config(); cfg.seed = seed; cfg.replay = replay; cfg.trace = trace ? (getenv("SIM_TRACE_SYNC") ? 2 : 1) : 0;
    if (over) { cfg.over = over->data(); cfg.nover = (int)over->size(); }
    if (devs) { cfg.devs = devs->data(); cfg.ndevs = (int)devs->size(); }
    empty_dir(scratch);
    int pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (!pid) {
        setpgid(0, 0); prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (chdir(scratch.c_str())) _exit(97);
        int n = open("/dev/null", O_RDWR); dup2(n, 0); if (!keep_out) { dup2(n, 1); dup2(n, 2); }
        if (n > 2) close(n);
        if (s->coordinator) { s->fn(); if (sh->status == ST_NONE) sh->status = ST_OK; _exit(0); }
        run_in_child(scn_entry, s);
    }
    int pfd = (int)syscall(SYS_pidfd_open, pid, 0); struct pollfd pf = {pfd, POLLIN, 0};
    double t0 = wall(); bool hang = false;
    for (;;) { int r = poll(&pf, 1, 1000); if (r > 0) break; if (wall() - t0 > run_timeout) { hang = true; kill(-pid, SIGKILL); kill(pid, SIGKILL); break; } }
    close(pfd);
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    kill(-pid, SIGKILL);
    Res r; r.status = sh->status;
    if (hang) { r.status = ST_VIOLATION; r.cls = "hang"; r.msg = "no result within the wall-clock limit"; }
    else if (WIFSIGNALED(st)) {
        if (WTERMSIG(st) == SIGSEGV || WTERMSIG(st) == SIGBUS) { r.status = ST_VIOLATION; r.cls = "crash:SIGSEGV"; r.msg = "stack overflow or wild access"; }
        else { r.status = ST_ERROR; r.msg = "run killed by signal " + std::to_string(WTERMSIG(st)); }
    } else if (r.status == ST_NONE || r.status == ST_CRASHPOINT || WEXITSTATUS(st) == 97) { r.status = ST_ERROR; r.msg = std::string("run ended without a result: ") + sh->msg; }
    if (r.cls.empty()) { r.cls = sh->cls; r.msg = r.msg.empty() ? sh->msg : r.msg; }
    r.where = sh->where; r.known = sh->known; r.hash = sh->hash;
    r.picks.assign(sh->picks, sh->picks + sh->npicks); r.devs.assign(sh->devs, sh->devs + sh->ndevs); r.overflow = sh->ndevs >= MAX_DEVS;
    if (r.status == ST_VIOLATION && r.cls.compare(0, 6, "error:") == 0) r.status = ST_ERROR;
    return r;
}
static void sort_devs(std::vector<Dev> &d) {
    std::stable_sort(d.begin(), d.end(), [](const Dev &x, const Dev &y) { if (x.type != y.type) return x.type > y.type; if (x.inc != y.inc) return x.inc < y.inc; if (x.a != y.a) return x.a < y.a; return x.b < y.b; });
    d.erase(std::unique(d.begin(), d.end(), [](const Dev &x, const Dev &y) { return x.type == y.type && x.inc == y.inc && x.a == y.a && x.b == y.b && x.v == y.v; }), d.end());
}
static std::string one_line(std::string s) { for (auto &c : s) if (c == '\n' || c == '\r') c = ' '; return s; }
static std::string js(const std::string &s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }

// ---------------------------------------------------------------- replay files
struct Replay { std::string prop, scn, cls, msg, mode; uint64_t seed = 0, hash = 0; std::vector<Pick> picks; std::vector<Dev> devs; };
static void save_replay(const std::string &path, const Replay &r) {
    FILE *f = fopen(path.c_str(), "w"); if (!f) { perror(path.c_str()); exit(2); }
    fprintf(f, "simreplay 1\nprop %s\nscenario %s\nseed %lu\nmode %s\nclass %s\nhash %016lx\nmsg %s\n", r.prop.c_str(), r.scn.c_str(), (unsigned long)r.seed, r.mode.c_str(), r.cls.c_str(), (unsigned long)r.hash, one_line(r.msg).c_str());
    for (auto &p : r.picks) fprintf(f, "pick %s %ld\n", p.name, (long)p.value);
    for (auto &d : r.devs) if (d.type == 'S') fprintf(f, "switch inc%d t%d@%u -> t%u\n", d.inc, d.a, d.b, d.v); else fprintf(f, "fault inc%d %s#%u = %u\n", d.inc, kind_names[d.a], d.b, d.v);
    fclose(f);
}
static bool load_replay(const char *path, Replay &r) {
    FILE *f = fopen(path, "r"); if (!f) return false;
    char *l = nullptr; size_t n = 0;
    while (getline(&l, &n, f) > 0) {
        l[strcspn(l, "\n")] = 0; char b[256], k[64]; long v; int i, t; unsigned s, w;
        if (sscanf(l, "prop %255s", b) == 1) r.prop = b; else if (sscanf(l, "scenario %255s", b) == 1) r.scn = b;
        else if (sscanf(l, "mode %255s", b) == 1) r.mode = b; else if (sscanf(l, "class %255s", b) == 1) r.cls = b;
        else if (!strncmp(l, "seed ", 5)) r.seed = strtoull(l + 5, 0, 10); else if (!strncmp(l, "hash ", 5)) r.hash = strtoull(l + 5, 0, 16);
        else if (!strncmp(l, "msg ", 4)) r.msg = l + 4;
        else if (sscanf(l, "pick %39s %ld", b, &v) == 2) { Pick p; memset(&p, 0, sizeof p); snprintf(p.name, sizeof p.name, "%s", b); p.value = v; r.picks.push_back(p); }
        else if (sscanf(l, "switch inc%d t%d@%u -> t%u", &i, &t, &s, &w) == 4) r.devs.push_back(Dev{'S', (uint8_t)i, (uint16_t)t, s, w, 0});
        else if (sscanf(l, "fault inc%d %63[^#]#%u = %u", &i, k, &s, &w) == 4) { int kk = 0; while (kk < K_NKINDS && strcmp(kind_names[kk], k)) kk++; r.devs.push_back(Dev{'F', (uint8_t)i, (uint16_t)kk, s, w, 0}); }
    }
    free(l); fclose(f); sort_devs(r.devs); return !r.scn.empty();
}
static Scenario *find(const std::string &n) { for (Scenario *s = Scenario::head; s; s = s->next) if (n == s->name) return s; return nullptr; }

// ---------------------------------------------------------------- minimiser
static Res try_replay(Replay &r, const std::vector<Pick> &pk, const std::vector<Dev> &dv) { return run_once(find(r.scn), r.seed, true, &pk, &dv, false); }
static int minimise(Replay &r, double budget) {
    double t0 = wall(); int tries = 0;
    auto ok = [&](const std::vector<Pick> &p, const std::vector<Dev> &d) { tries++; Res x = try_replay(r, p, d); return x.status == ST_VIOLATION && x.cls == r.cls; };
    auto left = [&]() { return wall() - t0 < budget; };
    auto ddmin = [&]() {
        if (!r.devs.empty() && left() && ok(r.picks, {})) { r.devs.clear(); return; }
        size_t n = 2;
        while (r.devs.size() >= 2 && left()) {
            size_t len = (r.devs.size() + n - 1) / n; bool red = false;
            for (size_t i = 0; i < r.devs.size() && left(); i += len) {
                std::vector<Dev> c; for (size_t j = 0; j < r.devs.size(); j++) if (j < i || j >= i + len) c.push_back(r.devs[j]);
                if (ok(r.picks, c)) { r.devs = c; n = n > 2 ? n - 1 : 2; red = true; break; }
            }
            if (!red) { if (len <= 1) break; n = std::min(n * 2, r.devs.size()); }
        }
    };
    ddmin();
    static const char *skip[] = {"strat", "p_sync", "p_mem", "p_hot", "victim", "pct_d", "pct_scale", "p_spur", "p_sig", "p_try", "p_clock"};
    bool changed = true;
    for (int round = 0; round < 3 && changed && left(); round++) {
        changed = false;
        for (size_t i = 0; i < r.picks.size() && left(); i++) {
            bool sk = false; for (auto s : skip) if (!strcmp(s, r.picks[i].name)) sk = true;
            if (sk) continue;
            for (int64_t v : {r.picks[i].lo, r.picks[i].lo + (r.picks[i].value - r.picks[i].lo) / 2}) {
                if (v == r.picks[i].value) continue;
                auto c = r.picks; c[i].value = v;
                if (ok(c, r.devs)) { r.picks[i].value = v; changed = true; break; }
            }
        }
        if (changed) ddmin();
    }
    Res x = try_replay(r, r.picks, r.devs);
    if (x.status == ST_VIOLATION && x.cls == r.cls) { r.msg = x.msg; r.hash = x.hash; auto lo = r.picks; r.picks = x.picks; }
    return tries;
}

// ---------------------------------------------------------------- exploration
struct Ctl { volatile int stop; volatile int cand; volatile int errors; };
static Ctl *ctl;
struct Stats {
    uint64_t runs = 0, steps = 0, syncs = 0, switches = 0, accesses = 0, hot = 0, sim_ns = 0, threads = 0, races = 0, known = 0, incs = 0;
    uint64_t fo[K_NKINDS] = {}, ff[K_NKINDS] = {}, pr[64] = {}; std::set<uint64_t> il, eh; std::map<std::string, uint64_t> sc; std::map<std::string, std::set<int64_t>> pv;
    uint64_t faultruns = 0; double maxwall = 0; std::string known_txt; std::vector<std::string> samples;
};
static void dump_stats(const std::string &path, const Stats &s) {
    FILE *f = fopen(path.c_str(), "w"); if (!f) { perror(path.c_str()); _exit(2); }
    fprintf(f, "{\"runs\":%lu,\"steps\":%lu,\"syncs\":%lu,\"switches\":%lu,\"accesses\":%lu,\"hot\":%lu,\"sim_ns\":%lu,\"threads\":%lu,\"races\":%lu,\"known\":%lu,\"incarnations\":%lu,\"fault_runs\":%lu,\"max_wall\":%.3f,\"known_txt\":%s,\n", s.runs, s.steps, s.syncs, s.switches, s.accesses, s.hot, s.sim_ns, s.threads, s.races, s.known, s.incs, s.faultruns, s.maxwall, js(s.known_txt).c_str());
    fprintf(f, "\"opps\":{"); for (int i = 0; i < K_NKINDS; i++) fprintf(f, "%s\"%s\":%lu", i ? "," : "", kind_names[i], s.fo[i]);
    fprintf(f, "},\n\"fired\":{"); for (int i = 0; i < K_NKINDS; i++) fprintf(f, "%s\"%s\":%lu", i ? "," : "", kind_names[i], s.ff[i]);
    fprintf(f, "},\n\"probes\":["); for (int i = 0; i < 64; i++) fprintf(f, "%s%lu", i ? "," : "", s.pr[i]);
    fprintf(f, "],\n\"scenarios\":{"); bool c = false; for (auto &k : s.sc) { fprintf(f, "%s\"%s\":%lu", c ? "," : "", k.first.c_str(), k.second); c = true; }
    fprintf(f, "},\n\"picks\":{"); c = false; for (auto &k : s.pv) { fprintf(f, "%s\"%s\":[", c ? "," : "", k.first.c_str()); bool d = false; for (auto v : k.second) { fprintf(f, "%s%ld", d ? "," : "", (long)v); d = true; } fprintf(f, "]"); c = true; }
    fprintf(f, "},\n\"samples\":["); c = false; for (auto &k : s.samples) { fprintf(f, "%s%s", c ? "," : "", js(k).c_str()); c = true; }
    fprintf(f, "],\n\"ileave\":["); c = false; for (auto v : s.il) { fprintf(f, "%s%lu", c ? "," : "", v); c = true; }
    fprintf(f, "],\n\"hashes\":["); c = false; for (auto v : s.eh) { fprintf(f, "%s%lu", c ? "," : "", v); c = true; }
    fprintf(f, "]}\n"); fclose(f);
}
static std::vector<Scenario *> schedule_of(const char *prop, const char *only) {
    std::vector<Scenario *> l; for (Scenario *s = Scenario::head; s; s = s->next) if ((!prop || !strcmp(s->prop, prop)) && (!only || !strcmp(only, s->name))) l.push_back(s);
    std::sort(l.begin(), l.end(), [](Scenario *a, Scenario *b) { return strcmp(a->name, b->name) < 0; });
    std::vector<Scenario *> w; int mx = 0; for (auto s : l) mx = std::max(mx, s->weight);
    for (int k = 0; k < mx; k++) for (auto s : l) if (k < s->weight) w.push_back(s);   // interleaved
    return w;
}
static void worker(int j, int J, const std::vector<Scenario *> &w, const char *prop, uint64_t seed, double tend, uint64_t first, uint64_t maxruns, const std::string &out) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    init_process(); make_scratch();
    Stats st; FILE *hf = nullptr;
    for (uint64_t i = first + j; i < maxruns && wall() < tend && !ctl->stop; i += J) {
        Scenario *s = w[i % w.size()];
        uint64_t sd = mixs(mixs(seed, hs(prop)), i);
        double t0 = wall();
        const char *tr = getenv("SIM_TRACE_RUN"); bool trace = tr && strtoull(tr, 0, 10) == i;
        Res r = run_once(s, sd, false, nullptr, nullptr, trace);
        if (trace) { FILE *f = fopen((out + "/trace").c_str(), "w"); if (f) { fputs(sh->log, f); fclose(f); } }
        double dt = wall() - t0; if (dt > st.maxwall) st.maxwall = dt;
        st.runs++; st.steps += sh->steps; st.syncs += sh->syncs; st.switches += sh->switches; st.accesses += sh->accesses; st.hot += sh->hot; st.sim_ns += sh->sim_ns; st.threads += sh->threads; st.races += sh->races_seen; st.known += sh->races_known > 0; st.incs += sh->inc + 1;
        bool anyf = false;
        for (int k = 0; k < K_NKINDS; k++) { st.fo[k] += sh->fault_opps[k]; st.ff[k] += sh->fault_fired[k]; anyf |= sh->fault_fired[k] > 0; }
        st.faultruns += anyf;
        for (int k = 0; k < 64; k++) st.pr[k] += sh->probes[k];
        st.il.insert(sh->ileave_hash); st.eh.insert(sh->hash); st.sc[s->name]++;
        for (auto &p : r.picks) { auto &x = st.pv[p.name]; if (x.size() < 40) x.insert(p.value); }
        if (!r.known.empty()) st.known_txt = r.known;
        if (st.samples.size() < 3 && i >= first + j + J * 2) { std::string q = std::string(s->name) + " seed=" + std::to_string(sd) + " steps=" + std::to_string(sh->steps) + " switches=" + std::to_string(sh->switches); int c = 0; for (auto &p : r.picks) if (c++ < 14) q += std::string(" ") + p.name + "=" + std::to_string(p.value); st.samples.push_back(q); }
        if (getenv("SIM_HASHES")) { if (!hf) hf = fopen((out + "/hashes." + std::to_string(j)).c_str(), "a"); fprintf(hf, "%lu %s %016lx %d %s\n", i, s->name, (unsigned long)r.hash, r.status, r.cls.c_str()); fflush(hf); }
        if (r.status != ST_OK) {
            FILE *f = fopen((out + "/cand." + std::to_string(i)).c_str(), "w");
            fprintf(f, "%lu %s %lu %d\n%s\n%s\n", i, s->name, sd, r.status, r.cls.c_str(), one_line(r.msg).c_str()); fclose(f);
            ctl->cand = 1; if (!getenv("SIM_NOSTOP")) ctl->stop = 1;
        }
    }
    if (hf) fclose(hf);
    dump_stats(out + "/stats." + std::to_string(first) + "." + std::to_string(j) + ".json", st);
    drop_scratch();
    _exit(0);
}
static int fresh_replay(const char *exe, const std::string &file) {
    int pid = fork(); if (!pid) { int n = open("/dev/null", O_RDWR); dup2(n, 1); execl(exe, exe, "replay", file.c_str(), (char *)0); _exit(98); }
    int st; waitpid(pid, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : 99;
}

// 1: the candidate is a repeatable violation and replay.txt was written; 2: it is not
static int gate(const char *prop, const char *out, const char *exe, uint64_t id, double mintime, FILE *rf) {
    FILE *f = fopen((std::string(out) + "/cand." + std::to_string(id)).c_str(), "r"); char sn[256]; unsigned long idx, sd; int cst;
    if (!f || fscanf(f, "%lu %255s %lu %d", &idx, sn, &sd, &cst) != 4) { if (f) fclose(f); fprintf(rf, "error unreadable candidate\n"); return 2; }
    fclose(f);
    init_process(); make_scratch();
    Scenario *s = find(sn);
    Res a = run_once(s, sd, false, nullptr, nullptr, false), b = run_once(s, sd, false, nullptr, nullptr, false);
    fprintf(rf, "candidate scenario=%s seed=%lu class=%s msg=%s where=%s\n", sn, sd, a.cls.c_str(), one_line(a.msg).c_str(), a.where.c_str());
    if (a.status == ST_ERROR || cst == ST_ERROR) { fprintf(rf, "error harness: %s\n", one_line(a.msg).c_str()); drop_scratch(); return 2; }
    if (a.status != ST_VIOLATION || b.status != a.status || a.cls != b.cls || a.hash != b.hash) { fprintf(rf, "error nondeterministic: %s/%s %016lx/%016lx\n", a.cls.c_str(), b.cls.c_str(), (unsigned long)a.hash, (unsigned long)b.hash); drop_scratch(); return 2; }
    Replay r; r.prop = prop; r.scn = sn; r.seed = sd; r.cls = a.cls; r.msg = a.msg; r.hash = a.hash; r.picks = a.picks; r.devs = a.devs; r.mode = "deviations"; sort_devs(r.devs);
    size_t nd0 = r.devs.size(); int tries = 0;
    Res c = a.cls == "hang" ? a : try_replay(r, r.picks, r.devs);
    if (a.cls == "hang" || a.overflow || c.status != ST_VIOLATION || c.cls != a.cls || c.hash != a.hash) {
        fprintf(rf, "note replay by seed (deviation table %s)\n", a.overflow ? "overflow" : "not used"); r.mode = "seed"; r.picks.clear(); r.devs.clear();
        if (!a.overflow && a.cls != "hang") { fprintf(rf, "error deviation replay diverged: %s %016lx vs %016lx\n", c.cls.c_str(), (unsigned long)c.hash, (unsigned long)a.hash); drop_scratch(); return 2; }
    } else tries = minimise(r, mintime);
    std::string path = std::string(out) + "/replay.txt"; save_replay(path, r);
    drop_scratch();
    int fr = fresh_replay(exe, path);
    fprintf(rf, "gate fresh-process replay exit=%d\nminimised deviations %zu -> %zu in %d runs\n", fr, nd0, r.devs.size(), tries);
    if (fr != 1) { fprintf(rf, "error the replay file does not reproduce in a fresh process (exit %d)\n", fr); return 2; }
    fprintf(rf, "violation class=%s msg=%s\nreplay %s\n", r.cls.c_str(), one_line(r.msg).c_str(), path.c_str());
    return 1;
}

int main(int argc, char **argv) {
    const char *prop = nullptr, *out = "/tmp", *only = nullptr, *scn = nullptr; uint64_t seed = 1, runs = ~0ULL; double tm = 30, mintime = 25; int jobs = 8; bool trace = false; std::string pos;
    std::string mode = argc > 1 ? argv[1] : "";
    std::vector<Pick> over;
    for (int i = 2; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&]() { return argv[++i]; };
        if (a == "--prop") prop = nx(); else if (a == "--seed") seed = strtoull(nx(), 0, 10); else if (a == "--runs") runs = strtoull(nx(), 0, 10);
        else if (a == "--time") tm = atof(nx()); else if (a == "--jobs") jobs = atoi(nx()); else if (a == "--out") out = nx(); else if (a == "--only") only = nx();
        else if (a == "--scenario") scn = nx(); else if (a == "--trace") trace = true; else if (a == "--out12") keep_out = true; else if (a == "--min") mintime = atof(nx());
        else if (a == "--pick") { Pick p; memset(&p, 0, sizeof p); std::string kv = nx(); auto e = kv.find('='); snprintf(p.name, sizeof p.name, "%s", kv.substr(0, e).c_str()); p.value = atol(kv.c_str() + e + 1); over.push_back(p); }
        else pos = a;
    }
    if (mode == "list") { for (Scenario *s = Scenario::head; s; s = s->next) printf("%s %s %d%s\n", s->prop, s->name, s->weight, s->coordinator ? " coordinator" : ""); return 0; }
    if (mode == "replay" || mode == "one") {
        Replay r; uint64_t want = 0;
        if (mode == "replay") { if (!load_replay(pos.c_str(), r)) { fprintf(stderr, "cannot read %s\n", pos.c_str()); return 2; } want = r.hash; }
        else { r.scn = scn; r.seed = seed; r.mode = "seed"; r.picks = over; }
        Scenario *s = find(r.scn); if (!s) { fprintf(stderr, "unknown scenario %s\n", r.scn.c_str()); return 2; }
        init_process(); make_scratch();
        double t0 = wall();
        Res x = run_once(s, r.seed, r.mode != "seed", &r.picks, &r.devs, trace);
        printf("status=%s class=%s hash=%016lx steps=%lu switches=%lu accesses=%lu threads=%lu devs=%zu wall=%.2f\n%s%s%s\n", x.status == ST_OK ? "ok" : x.status == ST_VIOLATION ? "violation" : "error", x.cls.c_str(), (unsigned long)x.hash, sh->steps, sh->switches, sh->accesses, sh->threads, x.devs.size(), wall() - t0, x.msg.c_str(), x.where.empty() ? "" : " at ", x.where.c_str());
        if (!x.known.empty()) printf("known: %s\n", x.known.c_str());
        if (trace) fputs(sh->log, stdout);
        if (trace || mode == "one") for (auto &p : x.picks) printf("pick %s %ld\n", p.name, (long)p.value);
        drop_scratch();
        if (x.status == ST_ERROR) return 2;
        if (mode == "one") return x.status == ST_OK ? 0 : 1;
        if (x.status == ST_OK) { printf("no violation\n"); return 0; }
        if (x.cls != r.cls || x.hash != want) { printf("DIFFERENT from the recorded violation (class %s, hash %016lx)\n", r.cls.c_str(), (unsigned long)want); return 3; }
        printf("REPRODUCED exactly\n"); return 1;
    }
    if (mode != "explore" || !prop) { fprintf(stderr, "usage: simrun explore --prop P --seed S --time T --runs N --jobs J --out DIR | replay FILE [--trace] | one --scenario X --seed S | list\n"); return 2; }
    std::vector<Scenario *> w = schedule_of(prop, only);
    if (w.empty()) { fprintf(stderr, "no scenario for %s\n", prop); return 2; }
    ctl = (Ctl *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    double t0 = wall(); FILE *rf = fopen((std::string(out) + "/result").c_str(), "w");
    char exe[512]; ssize_t n = readlink("/proc/self/exe", exe, 511); exe[n] = 0;
    // A candidate that does not pass the gate (the run is not repeatable, say because the code under test reads
    // memory that is not its own) proves nothing: it is noted and the search goes on with later seeds.
    uint64_t first = 0; bool failed_gate = false; double spent = 0;
    for (int round = 0; round < 6; round++) {
        ctl->stop = ctl->cand = 0; std::vector<int> kids; double t1 = wall();
        for (int j = 0; j < jobs; j++) { int p = fork(); if (!p) worker(j, jobs, w, prop, seed, t1 + std::max(1.0, tm - spent), first, runs, out); kids.push_back(p); }
        bool bad = false;
        for (int k : kids) { int st; waitpid(k, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = true; }
        spent += wall() - t1;
        if (bad) { fprintf(rf, "wall %.3f\nerror a worker process failed\n", spent); fclose(rf); return 2; }
        if (!ctl->cand || getenv("SIM_NOSTOP")) break;   // (SIM_NOSTOP: only the hashes are wanted)
        std::vector<uint64_t> ids; DIR *D = opendir(out); while (struct dirent *e = readdir(D)) if (!strncmp(e->d_name, "cand.", 5)) { uint64_t v = strtoull(e->d_name + 5, 0, 10); if (v >= first) ids.push_back(v); } closedir(D);
        std::sort(ids.begin(), ids.end());   // lowest index first
        for (uint64_t id : ids) {
            if (failed_gate && wall() - t0 - spent > 240) break;
            fflush(rf); int p = fork(), st = 0;
            if (!p) { int g = gate(prop, out, exe, id, mintime, rf); fflush(rf); _exit(g); }
            waitpid(p, &st, 0);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 1) { fprintf(rf, "wall %.3f\n", spent); fclose(rf); return 1; }
            failed_gate = true;
        }
        first = (ids.back() / jobs + 1) * jobs;
        if (wall() - t0 - spent > 240) break;
    }
    fprintf(rf, "wall %.3f\n%s\n", spent, failed_gate ? "error no candidate passed the gate" : "ok"); fclose(rf);
    return failed_gate ? 2 : 0;
}
