// Command line driver of a simulation binary: batches of seeded runs, replay of plan files.
#include "sim.h"
#include "sim_internal.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace sim {
static std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }
Register::Register(const Scenario& s) { scenarios().push_back(s); }

void gen_schedule(Plan& p, Rng& r, long est) {
    // swarm: one strategy with its own parameters per run
    static const int strat[] = {1, 1, 2, 2, 3, 4, 4, 5, 5, 0};
    long st = strat[r.below(10)];
    p.par["strat"] = st;
    p.par["sseed"] = (long)(r.next() >> 8);
    switch (st) {
        case 1: { static const long d[] = {2, 4, 10, 30, 100, 400}; p.par["sp1"] = d[r.below(6)]; break; }
        case 2: p.par["sp1"] = r.in(1, 6); p.par["sp2"] = std::max(20l, est * r.in(1, 4) / 2); break;
        case 3: p.par["sp1"] = r.in(1, 4); break;
        case 4: p.par["sp1"] = r.in(1, 8); break;
        case 5: { static const long d[] = {3, 10, 40, 150}; p.par["sp1"] = d[r.below(4)]; p.par["sp2"] = r.in(1, 4); break; }
        default: break;
    }
}
std::string plan_text(const Plan& p) {
    std::ostringstream o;
    o << "scenario " << p.scenario << "\nseed " << p.seed << "\n";
    for (auto& k : p.par) o << "par " << k.first << " " << k.second << "\n";
    for (auto& x : p.ops) {
        o << "op " << x.id << " " << x.th << " " << x.kind << " fail=" << x.fail;
        for (long v : x.v) o << " " << v;
        o << "\n";
    }
    if (p.fixed) o << "fixed\n";
    for (auto& x : p.pre) o << "pre " << x.tid << " " << x.op << " " << x.n << " " << x.to << "\n";
    return o.str();
}
bool plan_parse(const std::string& t, Plan& p) {
    std::istringstream in(t); std::string line;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream l(line); std::string w; l >> w;
        if (w == "scenario") l >> p.scenario;
        else if (w == "seed") l >> p.seed;
        else if (w == "par") { std::string k; long v; l >> k >> v; p.par[k] = v; }
        else if (w == "op") {
            Op x; std::string f; l >> x.id >> x.th >> x.kind >> f; x.fail = atoi(f.c_str() + 5);
            long v; while (l >> v) x.v.push_back(v);
            p.ops.push_back(x);
        } else if (w == "fixed") p.fixed = true;
        else if (w == "pre") { Pre x; l >> x.tid >> x.op >> x.n >> x.to; p.pre.push_back(x); }
        else return false;
    }
    return true;
}
} // namespace sim
using namespace sim;

static Shared* new_shared() {
    void* p = mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return (Shared*)p;
}
static const Scenario* find(const std::string& n) { for (auto& s : scenarios()) if (n == s.name) return &s; return nullptr; }
struct Call { const Scenario* s; const Plan* p; };
static void entry(void* a) { Call* c = (Call*)a; c->s->run(*c->p); }

static void clear_shared(Shared* sh) { memset(sh, 0, offsetof(Shared, dec)); }
static int exec_run(Shared* sh, const Plan& p) { // returns sh->status; crash without report counts as violation
    clear_shared(sh);
    const Scenario* s = find(p.scenario);
    if (!s) { fprintf(stderr, "unknown scenario %s\n", p.scenario.c_str()); exit(3); }
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        SchedConf c;
        c.strat = (int)p.get("strat"); c.p1 = p.get("sp1"); c.p2 = p.get("sp2"); c.seed = (uint64_t)p.get("sseed");
        c.fixed = p.fixed;
        c.step_cap = p.get("step_cap", 60000000);
        std::vector<int> t, o, to; std::vector<long> n;
        for (auto& x : p.pre) { t.push_back(x.tid); o.push_back(x.op); n.push_back(x.n); to.push_back(x.to); }
        c.pre_tid = t.data(); c.pre_op = o.data(); c.pre_n = n.data(); c.pre_to = to.data(); c.npre = (long)p.pre.size();
        Call call{s, &p};
        engine_run(sh, c, entry, &call);
        _exit(9);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {}
    if (sh->status == ST_NONE) {
        sh->status = ST_VIOLATION;
        if (!sh->kind[0]) snprintf(sh->kind, sizeof sh->kind, "crash");
        if (!sh->msg[0]) {
            if (WIFSIGNALED(st)) {
                if (WTERMSIG(st) == SIGKILL) { sh->status = ST_HARNESS; }
                snprintf(sh->msg, sizeof sh->msg, "the run was ended by signal %d", WTERMSIG(st));
            }
            else { snprintf(sh->msg, sizeof sh->msg, "the run ended with exit code %d without a report", WEXITSTATUS(st)); if (WEXITSTATUS(st) == 12 || WEXITSTATUS(st) == 9) sh->status = ST_HARNESS; }
        }
    }
    return sh->status;
}
static std::string jstr(const char* s) {
    std::string o = "\"";
    for (; *s; ++s) { unsigned char c = (unsigned char)*s; if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; }
    return o + "\"";
}
static std::string result_json(const Shared* sh) {
    std::ostringstream o;
    o << "\"status\":" << sh->status << ",\"kind\":" << jstr(sh->kind) << ",\"msg\":" << jstr(sh->msg) << ",\"hash\":\"" << std::hex << sh->hash << "\",\"sig\":\"" << sh->sched_sig << std::dec
      << "\",\"steps\":" << sh->steps << ",\"switches\":" << sh->switches << ",\"preempts\":" << sh->preempts << ",\"threads\":" << sh->threads << ",\"ndec\":" << sh->ndec << ",\"dec_overflow\":" << sh->dec_overflow << ",\"pcs\":[";
    for (int i = 0; i < sh->npc; ++i) o << (i ? "," : "") << "\"0x" << std::hex << sh->pcs[i] << std::dec << "\"";
    o << "],\"pcs2\":[";
    for (int i = 0; i < sh->npc2; ++i) o << (i ? "," : "") << "\"0x" << std::hex << sh->pcs2[i] << std::dec << "\"";
    o << "],\"faults\":{";
    bool f = true;
    for (auto& x : sh->faults) if (x.name[0]) { o << (f ? "" : ",") << jstr(x.name) << ":" << x.count; f = false; }
    o << "},\"probes\":{"; f = true;
    for (auto& x : sh->probes) if (x.name[0]) { o << (f ? "" : ",") << jstr(x.name) << ":" << x.count; f = false; }
    o << "}";
    return o.str();
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static bool make_plan(const std::string& prop, uint64_t seed, Plan& p) {
    std::vector<const Scenario*> v; long tot = 0;
    for (auto& s : scenarios()) if (prop == s.prop) { v.push_back(&s); tot += s.weight; }
    if (v.empty()) return false;
    std::sort(v.begin(), v.end(), [](const Scenario* a, const Scenario* b) { return strcmp(a->name, b->name) < 0; });
    Rng r(seed);
    long k = r.below(tot); const Scenario* s = v[0];
    for (auto* x : v) { if (k < x->weight) { s = x; break; } k -= x->weight; }
    p.scenario = s->name; p.seed = seed;
    s->gen(p, r);
    Plan q; if (!plan_parse(plan_text(p), q)) { fprintf(stderr, "plan does not read back\n"); exit(3); } // same object as in a replay
    p = q;
    return true;
}
int main(int argc, char** argv) {
    engine_init();
    std::map<std::string, std::string> a; std::string mode = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    auto num = [&](const char* k, long d) { return a.count(k) ? atol(a[k].c_str()) : d; };
    if (mode == "list") { for (auto& s : scenarios()) printf("%s %s %d\n", s.prop, s.name, s.weight); return 0; }
    if (mode == "plan") {
        Plan p; if (!make_plan(a["--prop"], strtoull(a["--seed"].c_str(), 0, 10), p)) return 3;
        std::cout << plan_text(p); return 0;
    }
    Shared* sh = new_shared();
    if (mode == "replay") {
        std::ifstream in(a["--file"]); std::stringstream ss; ss << in.rdbuf();
        Plan p; if (!in || !plan_parse(ss.str(), p)) { fprintf(stderr, "cannot read plan\n"); return 3; }
        exec_run(sh, p);
        std::cout << "{" << result_json(sh) << "}" << std::endl;
        if (a.count("--record")) {
            p.fixed = true; p.pre.clear();
            for (long i = 0; i < sh->ndec; ++i) p.pre.push_back(Pre{sh->dec[i].tid, sh->dec[i].op, (long)sh->dec[i].n, sh->dec[i].to});
            std::ofstream o(a["--record"]); o << plan_text(p);
        }
        return sh->status == ST_OK ? 0 : sh->status == ST_VIOLATION ? 1 : 2;
    }
    if (mode == "batch") {
        std::string prop = a["--prop"]; uint64_t seed = strtoull(a["--seed"].c_str(), 0, 10);
        long first = num("--first", 0), stride = num("--stride", 1), count = num("--count", 100), maxviol = num("--maxviol", 3);
        double tmax = num("--time", 600), t0 = now();
        uint64_t ph = 1469598103934665603ull; for (char c : prop) ph = (ph ^ (unsigned char)c) * 1099511628211ull;
        std::ofstream out(a["--out"]);
        std::ofstream hs(a["--out"] + ".hash", std::ios::binary);
        std::map<std::string, long> faults, probes, scen, fault_runs, strat;
        long runs = 0, nontriv = 0, viol = 0, steps = 0, switches = 0, preempts = 0, syncs = 0, allocs = 0, detchecks = 0, accesses = 0, faulty = 0, maxthr = 0; double vt = 0;
        std::set<uint64_t> sigs;
        uint64_t only = getenv("VERIF_ONLY") ? strtoull(getenv("VERIF_ONLY"), 0, 10) : 0;
        int herr = 0; long det = getenv("VERIF_DET") ? atol(getenv("VERIF_DET")) : 40;
        for (long i = first; i < count; i += stride) {
            if (now() - t0 > tmax) break;
            uint64_t rs = mix(mix(seed, ph), (uint64_t)i) >> 1;
            if (only && rs != only) continue;
            Plan p; if (!make_plan(prop, rs, p)) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); return 3; }
            exec_run(sh, p);
            runs++; scen[p.scenario]++;
            steps += sh->steps; switches += sh->switches; preempts += sh->preempts; syncs += sh->syncs; allocs += sh->allocs; accesses += sh->accesses; vt += 1e-9 * sh->vtime_ns;
            maxthr = std::max(maxthr, sh->threads);
            { char b[32]; snprintf(b, sizeof b, "strategy-%ld", p.get("strat", -1)); if (sh->threads > 1) strat[b]++; }
            bool f = false;
            for (auto& x : sh->faults) if (x.name[0]) { faults[x.name] += x.count; fault_runs[x.name]++; f = true; }
            if (f) faulty++;
            for (auto& x : sh->probes) if (x.name[0]) probes[x.name] += x.count;
            if (sh->status == ST_OK) {
                if (sh->nontrivial) { nontriv++; hs.write((char*)&sh->hash, 8); }
                if (sh->threads > 1) sigs.insert(sh->sched_sig);
                if (i % det < 1) { // determinism self test
                    uint64_t h = sh->hash; exec_run(sh, p); detchecks++;
                    if (sh->hash != h || sh->status != ST_OK) { out << "{\"harness\":\"nondeterministic run (hash " << h << " then " << sh->hash << ", status " << sh->status << " " << sh->kind << ")\",\"seed\":\"" << rs << "\",\"scenario\":" << jstr(p.scenario.c_str()) << "}" << std::endl; herr++; }
                }
            } else {
                out << "{\"seed\":\"" << rs << "\",\"scenario\":" << jstr(p.scenario.c_str()) << "," << result_json(sh) << "}" << std::endl;
                if (sh->status == ST_VIOLATION) { if (++viol >= maxviol) break; } else if (++herr > 3) break;
            }
        }
        auto mj = [](const std::map<std::string, long>& m) { std::string o = "{"; for (auto& x : m) { if (o.size() > 1) o += ","; o += jstr(x.first.c_str()) + ":" + std::to_string(x.second); } return o + "}"; };
        std::ofstream sg(a["--out"] + ".sig", std::ios::binary); for (uint64_t s : sigs) sg.write((const char*)&s, 8);
        out << "{\"summary\":1,\"runs\":" << runs << ",\"nontrivial\":" << nontriv << ",\"violations\":" << viol << ",\"steps\":" << steps << ",\"switches\":" << switches << ",\"preempts\":" << preempts
            << ",\"syncs\":" << syncs << ",\"allocs\":" << allocs << ",\"shared_accesses\":" << accesses << ",\"detchecks\":" << detchecks << ",\"faulty_runs\":" << faulty << ",\"max_threads\":" << maxthr << ",\"virtual_s\":" << vt
            << ",\"wall\":" << now() - t0 << ",\"faults\":" << mj(faults) << ",\"fault_runs\":" << mj(fault_runs) << ",\"probes\":" << mj(probes) << ",\"scenarios\":" << mj(scen) << ",\"strategies\":" << mj(strat) << "}" << std::endl;
        return 0;
    }
    fprintf(stderr, "usage: list | plan | replay | batch\n");
    return 3;
}
