#include "pbt.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <csignal>
#include <cerrno>
#include <cinttypes>
#include <map>
#include <set>
#include <unordered_set>
#include <fstream>
#include <unistd.h>
#include <fcntl.h>
#include <sched.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sanitizer/allocator_interface.h>

namespace pbt {
static const size_t MAXCH = 1 << 16, MAXNOTE = 1 << 18, MAXMSG = 4096, MAXLAB = 128;
struct Slot {
    volatile uint64_t case_idx, done, nontriv;
    volatile double started;
    volatile uint32_t failed;
    volatile uint64_t nch;
    uint64_t ch[MAXCH];
    volatile uint64_t nnote;
    char note[MAXNOTE];
    char msg[MAXMSG];
    uint32_t nlab;
    struct { char name[48]; uint64_t n; uint64_t last; } lab[MAXLAB];
};
static Slot *g_slot;
static Case *g_case;
Case *Case::current() { return g_case; }
std::vector<Prop> &registry() { static std::vector<Prop> r; return r; }

static uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31);
}
Case::Case(Slot *s, uint64_t seed, const std::vector<uint64_t> *r, bool n)
    : slot_(s), s0_(mix(seed)), s1_(mix(seed ^ 0xabcdef1234567ull)), replay_(r), notes_(n) {
    slot_->nch = 0; slot_->nnote = 0; slot_->note[0] = 0; slot_->failed = 0; slot_->msg[0] = 0;
}
uint64_t Case::rnd() {
    uint64_t a = s0_, b = s1_; s0_ = b; a ^= a << 23; s1_ = a ^ b ^ (a >> 18) ^ (b >> 5); return s1_ + b;
}
uint64_t Case::pick(uint64_t n) {
    if (n <= 1) return 0;
    uint64_t v;
    if (replay_) { v = pos_ < replay_->size() ? (*replay_)[pos_] : 0; if (v >= n) v %= n; ++pos_; }
    else v = rnd() % n;
    if (slot_->nch < MAXCH) { slot_->ch[slot_->nch] = v; slot_->nch = slot_->nch + 1; }
    hash_ = (hash_ ^ v) * 1099511628211ull; hash_ ^= hash_ >> 29;
    return v;
}
size_t Case::weighted(std::initializer_list<unsigned> w) { return weighted(std::vector<unsigned>(w)); }
size_t Case::weighted(const std::vector<unsigned> &w) {
    uint64_t t = 0; for (auto x : w) t += x;
    uint64_t v = pick(t); size_t i = 0;
    while (v >= w[i]) { v -= w[i]; ++i; }
    return i;
}
int64_t Case::size(int64_t lo, int64_t hi) {
    switch (pick(4)) {
    case 0: return range(lo, std::min(hi, lo + 3));
    case 1: return range(lo, std::min(hi, lo + 12));
    case 2: return range(lo, std::min(hi, lo + 40));
    default: return range(lo, hi);
    }
}
uint64_t Case::bits(unsigned w) {
    uint64_t m = w >= 64 ? ~0ull : (1ull << w) - 1;
    switch (pick(5)) {
    case 0: return pick(4) & m;
    case 1: return (m - pick(4)) & m;
    case 2: return ((1ull << (pick(w ? w : 1))) + pick(3) - 1) & m;
    case 3: return pick(1000) & m;
    default: return (pick(1ull << 32) << 32 | pick(1ull << 32)) & m;
    }
}
void Case::add_note(const std::string &s) {
    size_t n = slot_->nnote;
    if (n + s.size() + 2 >= MAXNOTE) return;
    memcpy(slot_->note + n, s.data(), s.size()); n += s.size();
    slot_->note[n++] = '\n'; slot_->note[n] = 0; slot_->nnote = n;
}
void Case::label(const char *l) {
    for (uint32_t i = 0; i < slot_->nlab; i++)
        if (!strncmp(slot_->lab[i].name, l, 47)) {
            if (slot_->lab[i].last != slot_->case_idx + 1) { slot_->lab[i].n++; slot_->lab[i].last = slot_->case_idx + 1; }
            return;
        }
    if (slot_->nlab < MAXLAB) {
        auto &e = slot_->lab[slot_->nlab]; strncpy(e.name, l, 47); e.n = 1; e.last = slot_->case_idx + 1; slot_->nlab++;
    }
}
size_t Case::mark() const { return slot_->nch; }
void Case::rewind(size_t m) { if (m > slot_->nch) m = slot_->nch; rw_ = std::vector<uint64_t>(slot_->ch + m, slot_->ch + slot_->nch); replay_ = &rw_; pos_ = 0; slot_->nch = m; slot_->nnote = 0; slot_->note[0] = 0; }
void Case::fail(const std::string &m) { throw Failure(m); }

static void record_failure(const std::string &m) {
    if (!g_slot->failed) { strncpy(g_slot->msg, m.c_str(), MAXMSG - 1); g_slot->msg[MAXMSG - 1] = 0; g_slot->failed = 1; }
}
void die_failing(const std::string &m) { record_failure(m); _exit(77); }

size_t live_bytes() { return __sanitizer_get_current_allocated_bytes(); }

static std::string g_scratch_root, g_scratch;
const std::string &scratch() {
    if (g_scratch.empty()) {
        g_scratch = g_scratch_root + "/w" + std::to_string(getpid());
        mkdir(g_scratch.c_str(), 0700);
    }
    return g_scratch;
}
static void rm_tree(const std::string &d) {
    DIR *p = opendir(d.c_str()); if (!p) return;
    while (dirent *e = readdir(p)) {
        std::string n = e->d_name; if (n == "." || n == "..") continue;
        std::string f = d + "/" + n; struct stat st;
        if (!lstat(f.c_str(), &st) && S_ISDIR(st.st_mode)) rm_tree(f); else unlink(f.c_str());
    }
    closedir(p); rmdir(d.c_str());
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// 0 ok, 1 failure recorded
long case_serial = 0;
static int run_case(const Prop &p, Slot *s, uint64_t seed, const std::vector<uint64_t> *rep, bool notes, uint64_t *hash = nullptr) {
    s->started = now();
    Case c(s, seed, rep, notes);
    g_slot = s; g_case = &c; ++case_serial;
    int r = 0;
    try { p.fn(c); }
    catch (Failure &f) { record_failure(f.msg); r = 1; }
    catch (std::exception &e) { record_failure(std::string("unexpected exception: ") + e.what()); r = 1; }
    catch (...) { record_failure("unexpected exception of unknown type"); r = 1; }
    g_case = nullptr;
    s->nontriv = c.is_nontrivial();
    if (hash) *hash = c.hash();
    return r;
}
static uint64_t case_seed(const Prop &p, uint64_t seed, uint64_t idx) {
    uint64_t h = 14695981039346656037ull; for (const char *q = p.name; *q; ++q) h = (h ^ (unsigned char)*q) * 1099511628211ull;
    return mix(mix(seed ^ h) + idx * 0x9e3779b97f4a7c15ull);
}
static Slot *new_slot() {
    void *m = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) { perror("mmap"); exit(3); }
    return (Slot *)m;
}
static void child_setup(int cpu, const std::string &errfile) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    setpgid(0, 0);
    int fd = open(errfile.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
    cpu_set_t all; CPU_ZERO(&all);
    if (sched_getaffinity(0, sizeof all, &all) == 0) {
        int n = CPU_COUNT(&all); if (n > 0) {
            int k = cpu % n, seen = 0;
            for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &all)) { if (seen == k) { cpu_set_t o; CPU_ZERO(&o); CPU_SET(i, &o); sched_setaffinity(0, sizeof o, &o); break; } ++seen; }
        }
    }
    rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
}
enum Kind { OK = 0, FAIL, CRASH, HANG };
static const char *kind_name(int k) { static const char *n[] = {"ok", "fail", "crash", "hang"}; return n[k]; }
static std::string tail_of(const std::string &f, size_t n) {
    std::ifstream i(f); std::string s((std::istreambuf_iterator<char>(i)), {}); 
    size_t a = s.find("ERROR: AddressSanitizer"); if (a != std::string::npos) return s.substr(a, n);
    return s.size() > n ? s.substr(s.size() - n) : s;
}
struct Outcome { int kind; std::string msg, notes; std::vector<uint64_t> ch; };
static int g_ncpu_hint = 0;
static Outcome run_forked(const Prop &p, uint64_t seed, const std::vector<uint64_t> *rep, double timeout, const std::string &tmp) {
    static Slot *s = new_slot();
    s->failed = 0; s->done = 0; s->msg[0] = 0; s->nch = 0; s->nlab = 0;
    std::string err = tmp + "/replay.err";
    pid_t pid = fork();
    if (pid == 0) {
        child_setup(g_ncpu_hint, err);
        int r = run_case(p, s, seed, rep, true); s->done = 1;
        rm_tree(g_scratch); _exit(r ? 77 : 0);
    }
    double t0 = now(); int st = 0; Outcome o; o.kind = OK;
    for (;;) {
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid) break;
        if (now() - t0 > timeout) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); o.kind = HANG; break; }
        usleep(now() - t0 < 0.05 ? 300 : 3000);
    }
    o.ch.assign(s->ch, s->ch + s->nch); o.notes = s->note;
    if (o.kind == HANG) o.msg = "case did not finish within " + std::to_string((int)timeout) + " s";
    else if (s->failed) { o.kind = FAIL; o.msg = s->msg; }
    else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
        o.kind = CRASH;
        o.msg = WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "exit status " + std::to_string(WEXITSTATUS(st));
        o.msg += "\n" + tail_of(err, 2500);
    }
    rm_tree(g_scratch_root + "/w" + std::to_string(pid));
    return o;
}

struct Opts { std::string out, replay_dir, tmp, replay, only; uint64_t seed = 1; bool thorough = false; double scale = 1; int workers = 8; double budget = 800; };

static std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if (ch == '\n') r += "\\n";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; } else r += ch;
    }
    return r + "\"";
}

static std::vector<uint64_t> shrink(const Prop &p, std::vector<uint64_t> best, int kind, double timeout, const std::string &tmp, double budget) {
    double t0 = now(); long tries = 0;
    auto bad = [&](const std::vector<uint64_t> &c, std::vector<uint64_t> &used) {
        ++tries; Outcome o = run_forked(p, 0, &c, timeout, tmp);
        if (o.kind == kind) { used = c; if (o.kind == FAIL && o.ch.size() < used.size()) used.resize(o.ch.size()); return true; }
        return false;
    };
    auto over = [&] { return now() - t0 > budget; };
    bool progress = true;
    while (progress && !over()) {
        progress = false;
        std::vector<uint64_t> used;
        for (size_t blk = std::max<size_t>(1, best.size() / 2); blk >= 1 && !over(); blk /= 2) {
            for (size_t i = best.size(); i > 0 && !over();) {
                size_t b = i >= blk ? i - blk : 0;
                std::vector<uint64_t> c(best.begin(), best.begin() + b); c.insert(c.end(), best.begin() + std::min(i, best.size()), best.end());
                if (c.size() < best.size() && bad(c, used)) { best = used; progress = true; i = std::min(b, best.size()); }
                else i = b;
            }
            if (blk == 1) break;
        }
        for (size_t i = 0; i < best.size() && !over(); i++) {
            if (best[i] == 0) continue;
            auto c = best; c[i] = 0;
            if (bad(c, used)) { best = used; progress = true; continue; }
            uint64_t lo = 0, hi = best[i];
            while (hi - lo > 1 && !over()) {
                uint64_t m = lo + (hi - lo) / 2; c = best; if (i >= c.size()) break; c[i] = m;
                if (bad(c, used)) { best = used; hi = m; progress = true; } else lo = m;
            }
        }
    }
    while (!best.empty() && best.back() == 0) best.pop_back();
    return best;
}
static void write_replay(const std::string &f, const Prop &p, const Outcome &o, const std::vector<uint64_t> &ch, uint64_t seed) {
    std::ofstream r(f);
    r << "property " << p.id << "\nharness " << p.name << "\nseed " << seed << "\nkind " << kind_name(o.kind) << "\nchoices";
    for (auto v : ch) r << ' ' << v;
    r << "\n\n--- failure\n" << o.msg << "\n--- case\n" << o.notes << "\n";
}
static int do_replay(const Opts &op) {
    std::ifstream i(op.replay); std::string line, h; std::vector<uint64_t> ch;
    while (std::getline(i, line)) {
        if (line.empty()) break;
        std::istringstream s(line); std::string k; s >> k;
        if (k == "harness") s >> h; else if (k == "choices") { uint64_t v; while (s >> v) ch.push_back(v); }
    }
    for (auto &p : registry()) if (h == p.name) {
        Outcome o = run_forked(p, 0, &ch, p.case_timeout, op.tmp);
        printf("%s %s: %s\n%s\n--- case\n%s\n", p.id, p.name, kind_name(o.kind), o.msg.c_str(), o.notes.c_str());
        return o.kind == OK ? 0 : 1;
    }
    fprintf(stderr, "no such harness: %s\n", h.c_str()); return 2;
}
struct Result { long evals = 0, nontriv = 0, distinct = 0; std::map<std::string, uint64_t> labels; std::vector<std::string> samples; bool violated = false, incomplete = false; std::string replay, msg, flaky; };

static Result run_prop(const Prop &p, const Opts &op, double budget) {
    Result R; double t_start = now();
    long total = std::max(1L, (long)((op.thorough ? p.thorough : p.quick) * op.scale));
    int W = (int)std::min<long>(op.workers, total);
    // shared bitmap-free distinct counting: each worker appends hashes of non-trivial cases
    std::vector<Slot *> slots; std::vector<pid_t> pids(W, 0); std::vector<long> next(W);
    std::vector<std::string> hashf(W), sampf(W);
    for (int w = 0; w < W; w++) {
        slots.push_back(new_slot()); next[w] = w;
        hashf[w] = op.tmp + "/" + p.name + ".h" + std::to_string(w); sampf[w] = op.tmp + "/" + p.name + ".s" + std::to_string(w);
        unlink(hashf[w].c_str()); unlink(sampf[w].c_str());
    }
    auto spawn = [&](int w) {
        slots[w]->done = 0; slots[w]->failed = 0; slots[w]->case_idx = next[w]; slots[w]->started = now();
        pid_t pid = fork();
        if (pid) { pids[w] = pid; return; }
        child_setup(w, op.tmp + "/" + p.name + ".err" + std::to_string(w));
        Slot *s = slots[w];
        FILE *hf = fopen(hashf[w].c_str(), "ab"); int nsamp = 0;
        for (long i = next[w]; i < total; i += W) {
            s->case_idx = i; uint64_t h;
            bool notes = (i / W) % std::max(1L, total / W / 12 + 1) == 0;
            int r = run_case(p, s, case_seed(p, op.seed, i), nullptr, notes, &h);
            s->done = s->done + 1;
            if (r) { fflush(nullptr); _exit(77); }
            if (s->nontriv) fwrite(&h, 8, 1, hf);
            if (notes && s->nontriv && s->nnote && nsamp < 3) { ++nsamp; std::ofstream sf(sampf[w], std::ios::app | std::ios::binary); sf << std::string(s->note).substr(0, 1500) << '\x01'; }
        }
        fclose(hf); if (!g_scratch.empty()) rm_tree(g_scratch); _exit(0);
    };
    struct Bad { int w; long idx; int kind; std::string msg; };
    std::vector<Bad> bads; long finished = 0; int unrep = 0; bool over = false; std::vector<char> idle(W, 0);
    while (!R.violated && !over) {
    bads.clear(); int live = 0; over = true;
    for (int w = 0; w < W; w++) if (!idle[w] && next[w] < total) { spawn(w); ++live; }
    while (live > 0) {
        usleep(2000);
        for (int w = 0; w < W; w++) if (pids[w]) {
            int st; pid_t r = waitpid(pids[w], &st, WNOHANG);
            bool hang = false;
            if (r == 0 && now() - slots[w]->started > p.case_timeout) { kill(-pids[w], SIGKILL); kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); r = pids[w]; hang = true; }
            if (r != pids[w]) continue;
            rm_tree(g_scratch_root + "/w" + std::to_string(pids[w]));
            finished += slots[w]->done; pids[w] = 0; --live;
            bool clean = !hang && WIFEXITED(st) && WEXITSTATUS(st) == 0 && !slots[w]->failed;
            if (!clean) {
                int k = hang || (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) ? HANG : slots[w]->failed ? FAIL : CRASH;
                if (k != FAIL) ++finished;
                bads.push_back({w, (long)slots[w]->case_idx, k, slots[w]->msg}); next[w] = (long)slots[w]->case_idx + W;
            } else idle[w] = 1;
        }
        bool stop = !bads.empty();
        if (now() - t_start > budget) { stop = true; R.incomplete = true; }
        if (stop) { for (int w = 0; w < W; w++) if (pids[w]) { kill(-pids[w], SIGKILL); kill(pids[w], SIGKILL); int st; waitpid(pids[w], &st, 0); finished += slots[w]->done; rm_tree(g_scratch_root + "/w" + std::to_string(pids[w])); pids[w] = 0; --live; next[w] = (long)slots[w]->case_idx; } }
    }
    std::sort(bads.begin(), bads.end(), [](const Bad &a, const Bad &b) { return a.kind != b.kind ? a.kind < b.kind : a.idx < b.idx; });
    for (auto &b : bads) {
        uint64_t cs = case_seed(p, op.seed, b.idx);
        Outcome o = run_forked(p, cs, nullptr, p.case_timeout, op.tmp);
        if (o.kind == OK) { if (b.kind != HANG) ++unrep; R.flaky += "case " + std::to_string(b.idx) + " (" + kind_name(b.kind) + ": " + b.msg + ") did not reproduce; "; continue; }
        int kind = o.kind; double to = kind == HANG ? p.case_timeout : std::min(p.case_timeout, 30.0);
        auto ch = o.ch;
        if (kind != HANG) ch = shrink(p, ch, kind, to, op.tmp, op.thorough ? 120 : 45);
        Outcome last = o; bool ok3 = true;
        for (int i = 0; i < 3; i++) {
            Outcome q = run_forked(p, 0, &ch, p.case_timeout, op.tmp);
            if (q.kind == OK) { ok3 = false; break; } last = q;
            if (kind == HANG && i == 1) break;
        }
        if (!ok3) {  // fall back to the unshrunk case
            ch = o.ch; ok3 = true; last = o;
            for (int i = 0; i < 3 && ok3; i++) { Outcome q = run_forked(p, cs, nullptr, p.case_timeout, op.tmp); if (q.kind == OK) ok3 = false; else last = q; }
        }
        if (!ok3) { if (kind != HANG) ++unrep; R.flaky += "case " + std::to_string(b.idx) + " reproduced only sometimes: " + last.msg + "; "; continue; }
        uint64_t h = 1469598103934665603ull; for (auto v : ch) h = (h ^ v) * 1099511628211ull;
        char nm[64]; snprintf(nm, sizeof nm, "%s-%s-%08x.txt", p.id, p.name, (unsigned)(h ^ h >> 32));
        R.replay = op.replay_dir + "/" + nm; write_replay(R.replay, p, last, ch, op.seed);
        R.violated = true; R.msg = std::string(kind_name(last.kind)) + ": " + last.msg; break;
    }
    if (!R.violated && !bads.empty() && !R.incomplete) {
        over = unrep >= 4;   // the case failed, but depends on something the choices do not determine: look for a better one first
        if (over) { R.violated = true; Outcome o; o.kind = bads[0].kind; o.msg = bads[0].msg + " (case " + std::to_string(bads[0].idx) + " of this seed, not reproduced alone)"; R.msg = std::string(kind_name(o.kind)) + ": " + o.msg; R.replay = op.replay_dir + "/" + p.id + "-" + p.name + "-unreproduced.txt"; write_replay(R.replay, p, o, {}, op.seed); }
    }
    }
    R.evals = finished;
    std::unordered_set<uint64_t> hs;
    for (int w = 0; w < W; w++) {
        std::ifstream f(hashf[w], std::ios::binary); uint64_t h; while (f.read((char *)&h, 8)) { ++R.nontriv; hs.insert(h); }
        std::ifstream g(sampf[w], std::ios::binary); std::string all((std::istreambuf_iterator<char>(g)), {}), cur;
        for (char ch : all) if (ch == '\x01') { if (R.samples.size() < 4) R.samples.push_back(cur); cur.clear(); } else cur += ch;
        for (uint32_t i = 0; i < slots[w]->nlab; i++) R.labels[slots[w]->lab[i].name] += slots[w]->lab[i].n;
        munmap(slots[w], sizeof(Slot));
    }
    R.distinct = hs.size();
    return R;
}
int run_main(int argc, char **argv) {
    Opts op; std::string prop;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--prop") prop = v; else if (k == "--seed") op.seed = strtoull(v.c_str(), 0, 10); else if (k == "--out") op.out = v;
        else if (k == "--replays") op.replay_dir = v; else if (k == "--tmp") op.tmp = v; else if (k == "--tier") op.thorough = v == "thorough";
        else if (k == "--scale") op.scale = atof(v.c_str()); else if (k == "--workers") op.workers = atoi(v.c_str());
        else if (k == "--replay") op.replay = v; else if (k == "--only") op.only = v; else if (k == "--budget") op.budget = atof(v.c_str());
    }
    if (op.tmp.empty()) { char b[] = "/tmp/pbtXXXXXX"; op.tmp = mkdtemp(b); }
    g_scratch_root = op.tmp + "/scratch"; mkdir(g_scratch_root.c_str(), 0700);
    if (!op.replay.empty()) return do_replay(op);
    std::ostringstream js; js << "{\"harnesses\":["; bool first = true; int rc = 0, ran = 0;
    double t0 = now();
    std::vector<const Prop *> todo; for (auto &p : registry()) if ((prop.empty() || prop == p.id) && (op.only.empty() || op.only == p.name)) todo.push_back(&p);
    for (auto *p : todo) {
        double left = op.budget - (now() - t0);
        Result r; ++ran;
        if (*p->known) {
            std::vector<uint64_t> none; Outcome o = run_forked(*p, 0, &none, p->case_timeout, op.tmp); r.evals = 1;
            if (o.kind != OK) { r.violated = true; r.msg = std::string(kind_name(o.kind)) + ": " + o.msg; r.replay = op.replay_dir + "/" + p->id + "-" + p->name + ".txt"; write_replay(r.replay, *p, o, none, op.seed); }
        } else r = run_prop(*p, op, std::max(5.0, left));
        printf("%s %-28s evals=%ld nontrivial=%ld distinct=%ld%s %.1fs%s%s\n", p->id, p->name, r.evals, r.nontriv, r.distinct, r.violated ? " VIOLATED" : "", now() - t0,
               r.incomplete ? " (time budget hit)" : "", r.flaky.empty() ? "" : (" FLAKY: " + r.flaky).c_str());
        if (r.violated) printf("  %s\n  replay %s\n", r.msg.c_str(), r.replay.c_str());
        fflush(stdout);
        js << (first ? "" : ",") << "{\"id\":" << jstr(p->id) << ",\"name\":" << jstr(p->name) << ",\"known\":" << jstr(p->known) << ",\"rule\":" << jstr(p->rule) << ",\"evaluations\":" << r.evals
           << ",\"nontrivial\":" << r.nontriv << ",\"distinct_nontrivial\":" << r.distinct << ",\"violated\":" << (r.violated ? "true" : "false")
           << ",\"incomplete\":" << (r.incomplete ? "true" : "false") << ",\"replay\":" << jstr(r.replay) << ",\"msg\":" << jstr(r.msg) << ",\"flaky\":" << jstr(r.flaky) << ",\"labels\":{";
        bool f2 = true; for (auto &l : r.labels) { js << (f2 ? "" : ",") << jstr(l.first) << ":" << l.second; f2 = false; }
        js << "},\"samples\":["; f2 = true; for (auto &s : r.samples) { js << (f2 ? "" : ",") << jstr(s); f2 = false; }
        js << "]}"; first = false;
        if (r.violated && !*p->known) { rc = 1; break; }
    }
    js << "]}";
    if (!op.out.empty()) { std::ofstream(op.out) << js.str(); }
    rm_tree(g_scratch_root);
    if (!ran) { fprintf(stderr, "no harness for %s\n", prop.c_str()); return 2; }
    return rc;
}
}  // namespace pbt
int main(int argc, char **argv) { return pbt::run_main(argc, argv); }
