// The simulator: executes a scenario (explicit list of operations and faults) on the real code and decides the
// property under check. Protocol: scenarios on stdin, one JSON verdict per scenario on stdout.
#include "model.h"
#include <algorithm>
#include <climits>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <iostream>
#include <poll.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <int_dict_p.h>

extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace seam;
using std::string;
using std::to_string;

// ================================================================ scenario
struct Op {
    string name;
    std::map<string, string> a;
    bool has(const string &k) const { return a.count(k) > 0; }
    long num(const string &k, long d = 0) const { auto it = a.find(k); return it == a.end() ? d : atol(it->second.c_str()); }
    double real(const string &k, double d) const { auto it = a.find(k); return it == a.end() ? d : atof(it->second.c_str()); }
    string str(const string &k, const string &d = "") const { auto it = a.find(k); return it == a.end() ? d : it->second; }
};
struct Scenario {
    string prop;
    Op head;
    std::vector<Op> ops;
    int variants = 1;
};
static Op parse_op(const string &line) {
    Op o;
    std::istringstream is(line);
    string t;
    is >> o.name;
    while (is >> t) {
        size_t e = t.find('=');
        if (e == string::npos) o.a[t] = "1"; else o.a[t.substr(0, e)] = t.substr(e + 1);
    }
    return o;
}
static Seq parse_seq(const string &s) {
    Seq r;
    size_t i = 0;
    while (i < s.size()) {
        size_t e = s.find('.', i);
        if (e == string::npos) e = s.size();
        if (e > i) r.push_back(atoi(s.substr(i, e - i).c_str()));
        i = e + 1;
    }
    return r;
}
static Seqs parse_seqs(const string &s) {
    Seqs r;
    if (s.empty()) return r;
    size_t i = 0;
    while (true) {
        size_t e = s.find('|', i);
        if (e == string::npos) { r.push_back(parse_seq(s.substr(i))); break; }
        r.push_back(parse_seq(s.substr(i, e - i)));
        i = e + 1;
    }
    return r;
}
// Data sources. src: d words without common symbols, u uniform, z skewed, m Markov, w words, c periodic, k constant runs.
static Seqs gen_data(const Op &o, int limit) {
    if (o.has("lit")) {
        Seqs s = parse_seqs(o.str("lit"));
        for (auto &q : s) for (auto &v : q) v %= limit;
        return s;
    }
    string src = o.str("src", "u");
    long A = std::max(1L, std::min<long>(o.num("A", 4), limit)), K = std::max(1L, o.num("K", 5)), L = std::max(1L, o.num("L", 4));
    long n = o.num("n", 10), len = std::max(1L, o.num("len", 10)), g = o.num("g", 0), off = o.num("o", 0);
    long ws = o.num("ws", 7), emp = o.num("emp", 0), fix = o.num("fix", 0);
    Rng r(mix(o.num("seed", 1)) ^ 0x5bd1e995);
    Rng wr(mix(ws) ^ 0x1234567);
    Seqs words;
    for (int i = 0; i < K; i++) {
        Seq w;
        long wl = L <= 1 ? 2 : 2 + wr.below(L);
        for (int j = 0; j < wl; j++) w.push_back((int) wr.below(A));
        words.push_back(w);
    }
    Seq succ;
    for (int i = 0; i < A; i++) succ.push_back((int) wr.below(A));
    Seqs out;
    for (long i = 0; i < n; i++) {
        long Ai = g > 0 ? std::max(1L, std::min(A, g + i * (A - g + 1) / std::max(1L, n))) : A;
        long l = fix ? len : 1 + (long) r.below(len);
        Seq q;
        if (emp && r.below(emp) == 0) { out.push_back(q); continue; }
        int cur = (int) r.below(Ai);
        long phase = r.below(Ai);
        while ((long) q.size() < l) {
            if (src == "u") q.push_back((int) r.below(Ai));
            else if (src == "z") { double u = r.unit(); q.push_back(std::min<int>((int) Ai - 1, (int) (Ai * u * u * u))); }
            else if (src == "m") { q.push_back(cur); cur = r.chance(0.85) ? succ[cur] % (int) Ai : (int) r.below(Ai); }
            else if (src == "w") { const Seq &w = words[(size_t) (K * r.unit() * r.unit())]; for (int v : w) q.push_back(v % (int) Ai); }
            else if (src == "d") { long w = (long) r.below(K); for (long j = 0; j < L; j++) q.push_back((int) (w * L + j)); }
            else if (src == "c") { q.push_back((int) (phase % Ai)); phase++; }
            else q.push_back(cur);
        }
        if ((src == "w" || src == "d") && fix) q.resize(l);
        for (auto &v : q) v = (int) ((v + off) % limit);
        out.push_back(q);
    }
    return out;
}

// ================================================================ a tiny independent JSON reader (for saved files)
struct J {
    char t = 'n';  // n b i d s a o
    double d = 0;
    long i = 0;
    bool b = false;
    string s;
    std::vector<J> a;
    std::vector<std::pair<string, J>> o;
    const J *get(const string &k) const { for (auto &p : o) if (p.first == k) return &p.second; return nullptr; }
};
struct JReader {
    const string &s;
    size_t p = 0;
    bool bad = false;
    explicit JReader(const string &t) : s(t) {}
    void ws() { while (p < s.size() && (s[p] == ' ' || s[p] == '\n' || s[p] == '\t' || s[p] == '\r')) p++; }
    J val() {
        J j;
        ws();
        if (bad || p >= s.size()) { bad = true; return j; }
        char c = s[p];
        if (c == '{') {
            j.t = 'o'; p++; ws();
            if (p < s.size() && s[p] == '}') { p++; return j; }
            while (!bad) {
                ws();
                J k = val();
                if (k.t != 's') { bad = true; break; }
                ws();
                if (p >= s.size() || s[p] != ':') { bad = true; break; }
                p++;
                j.o.push_back({k.s, val()});
                ws();
                if (p < s.size() && s[p] == ',') { p++; continue; }
                if (p < s.size() && s[p] == '}') { p++; break; }
                bad = true;
            }
        } else if (c == '[') {
            j.t = 'a'; p++; ws();
            if (p < s.size() && s[p] == ']') { p++; return j; }
            while (!bad) {
                j.a.push_back(val());
                ws();
                if (p < s.size() && s[p] == ',') { p++; continue; }
                if (p < s.size() && s[p] == ']') { p++; break; }
                bad = true;
            }
        } else if (c == '"') {
            j.t = 's'; p++;
            while (p < s.size() && s[p] != '"') {
                if (s[p] == '\\' && p + 1 < s.size()) {
                    p++;
                    char e = s[p];
                    if (e == 'n') j.s += '\n'; else if (e == 't') j.s += '\t'; else if (e == 'r') j.s += '\r';
                    else if (e == 'b') j.s += '\b'; else if (e == 'f') j.s += '\f';
                    else if (e == 'u') {
                        unsigned u = (unsigned) strtoul(s.substr(p + 1, 4).c_str(), nullptr, 16);
                        p += 4;
                        if (u < 0x80) j.s += (char) u;
                        else if (u < 0x800) { j.s += char(0xC0 | u >> 6); j.s += char(0x80 | (u & 63)); }
                        else { j.s += char(0xE0 | u >> 12); j.s += char(0x80 | ((u >> 6) & 63)); j.s += char(0x80 | (u & 63)); }
                    } else j.s += e;
                    p++;
                } else j.s += s[p++];
            }
            if (p >= s.size()) bad = true; else p++;
        } else if (s.compare(p, 4, "true") == 0) { j.t = 'b'; j.b = true; p += 4; }
        else if (s.compare(p, 5, "false") == 0) { j.t = 'b'; p += 5; }
        else if (s.compare(p, 4, "null") == 0) { p += 4; }
        else if (c == '-' || (c >= '0' && c <= '9')) {
            size_t q = p;
            while (q < s.size() && strchr("+-.eE0123456789", s[q])) q++;
            string n = s.substr(p, q - p);
            j.d = atof(n.c_str());
            j.i = atol(n.c_str());
            j.t = n.find_first_of(".eE") == string::npos ? 'i' : 'd';
            p = q;
        } else bad = true;
        return j;
    }
    J document() { J j = val(); ws(); if (p != s.size()) bad = true; return j; }
};

// ================================================================ reporting
static int out_fd = -1;
static string cur_prop;
static int variant = 0;
static string where;  // current operation, for reports
static void emit(char tag, const string &s) {
    string l(1, tag);
    l += ' ';
    for (char c : s) { if (c == '\n') l += "\\n"; else l += c; }
    l += '\n';
    size_t o = 0;
    while (o < l.size()) {
        long n = syscall(SYS_write, out_fd, l.data() + o, l.size() - o);
        if (n <= 0) _exit(94);
        o += n;
    }
}
static void finish(int code);
[[noreturn]] static void violate(const string &key, const string &msg) {
    emit('V', key + "|" + where + ": " + msg);
    finish(1);
    _exit(1);
}
static std::map<string, long> probes;
static void probe(const string &k, long n = 1) { probes[k] += n; }
static void finish(int code) {
    string s;
    for (int i = 0; i < F_N; i++) if (fault_count[i]) s += string(fault_names[i]) + "=" + to_string(fault_count[i]) + " ";
    emit('F', s);
    s.clear();
    for (auto &p : probes) s += p.first + "=" + to_string(p.second) + " ";
    emit('P', s);
    emit('S', to_string(seam::steps));
    emit('E', to_string(code));
    _exit(code);
}
static void hang(const char *what) { alloc_cur = nullptr; violate("hang", what); }
static bool on(const char *list) { return strstr(list, cur_prop.c_str()) != nullptr; }

static string show(const Seq &s) {
    string r = "[";
    for (size_t i = 0; i < s.size() && i < 60; i++) { if (i) r += " "; r += to_string(s[i]); }
    return r + (s.size() > 60 ? " ...]" : "]");
}
static string show(const Seqs &s) {
    string r;
    for (size_t i = 0; i < s.size() && i < 40; i++) r += show(s[i]);
    return r;
}
static uint64_t hash_str(const string &s) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return h;
}
static string hex(uint64_t v) { char b[20]; snprintf(b, sizeof b, "%016llx", (unsigned long long) v); return b; }
static string show(const Snapshot &s) {
    string r = to_string(s.alpha.size()) + " entries:";
    for (size_t i = 0; i < s.alpha.size(); i++) r += " " + show(s.alpha[i]) + (i < s.freqs.size() ? "x" + to_string(s.freqs[i]) : "");
    if (s.freqs.size() != s.alpha.size()) r += " freqs " + show(s.freqs);
    return r;
}

// ================================================================ console
struct Console : std::streambuf {
    long bytes = 0;
    long fail_after = -1;  // fail every write after this many bytes
    bool throws = false;
    bool failing() { if (fail_after >= 0 && bytes >= fail_after) { fault_count[F_CONSOLE]++; if (throws) throw std::runtime_error("console"); return true; } return false; }
    int overflow(int c) override { bytes++; if (failing()) return EOF; return c == EOF ? 0 : c; }
    std::streamsize xsputn(const char *, std::streamsize n) override { bytes += n; if (failing()) return 0; return n; }
    int sync() override { return fail_after >= 0 && bytes >= fail_after ? -1 : 0; }
};
static Console console;
static long fd_bytes() {  // what reached the real descriptors 1 and 2
    fflush(stdout);
    struct stat a, b;
    long n = 0;
    if (fstat(1, &a) == 0) n += a.st_size;
    if (fstat(2, &b) == 0) n += b.st_size;
    return n;
}

// ================================================================ world
struct Shadow {
    std::shared_ptr<Model> m;
    int size = 0, verbose = 0, mode = 0, iters = 0;
    Seqs hist;                      // sequences accepted since creation or loading
    std::vector<uint64_t> ph;       // prefix sums: multiset hash
    std::vector<long> pl;           // prefix sums: length
    std::set<int> known;            // every symbol trained on for certain
    std::set<int> pubknown;         // those of them that the last publication has to contain
    std::set<int> lost;             // trained on before a restart, but not published then
    void publish_known() { published = true; pubknown.clear(); for (int v : known) if (!lost.count(v)) pubknown.insert(v); }
    // C14: symbols that came, or came back, after that, or that only the file of the model knows: they come on top
    std::set<int> late;
    long attempted = 0;             // symbols offered to accept and fit
    std::set<int> maybe;            // may have been (failed operations)
    Seqs base;                      // multi-symbol entries of the file it was loaded from
    Seqs material;                  // everything it has been trained on (C15)
    std::set<Seq> verified;         // entries found in the material
    Snapshot pub;                   // as last published
    bool published = false;
    bool fitted = false;            // a fit has completed
    bool partial = false;           // a fit has been interrupted or failed
    bool range_known = true;        // C05
    size_t range_lo = 0;
    bool fresh_counts = true;       // no rebuild possible yet
    double min_prob = 0.002;
    bool has_result = false;
    long tokens = 0;                // symbols accepted since creation or loading
    size_t cap_syms = 0; bool cap_on = false;   // C14: the capacity is certain to hold for this many symbols
    size_t last_new = 0;            // C14: index of the last sequence with a new symbol
    long last_new_tokens = 0;
    string fitsig;                  // C16: the corpus of incomplete fits
    size_t upd_hist = (size_t) -2; long upd_tokens = 0; int upd_zeros = 0;  // C05: the last publication
    bool shown = false;             // all that was accepted has been published since
    bool idle = false;              // nothing happened since the last update but reads
    string qsig; long qtokens = 0;  // C16: symbols of one undisturbed source accepted since then
    Seqs corpus;
    bool from_file = false;
};
struct World {
    Scenario sc;
    std::map<int, Shadow> slots;
    std::map<string, std::pair<int, string>> files;   // name -> kind it was saved from, bytes
    std::shared_ptr<vgram_core::BaseTokenizer> toks[4];
    std::map<string, int> tok_ids[4];
    std::map<int, string> tok_back[4];
    std::shared_ptr<IntDictImpl> dict;
    Seqs dict_entries; Seq dict_parents; size_t dict_built = 0;
    void run();
    void op(const Op &o);
};
static World W;
static void obs(int slot, const string &s) { emit('O', to_string(slot) + " " + s); }

struct Outcome {
    bool ok = true;
    string err;
    bool oom = false;   // the exception was bad_alloc
    long oom_fired = 0, intr_fired = 0, polls = 0;
    int hard = 0, soft = 0;
    bool console_failed = false;
};
static void arm_io(const Op &o, IoPlan &p) {
    static const std::map<string, int> errs = {{"ENOSPC", ENOSPC}, {"EIO", EIO}, {"EACCES", EACCES}, {"EDQUOT", EDQUOT}, {"EMFILE", EMFILE},
                                               {"EROFS", EROFS}, {"ENOENT", ENOENT}, {"EFBIG", EFBIG}, {"EINTR", EINTR}};
    auto err = [&](const string &k) { auto it = errs.find(o.str(k)); return it == errs.end() ? 0 : it->second; };
    p.open_err = err("f.open"); p.open_nth = (int) o.num("f.openn", 1);
    p.w_err = err("f.werr"); p.w_err_at = o.num("f.wat", 0); if (o.has("f.wn")) p.w_err_n = (int) o.num("f.wn");
    p.w_chunk = o.num("f.wchunk"); p.w_eintr = (int) o.num("f.weintr");
    p.w_dead_at = o.num("f.dead", -1);
    p.close_err = err("f.close"); p.ren_err = err("f.rename");
    p.r_err = err("f.rerr"); p.r_err_at = o.num("f.rat", 0); p.r_open = (int) o.num("f.ropen");
    p.r_chunk = o.num("f.rchunk"); p.r_eintr = (int) o.num("f.reintr");
    p.seed = o.num("f.seed", 1);
}
// Runs one call into the code under test with the faults of `o` armed (memory only if `oom`).
template<class F>
static Outcome call(const Op &o, F f, bool oom = true, IoPlan *io = nullptr) {
    Outcome r;
    AllocPlan ap;
    if (oom && o.has("f.oom")) { ap.fail_at = o.num("f.oom"); ap.fail_n = o.num("f.oomn", 1); ap.min_size = o.num("f.ooms", 0); }
    Interrupt in;
    in.at = o.num("f.intr");
    RandState rs;
    bool draws = o.has("rs");
    if (draws) {
        static const std::map<string, RandPolicy> pol = {{"u", kUniform}, {"c", kConst}, {"r", kRoundRobin}, {"s", kSubset}, {"t", kSticky}, {"z", kZero}, {"x", kMax}, {"a", kAlternate}};
        auto it = pol.find(o.str("rp", "u"));
        rs.policy = it == pol.end() ? kUniform : it->second;
        rs.rng = Rng(mix(o.num("rs")));
        rs.n = std::max(1L, o.num("_docs", 1));
        rs.p = o.num("rq", 0);
        rand_cur = &rs;
    }
    alloc_cur = &ap;
    io_cur = io;
    intr_cur = &in;
    op_steps = 0;
    try {
        f();
    } catch (const std::bad_alloc &e) {
        alloc_cur = nullptr;
        r.ok = false; r.oom = true; r.err = "bad_alloc";
    } catch (const BadOutput &) {
        alloc_cur = nullptr; io_cur = nullptr; intr_cur = nullptr; rand_cur = nullptr;
        throw;
    } catch (const std::exception &e) {
        alloc_cur = nullptr;
        r.ok = false; r.err = e.what();
    } catch (...) {
        alloc_cur = nullptr;
        r.ok = false; r.err = "an exception that is not a std::exception";
    }
    alloc_cur = nullptr; io_cur = nullptr; intr_cur = nullptr; rand_cur = nullptr;
    r.oom_fired = ap.fired;
    r.intr_fired = in.fired;
    r.polls = in.seen;
    if (io) { r.hard = io->hard_fired; r.soft = io->soft_fired; }
    if (!r.ok && !ap.fired && !(io && io->hard_fired) && !o.has("_maythrow") && !o.has("target")) violate("exception", "unexpected exception: " + r.err);
    return r;
}

static uint64_t sym_hash(int s) { return mix((uint64_t) (unsigned) s * 2654435761u + 99); }
static void note_hist(Shadow &s, const Seq &q) {
    if (s.ph.empty()) { s.ph.push_back(0); s.pl.push_back(0); }
    uint64_t h = s.ph.back();
    for (int v : q) h += sym_hash(v);
    s.ph.push_back(h);
    s.pl.push_back(s.pl.back() + (long) q.size());
    s.hist.push_back(q);
    s.tokens += (long) q.size();
}
static bool occurs(const Seqs &mat, const Seq &e) {
    for (const Seq &q : mat)
        if (q.size() >= e.size() && std::search(q.begin(), q.end(), e.begin(), e.end()) != q.end()) return true;
    return false;
}
static Seq concat(const Seqs &e) { Seq r; for (auto &x : e) r.insert(r.end(), x.begin(), x.end()); return r; }

// ---------------------------------------------------------------- oracles on a published snapshot
static void check_well_formed(Shadow &s, const Snapshot &p) {
    if (p.alpha.size() != p.freqs.size())
        violate("aligned", "alphabet has " + to_string(p.alpha.size()) + " entries but there are " + to_string(p.freqs.size()) + " frequencies");
    std::set<Seq> seen;
    for (size_t i = 0; i < p.alpha.size(); i++) {
        if (p.alpha[i].empty()) violate("empty-entry", "entry " + to_string(i) + " is empty");
        if (!seen.insert(p.alpha[i]).second) violate("duplicate", "entry " + show(p.alpha[i]) + " appears twice");
        if (p.freqs[i] < 0) violate("negative", "frequency of " + show(p.alpha[i]) + " is " + to_string(p.freqs[i]));
    }
    probe("well_formed_checks");
}
static void check_singles(Shadow &s, const Snapshot &p) {
    if (!s.published) return;
    std::set<int> singles;
    for (auto &e : p.alpha) if (e.size() == 1) singles.insert(e[0]);
    for (int v : s.pubknown)
        if (!singles.count(v)) violate("symbol-lost", "symbol " + to_string(v) + " was trained on but is not an entry (" + to_string(singles.size()) + " symbols are)");
    probe("symbol_checks");
}
static void check_lossless(const Snapshot &p, const Seq &q, const Parsed &r) {
    std::set<int> singles;
    for (auto &e : p.alpha) if (e.size() == 1) singles.insert(e[0]);
    Seq want;
    for (int v : q) if (singles.count(v)) want.push_back(v);
    Seq got = concat(r.entries);
    std::set<Seq> entries(p.alpha.begin(), p.alpha.end());
    for (auto &e : r.entries) if (!entries.count(e)) violate("not-an-entry", "a piece " + show(e) + " of the segmentation of " + show(q) + " is not a dictionary entry");
    if (got != want)
        violate("lossless", "sequence " + show(q) + " without unknown symbols is " + show(want) + " but its segmentation spells " + show(got) + ": " + show(r.entries));
    probe("segmentations");
    if (want.size() != q.size()) probe("segmentations_with_unknown");
    for (auto &e : r.entries) if (e.size() > 1) { probe("segmentations_with_vgrams"); break; }
}
static void check_best(const Snapshot &p, const Seq &q, const Parsed &r) {
    if (p.alpha.size() != p.freqs.size()) return;  // C03's business
    std::map<Seq, int> id;
    size_t longest = 1;
    for (size_t i = 0; i < p.alpha.size(); i++) { id[p.alpha[i]] = (int) i; longest = std::max(longest, p.alpha[i].size()); }
    double total = (double) p.alpha.size();
    for (int f : p.freqs) total += f;
    Seq want;
    for (int v : q) if (id.count(Seq(1, v))) want.push_back(v);
    auto lp = [&](int i) { return log((double) p.freqs[i] + 1) - log(total); };
    std::vector<double> best(want.size() + 1, -1e300);
    std::vector<int> alt(want.size() + 1, 0);
    best[0] = 0;
    for (size_t i = 0; i < want.size(); i++)
        for (size_t l = 1; l <= longest && i + l <= want.size(); l++) {
            auto it = id.find(Seq(want.begin() + i, want.begin() + i + l));
            if (it == id.end()) continue;
            double v = best[i] + lp(it->second);
            if (v > best[i + l]) { best[i + l] = v; alt[i + l] = (int) l; }
        }
    double got = 0;
    for (auto &e : r.entries) {
        auto it = id.find(e);
        if (it == id.end()) return;  // C01's business
        got += lp(it->second);
    }
    if (concat(r.entries) != want) return;
    if (got < best[want.size()] - 1e-9 * (1 + fabs(best[want.size()]))) {
        Seqs b;
        for (size_t e = want.size(); e > 0; e -= alt[e]) b.insert(b.begin(), Seq(want.begin() + e - alt[e], want.begin() + e));
        violate("not-best", "segmentation " + show(r.entries) + " has log-likelihood " + to_string(got) + " but " + show(b) + " has " + to_string(best[want.size()]));
    }
    probe("optimality_checks");
    if (r.entries.size() < want.size()) probe("optimality_checks_with_vgrams");
}
static void check_counts_equal(const Snapshot &p, const Seqs &corpus, const char *what) {
    std::map<int, long> have, want;
    for (size_t i = 0; i < p.alpha.size() && i < p.freqs.size(); i++) for (int v : p.alpha[i]) have[v] += p.freqs[i];
    for (auto &q : corpus) for (int v : q) want[v]++;
    for (auto &w : want) if (have[w.first] != w.second)
        violate("conservation", string(what) + ": symbol " + to_string(w.first) + " occurs " + to_string(w.second) + " times in the data but the frequencies account for " + to_string(have[w.first]));
    for (auto &h : have) if (h.second != 0 && !want.count(h.first))
        violate("conservation", string(what) + ": the frequencies account for " + to_string(h.second) + " occurrences of symbol " + to_string(h.first) + ", which the data does not contain");
    probe("conservation_checks");
}
static void check_range(Shadow &s, const Snapshot &p) {  // after an update
    if (!s.range_known) return;
    if (s.ph.empty()) { s.ph.push_back(0); s.pl.push_back(0); }
    size_t n = s.hist.size();
    long total = 0;
    uint64_t h = 0;
    for (size_t i = 0; i < p.alpha.size() && i < p.freqs.size(); i++)
        for (int v : p.alpha[i]) { total += p.freqs[i]; h += sym_hash(v) * (uint64_t) p.freqs[i]; }
    // no rebuild is possible before the learner has seen this many pieces
    bool certain = s.fresh_counts && (double) s.tokens < 0.95 * 2.302585 / s.min_prob;
    if (certain) {
        if (total != s.pl[n] || h != s.ph[n])
            violate("counts", "the frequencies account for " + to_string(total) + " symbols, but " + to_string(s.pl[n]) + " have been accepted since the start" + (total == s.pl[n] ? " (different ones)" : ""));
        probe("count_checks_exact");
        return;
    }
    for (size_t i = s.range_lo; i <= n; i++) {
        long want = s.pl[i] + total;
        auto lo = std::lower_bound(s.pl.begin() + i, s.pl.end(), want);
        for (; lo != s.pl.end() && *lo == want; ++lo) {
            size_t j = lo - s.pl.begin();
            if (s.ph[j] - s.ph[i] == h) {
                s.range_lo = i;
                probe("count_checks_run");
                if (i > 0 && total > 0) probe("count_checks_after_rebuild");
                return;
            }
        }
    }
    violate("counts", "the frequencies account for " + to_string(total) + " symbols, which are those of no unbroken run of the " + to_string(n) + " accepted sequences");
}
// The published frequencies start from zero when the dictionary is pruned. True if, whatever run of the history they
// account for, it starts after the last sequence that brought a new symbol. (In a new model they do so once before,
// when the dictionary first grows: its first 10000 symbols prove nothing.)
static bool pruned_since_last_new(Shadow &s, const Snapshot &p) {
    if (s.ph.empty()) return false;
    long total = 0;
    uint64_t h = 0;
    for (size_t i = 0; i < p.alpha.size() && i < p.freqs.size(); i++)
        for (int v : p.alpha[i]) { total += p.freqs[i]; h += sym_hash(v) * (uint64_t) p.freqs[i]; }
    if (total <= 0) return false;
    bool any = false;
    for (size_t i = 0; i <= s.hist.size(); i++) {
        long want = s.pl[i] + total;
        for (auto lo = std::lower_bound(s.pl.begin() + i, s.pl.end(), want); lo != s.pl.end() && *lo == want; ++lo)
            if (s.ph[lo - s.pl.begin()] - s.ph[i] == h) { if (i <= s.last_new) return false; any = true; break; }
    }
    return any;
}
static void check_substrings(Shadow &s, const Snapshot &p) {
    for (auto &e : p.alpha) {
        if (e.size() < 2 || s.verified.count(e)) continue;
        if (std::find(s.base.begin(), s.base.end(), e) != s.base.end() || occurs(s.material, e)) { s.verified.insert(e); probe("vgrams_verified"); continue; }
        violate("not-in-data", "entry " + show(e) + " occurs in none of the " + to_string(s.material.size()) + " sequences trained on");
    }
}
static size_t n_multi(const Snapshot &p) { size_t k = 0; for (auto &e : p.alpha) k += e.size() > 1; return k; }

static std::vector<Parsed> parse_now(Shadow &s, const Op &o, const Seqs &qs, const Snapshot &p, int how, uint64_t noise) {
    auto c = s.m->prepare(qs, noise);
    Model::Raw raw;
    Outcome r = call(o, [&] { raw = s.m->parse_raw(c, how); });
    if (!r.ok) return {};
    auto out = s.m->interpret(raw, p);
    if (out.size() != qs.size()) violate("results", to_string(qs.size()) + " sequences given, " + to_string(out.size()) + " results returned");
    return out;
}
static const Op plain{"plain", {}};
static Snapshot snap_now(Shadow &s) {
    Model::RawSnap raw;
    call(plain, [&] { raw = s.m->snap_raw(); });
    return s.m->snap(raw);
}
static int any_symbol(const Shadow &s, Rng &r, int lim) {
    if (r.chance(0.2) || s.known.empty()) return (int) r.below(std::min(lim, r.chance(0.5) ? 400 : lim));
    return (int) r.below(std::min(lim, *s.known.rbegin() * 2 + 3));
}
// sequences to try after an operation: from the data, and with symbols nobody has seen
static Seqs trial_seqs(Shadow &s, uint64_t seed) {
    Rng r(mix(seed));
    Seqs t;
    int lim = max_symbol(s.m->kind);
    t.push_back({});
    for (int k = 0; k < 3; k++) {
        Seq q;
        const Seqs &src = s.hist.empty() ? s.corpus : s.hist;
        if (!src.empty()) {
            q = src[r.below(src.size())];
            if (k == 1) { Seq q2 = src[r.below(src.size())]; q.insert(q.end(), q2.begin(), q2.end()); }
        }
        if (k == 2) for (int i = 0; i < 12; i++) q.insert(q.begin() + r.below(q.size() + 1), any_symbol(s, r, lim));
        t.push_back(q);
    }
    Seq all;
    for (int v : s.known) { all.push_back(v); if (all.size() > 80) break; }
    for (size_t i = all.size(); i > 1; i--) std::swap(all[i - 1], all[r.below(i)]);
    t.push_back(all);
    // entries and parts of entries one after the other
    const Seqs &ents = s.base.empty() || r.chance(0.5) ? s.pub.alpha : s.base;
    if (!ents.empty()) {
        Seq q;
        for (int i = 0; i < 5; i++) {
            Seq e = ents[r.below(ents.size())];
            if (r.chance(0.3)) e.resize(1 + r.below(e.size()));
            else if (r.chance(0.2)) e.erase(e.begin(), e.begin() + r.below(e.size()));
            q.insert(q.end(), e.begin(), e.end());
            if (r.chance(0.2)) q.push_back(any_symbol(s, r, lim));
        }
        t.push_back(q);
    }
    return t;
}
static void check_usable(Shadow &s, uint64_t seed) {  // "well formed and segments losslessly"
    Snapshot p = snap_now(s);
    check_well_formed(s, p);
    check_singles(s, p);
    Seqs t = trial_seqs(s, seed);
    auto r = parse_now(s, plain, t, p, (int) (seed % 3), seed % 2 ? seed : 0);
    for (size_t i = 0; i < t.size(); i++) check_lossless(p, t[i], r[i]);
}

// everything the property under check wants to know after an operation on a model
static void after_op(Shadow &s, const Op &o, bool publishes, bool certain) {
    uint64_t seed = hash_str(where);
    if (on("C12")) return;  // nothing is read before the readers do
    if (on("C04") && !publishes && certain) {
        Snapshot p = snap_now(s);
        if (!(p == s.pub)) violate("published-changed", "the published dictionary changed without an update: " + show(s.pub) + " became " + show(p));
        probe("unchanged_checks");
        return;
    }
    if (on("C04 C05 C06 C14 C15") || publishes || on("C03 C13 C07 C16")) {
        if (on("C11 C12 C17 C19 C18 C08 C09 C10 C20") && !publishes) return;
        Snapshot p = snap_now(s);
        if (on("C03")) { check_well_formed(s, p); check_singles(s, p); }
        if (on("C15")) check_substrings(s, p);
        if (publishes) s.pub = p;
        if (on("C14") && publishes && o.name == "upd" && (s.from_file || s.tokens >= 10000) && pruned_since_last_new(s, p)) { s.cap_on = true; s.cap_syms = s.known.size() - s.lost.size(); s.late = s.lost; probe("prunes_seen"); }
        if (on("C14") && publishes && s.cap_on) {
            size_t nsym = 0;
            for (auto &e : p.alpha) nsym += e.size() == 1;
            size_t late = s.late.size();
            size_t bound = std::max<size_t>((size_t) std::max(s.size, 0), std::max(s.cap_syms, (size_t) 0)) + late;
            if (p.alpha.size() > bound)
                violate("capacity", "the dictionary has " + to_string(p.alpha.size()) + " entries, size is " + to_string(s.size) + " and there are " + to_string(nsym) + " symbols (" + to_string(late) + " of them late)");
            probe("capacity_checks");
            if (n_multi(p)) probe("capacity_checks_with_vgrams");
            if (s.known.size() >= (size_t) std::max(s.size, 0)) probe("capacity_checks_tight");
        }
    }
    if (on("C01 C02")) {
        Snapshot p = snap_now(s);
        if (publishes) s.pub = p;
        Seqs t = trial_seqs(s, seed);
        auto r = parse_now(s, plain, t, p, (int) (seed % 3), seed % 2 ? seed : 0);
        for (size_t i = 0; i < t.size(); i++) { if (on("C01")) check_lossless(p, t[i], r[i]); else check_best(p, t[i], r[i]); }
    }
    if (on("C07 C13")) check_usable(s, seed);
}

static void emit_snap(int slot, Shadow &s) { obs(slot, "snap " + show(snap_now(s))); }
static Shadow *get(const Op &o, const char *k = "m") {
    auto it = W.slots.find((int) o.num(k));
    return it == W.slots.end() || !it->second.m ? nullptr : &it->second;
}
static void set_cap_after_load(Shadow &s) {
    s.cap_on = true;
    s.cap_syms = s.known.size();
}
static void adopt_loaded(Shadow &n, const Shadow &old, std::shared_ptr<Model> m) {
    n.m = m;
    n.m->r.back = old.m ? old.m->r.back : std::map<int, int>();
    n.size = old.size; n.verbose = 1; n.mode = old.mode; n.iters = old.iters;
    n.known = old.known; n.maybe = old.maybe; n.attempted = old.attempted;
    n.fitted = old.fitted; n.partial = old.partial;
    n.corpus = old.corpus;
    n.fitsig = old.fitsig;
    if (old.fitted) { n.qsig = old.qsig; n.qtokens = old.qtokens; }
    n.from_file = true;
}
static double saved_min_prob(const string &bytes) {
    JReader r(bytes);
    J j = r.document();
    const J *v = r.bad ? nullptr : j.get("min_prob");
    return v && (v->t == 'd' || v->t == 'i') ? v->d : -1;
}

// ---------------------------------------------------------------- C08: the file and the loaded model
static void check_file_format(Shadow &s, const string &bytes, const Snapshot &p) {
    JReader rd(bytes);
    J j = rd.document();
    if (rd.bad || j.t != 'o') violate("format", "the saved file is not a JSON object");
    const J *size = j.get("size"), *coder = j.get("coder"), *alpha = j.get("alphabet"), *mp = j.get("min_prob");
    if (!size || size->t != 'i') violate("format", "no \"size\" in the saved file");
    if (size->i != s.size) violate("size", "the file says size " + to_string(size->i) + ", the model was made with " + to_string(s.size));
    if (!mp) violate("format", "no \"min_prob\" in the saved file");
    if (!coder || !alpha) violate("format", "no \"coder\" or \"alphabet\" in the saved file");
    if (is_fit(s.m->kind)) {
        const J *f = j.get("fitted"), *c = j.get("freqs_computed");
        if (!f || !c || f->t != 'b' || c->t != 'b') violate("format", "no \"fitted\" or \"freqs_computed\" in the saved file");
        if (s.fitted && !(f->b && c->b)) violate("fitted", "a fitted model is saved as not fitted");
        if (!s.fitted && f->b && c->b) violate("fitted", "a model whose fit never completed is saved as fitted");
    }
    if (alpha->a.size() != p.alpha.size()) violate("format", "the file lists " + to_string(alpha->a.size()) + " entries of " + to_string(p.alpha.size()));
    std::map<int, string> texts;
    for (size_t i = 0; i < alpha->a.size(); i++) {
        const J *vec = alpha->a[i].get("vec"), *fr = alpha->a[i].get("freq"), *tx = alpha->a[i].get("text");
        if (!vec || vec->t != 'a' || !fr || fr->t != 'i') violate("format", "entry " + to_string(i) + " of the file has no vec or freq");
        if (i < p.freqs.size() && fr->i != p.freqs[i]) violate("format", "entry " + to_string(i) + " of the file has another frequency");
        Seq e;
        for (auto &c : vec->a) {
            if (c.t != 'i' || c.i < 0 || c.i >= (long) coder->a.size()) violate("format", "entry " + to_string(i) + " uses code " + to_string(c.i) + " of a coder of " + to_string(coder->a.size()));
            e.push_back((int) coder->a[c.i].i);
        }
        if (is_text(s.m->kind)) {
            if (!tx || tx->t != 's') violate("format", "entry " + to_string(i) + " of the file has no text");
            if (s.m->r.from_text(tx->s) != p.alpha[i]) violate("format", "entry " + to_string(i) + " of the file has another text");
        } else if (s.m->r.from_ints(e) != p.alpha[i]) violate("format", "entry " + to_string(i) + " of the file decodes to another sequence");
    }
}
static void compare_models(Shadow &a, const Snapshot &pa, std::shared_ptr<Model> lm, const string &bytes, uint64_t seed) {
    Shadow b;
    adopt_loaded(b, a, lm);
    b.hist = a.hist;
    Snapshot pb = snap_now(b);
    if (!(pa == pb)) violate("differs", "saved " + show(pa) + " but loaded " + show(pb));
    Seqs t = trial_seqs(a, seed);
    auto ra = parse_now(a, plain, t, pa, (int) (seed % 3), seed % 2 ? seed : 0);
    auto rb = parse_now(b, plain, t, pb, (int) (seed % 3), seed % 2 ? seed : 0);
    for (size_t i = 0; i < t.size(); i++)
        if (ra[i].entries != rb[i].entries) violate("segments-differently", "the model segments " + show(t[i]) + " as " + show(ra[i].entries) + ", the loaded one as " + show(rb[i].entries));
    call(plain, [&] { b.m->save("resave.json"); });
    string again = read_file("resave.json");
    if (again != bytes) {
        size_t d = 0;
        while (d < again.size() && d < bytes.size() && again[d] == bytes[d]) d++;
        violate("resave", "saving the loaded model writes other bytes, from offset " + to_string(d) + ": " + bytes.substr(d, 60) + " / " + again.substr(d, 60));
    }
    probe("models_compared");
    if (n_multi(pa)) probe("models_compared_with_vgrams");
}

// ================================================================ operations
static void do_new(const Op &o) {
    int slot = (int) o.num("m");
    Kind k = IS;
    for (int i = 0; i < 6; i++) if (o.str("kind", "IS") == kind_names[i]) k = (Kind) i;
    Shadow s;
    s.size = (int) o.num("size", 100);
    s.verbose = (int) o.num("verb", 0);
    s.mode = (int) o.num("mode", 0);
    s.iters = (int) o.num("iters", 1);
    bool mirror = cur_prop == "C17" && variant == 1;
    int verb = cur_prop == "C19" && variant == 0 ? 0 : s.verbose;
    call(o, [&] { s.m = Model::create(k, s.size, s.iters, verb, s.mode, mirror); });
    if (!s.m) return;
    W.slots[slot] = s;
    after_op(W.slots[slot], o, true, true);
    if (on("C11 C17 C19")) emit_snap(slot, W.slots[slot]);
}
static void json_text(string &out, const string &t) {
    out += '"';
    for (char c : t) {
        char b[8];
        if (c == '"' || c == '\\') { out += '\\'; out += c; }
        else if ((unsigned char) c < 32) { snprintf(b, sizeof b, "\\u%04x", (unsigned) c); out += b; }
        else out += c;
    }
    out += '"';
}
static void do_craft(const Op &o) {  // a model file as documented, written by hand, then loaded
    int slot = (int) o.num("m");
    Kind k = IS;
    for (int i = 0; i < 6; i++) if (o.str("kind", "IS") == kind_names[i]) k = (Kind) i;
    Shadow s;
    s.size = (int) o.num("size", 30);
    s.mode = (int) o.num("mode", 0);
    s.iters = (int) o.num("iters", 1);
    s.verbose = 1;
    Rendering r;
    r.kind = k;
    r.mode = s.mode;
    int A = (int) std::max(1L, std::min<long>(o.num("A", 4), max_symbol(k)));
    Rng g(mix(o.num("seed", 1)));
    std::set<Seq> ents;
    for (int i = 0; i < A; i++) ents.insert(Seq(1, i));
    int want = (int) o.num("ents", 0);
    std::vector<Seq> pool(ents.begin(), ents.end());
    for (int t = 0; t < want * 4 && (int) ents.size() < A + want; t++) {
        Seq e = pool[g.below(pool.size())];
        const Seq &f = pool[g.below(pool.size())];
        e.insert(e.end(), f.begin(), f.end());
        if ((long) e.size() <= o.num("elen", 8) && ents.insert(e).second) pool.push_back(e);
    }
    string j = "{\n \"alphabet\": [";
    bool first = true;
    Snapshot p;
    std::vector<int> code_of(A);  // codes in another order than the symbols
    for (int i = 0; i < A; i++) code_of[i] = i;
    for (size_t i = A; i > 1; i--) std::swap(code_of[i - 1], code_of[g.below(i)]);
    std::map<Seq, Seq> by_code;
    for (auto &e : ents) { Seq c; for (int v : e) c.push_back(code_of[v]); by_code[c] = e; }
    double minp = o.real("minp", 0.05);
    std::map<Seq, int> near;  // frequencies which make every sequence nearly as likely as its symbols one by one
    if (o.num("tie", 0)) {
        std::map<Seq, double> f, e;
        double unit = pow(10, -(double) o.num("tie")), total = 0;
        for (auto &q : ents) { f[q] = q.size() == 1 ? 3e8 + 6e8 * g.unit() : 0; e[q] = (g.below(2) ? 1 : -1) * unit; }
        for (int t = 0; t < 60; t++) {
            total = 0;
            for (auto &q : f) total += q.second + 1;
            for (auto &q : f) if (q.first.size() > 1) {
                double x = total;
                for (int v : q.first) x *= (f[Seq(1, v)] + 1) / total;
                q.second = std::min(2e9, std::max(0.0, x * (1 + e[q.first]) - 1));
            }
        }
        for (auto &q : f) near[q.first] = (int) (q.second + 0.5);
    }
    for (auto &ce : by_code) {
        int f = (int) (g.below(4) == 0 ? 0 : g.below(60)) * (int) std::max(1L, std::min(30000000L, o.num("fscale", 1)));
        if (!near.empty()) f = near[ce.second];
        p.alpha.push_back(ce.second);
        p.freqs.push_back(f);
        if (!first) j += ",";
        first = false;
        j += "\n  {\"freq\": " + to_string(f);
        if (is_text(k)) { j += ", \"text\": "; string t; for (int v : ce.second) t += r.token(v); json_text(j, t); }
        j += ", \"vec\": [";
        for (size_t i = 0; i < ce.first.size(); i++) j += (i ? ", " : "") + to_string(ce.first[i]);
        j += "]}";
    }
    j += "],\n \"coder\": [";
    std::vector<int> sym_of(A);
    for (int i = 0; i < A; i++) sym_of[code_of[i]] = i;
    for (int c = 0; c < A; c++) j += (c ? ", " : "") + to_string(is_text(k) ? c : r.to_int(sym_of[c]));
    j += "],\n";
    if (is_fit(k)) {
        bool fitted = o.num("fitted", 1);
        j += string(" \"fitted\": ") + (fitted ? "true" : "false") + ", \"freqs_computed\": " + (fitted ? "true" : "false") + ", \"iter_num\": " + to_string(s.iters) + ",\n";
        s.fitted = fitted;
    }
    if (is_words(k)) j += " \"words_are_tokens\": true,\n";
    char b[64];
    snprintf(b, sizeof b, "%.6g", minp);
    j += string(" \"min_prob\": ") + b + ",\n \"size\": " + to_string(s.size) + "\n}\n";
    string f = "craft" + to_string(slot) + ".json";
    write_file(f, j);
    call(o, [&] { s.m = Model::load(k, f, s.mode); });
    if (!s.m) return;
    for (int i = 0; i < A; i++) { s.known.insert(i); s.m->r.back[r.to_int(i)] = i; }
    s.pub = p;
    s.publish_known();
    s.from_file = true;
    s.min_prob = minp;
    s.has_result = true;
    for (auto &e : ents) if (e.size() > 1) s.base.push_back(e);
    set_cap_after_load(s);
    if (s.size < (int) ents.size()) s.cap_on = false;
    W.slots[slot] = s;
    Shadow &n = W.slots[slot];
    if (on("C03 C08 C04") && !(snap_now(n) == p)) violate("crafted", "a model file of the documented form is loaded as something else: " + show(p) + " / " + show(snap_now(n)));
    after_op(n, o, true, true);
    if (on("C11 C17 C19")) emit_snap(slot, n);
    probe("fast_cycle_models");
}
static string source_sig(const Op &o) {
    string r;
    for (const char *k : {"src", "A", "K", "L", "ws", "o", "g", "emp", "fix", "len", "lit"}) r += o.str(k) + "/";
    return r;
}
static void note_quiet(Shadow &s, const Op &o, long tokens) {
    if (s.qsig != source_sig(o)) { s.qsig = source_sig(o); s.qtokens = 0; }
    s.qtokens += tokens;
}
// No publication accounts for more symbols than have been offered to the model.
static void check_totals(Shadow &s) {
    Snapshot p = snap_now(s);
    long total = 0;
    for (size_t i = 0; i < p.freqs.size(); i++) total += (long) p.freqs[i] * (long) p.alpha[i].size();
    if (total > s.attempted) violate("counted-too-much", "the frequencies account for " + to_string(total) + " symbols, but only " + to_string(s.attempted) + " have been offered: " + show(p));
}
static void do_train(const Op &o) {
    Shadow *s = get(o);
    if (!s || !is_stream(s->m->kind)) return;
    Seqs d = gen_data(o, max_symbol(s->m->kind));
    auto c = s->m->prepare(d, o.num("noise", 0));
    long oomat = o.has("f.oom") ? o.num("f.at", 0) % std::max<long>(1, (long) d.size()) : -1;
    bool certain = true, fired = false;
    s->idle = s->shown = false;
    for (size_t i = 0; i < d.size(); i++) {
        s->material.push_back(d[i]);
        s->attempted += (long) d[i].size();
        Outcome r = call(o, [&] { s->m->accept(c, i); }, (long) i == oomat || (o.num("f.until", 0) && oomat >= 0 && (long) i > oomat && !fired));
        if (r.oom_fired) {
            fired = true;
            probe("oom_in_accept");
            s->range_known = false;
            if (r.ok) violate("swallowed", "an allocation failed in accept, and it returned normally");
            if (!r.oom) violate("oom-exception", "an allocation failed in accept, and it threw: " + r.err);
            for (int v : d[i]) s->maybe.insert(v);
            certain = false;
            s->qtokens = 0;
            s->attempted += (long) d[i].size();
            check_usable(*s, hash_str(where));
            if (o.num("f.mid", 0)) {  // published before anything else is accepted
                Outcome ru = call(o, [&] { s->m->update(); }, false);
                if (!ru.ok) violate("retry", "update fails after a failed allocation in accept: " + ru.err);
                s->publish_known();
                check_usable(*s, hash_str(where) + 1);
                check_totals(*s);
                probe("updates_after_failed_accept");
            }
            if (o.num("f.skip", 0)) { probe("sequences_given_up"); continue; }
            Outcome r2 = call(o, [&] { s->m->accept(c, i); }, false);  // retried with memory available
            if (!r2.ok) violate("retry", "accept fails when it is retried after a failed allocation: " + r2.err);
        }
        bool fresh_syms = false;
        for (int v : d[i]) { bool back = s->lost.erase(v); if (s->known.insert(v).second || back) { fresh_syms = true; s->late.insert(v); } }
        note_hist(*s, d[i]);
        if (fresh_syms) { s->last_new = s->hist.size() - 1; s->last_new_tokens = s->tokens; }
    }
    { long n = 0; for (auto &q : d) n += (long) q.size(); note_quiet(*s, o, n); }
    // 10000 accepted symbols are enough for a first grow-and-prune cycle of a new model
    if (!s->cap_on && !s->from_file && s->tokens >= 10000 && s->last_new_tokens < 1100 && o.num("capstart", 0)) { s->cap_on = true; s->cap_syms = s->known.size(); s->late.clear(); }
    after_op(*s, o, false, certain);
    if (on("C11 C17 C19")) emit_snap((int) o.num("m"), *s);
}
// The learner cannot rebuild its dictionary after each of several sequences in a row, so it must have counted something.
static void check_counting(Shadow &s) {
    long total = 0;
    for (int f : s.pub.freqs) total += f;
    bool one_more = s.hist.size() == s.upd_hist + 1 && s.tokens > s.upd_tokens;
    s.upd_zeros = total > 0 ? 0 : one_more ? s.upd_zeros + 1 : 1;
    s.upd_hist = s.hist.size();
    s.upd_tokens = s.tokens;
    if (s.upd_zeros > 1) probe("zero_count_checks");
    if (s.upd_zeros >= 5) violate("nothing-counted", "all frequencies are 0 in five publications in a row, with a sequence accepted before each");
}
static void do_upd(const Op &o) {
    Shadow *s = get(o);
    if (!s || !is_stream(s->m->kind)) return;
    Snapshot before;
    bool again = s->idle && on("C04");
    if (on("C13") || o.has("f.oom") || again) before = snap_now(*s);
    Outcome r = call(o, [&] { s->m->update(); });
    if (r.oom_fired) {
        probe("oom_in_update");
        if (r.ok) violate("swallowed", "an allocation failed in update, and it returned normally");
        if (!r.oom) violate("oom-exception", "an allocation failed in update, and it threw: " + r.err);
        Snapshot mid = snap_now(*s);
        check_usable(*s, hash_str(where));
        Outcome r2 = call(o, [&] { s->m->update(); }, false);
        if (!r2.ok) violate("retry", "update fails when it is retried after a failed allocation: " + r2.err);
        Snapshot fin = snap_now(*s);
        if (!(mid == before) && !(mid == fin)) violate("half-published", "a failed update published neither the old nor the new dictionary: " + show(mid));
    }
    s->publish_known();
    if (again) {
        Snapshot now = snap_now(*s);
        if (!(now == before)) violate("republished", "an update with nothing accepted since the last one changed the published dictionary from " + show(before) + " to " + show(now));
        probe("updates_repeated");
    }
    s->idle = s->shown = true;
    after_op(*s, o, true, true);
    if (on("C05")) { check_range(*s, s->pub); check_counting(*s); }
    if (on("C13")) check_totals(*s);
    if (on("C11 C17 C19 C04")) emit_snap((int) o.num("m"), *s);
}
static void fit_completed(Shadow &s, const Seqs &d) {
    s.fitted = true;
    s.range_known = false;
    s.corpus = d;
    for (auto &q : d) for (int v : q) { s.known.insert(v); s.lost.erase(v); }
    s.publish_known();
}
static void check_cover(Shadow &s, const Seqs &d, uint64_t noise) {
    Snapshot p = snap_now(s);
    check_well_formed(s, p);
    check_singles(s, p);
    auto r = parse_now(s, plain, d, p, (int) (noise % 3), noise % 2 ? noise : 0);
    for (size_t i = 0; i < d.size(); i++) {
        check_lossless(p, d[i], r[i]);
        if (concat(r[i].entries) != d[i]) violate("not-covered", "document " + to_string(i) + " " + show(d[i]) + " of the corpus is segmented as " + show(r[i].entries));
    }
    probe("corpora_covered");
}
static void do_fit(const Op &o0) {
    Shadow *s = get(o0);
    if (!s || !is_fit(s->m->kind)) return;
    s->idle = false;
    Seqs d = gen_data(o0, max_symbol(s->m->kind));
    Op o = o0;
    o.a["_docs"] = to_string(d.size());
    if (!o.has("rs")) o.a["rs"] = "1";
    uint64_t noise = o.num("noise", 0);
    bool was = s->fitted;
    Snapshot before;
    if (on("C06 C13 C07")) before = snap_now(*s);
    for (auto &q : d) { s->material.push_back(q); s->attempted += (long) q.size() * 1000; }
    auto c = s->m->prepare(d, noise);
    bool complete = false;
    Outcome r = call(o, [&] { complete = s->m->fit(c); });
    bool oomed = r.oom_fired > 0;
    if (oomed) {
        probe("oom_in_fit");
        if (r.ok) violate("swallowed", "an allocation failed in fit, and it returned normally");
        if (!r.oom) violate("oom-exception", "an allocation failed in fit, and it threw: " + r.err);
        if (!was) {
            s->partial = true; s->range_known = false;
            for (auto &q : d) for (int v : q) s->maybe.insert(v);
        }
        check_usable(*s, hash_str(where));
        // retried with memory available: it must do all of the work
        Outcome r2 = call(o, [&] { complete = s->m->fit(c); }, false);
        if (!r2.ok) violate("retry", "fit fails when it is retried after a failed allocation: " + r2.err);
        r.intr_fired += r2.intr_fired;
    }
    if (was) {
        if (on("C06 C07") && !(snap_now(*s) == before)) violate("fitted-twice", "fitting a fitted model changed it: " + show(before) + " became " + show(snap_now(*s)));
        if (on("C06 C07") && !complete) violate("fitted-twice", "fitting a fitted model is reported as incomplete");
        probe("fits_of_fitted");
    } else if (complete) {
        if (r.intr_fired && !(oomed)) {
            if (on("C07")) violate("interrupt-ignored", "the host asked for termination during fit, and fit reported completion");
        }
        if (on("C07") && s->m->kind == IV && s->m->py && !oomed) {  // an interruption is noticed between any two documents
            long passes = s->m->loaded || s->partial ? 1 : 1 + std::max(0, s->iters);
            if (r.polls < passes * (long) d.size()) violate("unresponsive", "fit went " + to_string(passes) + " times or more through " + to_string(d.size()) + " documents, and asked the host " + to_string(r.polls) + " times whether to stop");
            probe(s->m->loaded ? "loaded_fits_asked" : "fits_asked");
        }
        fit_completed(*s, d);
        s->shown = true;
        {   // learning that a previous call completed, or did not complete, was done on the same corpus: it counts once
            long n = 0;
            for (auto &q : d) n += (long) q.size();
            string sig = source_sig(o) + to_string(n);
            s->qtokens = 0;
            if (!oomed && o.str("rp", "u") == "u" && (s->fitsig.empty() || s->fitsig == sig)) note_quiet(*s, o, n * s->iters);
        }
        probe("fits_completed");
        if (s->partial) probe("fits_completed_after_failure");
        Snapshot p;
        if (!on("C12")) p = snap_now(*s);
        if (on("C05 C06 C07 C13")) check_counts_equal(p, d, "fit");
        if (on("C06 C07 C13 C03")) check_cover(*s, d, noise);
    } else {
        if (!r.intr_fired) violate("incomplete", "fit reports that it did not complete, but nobody interrupted it");
        probe("fits_interrupted");
        s->partial = true;
        {
            long n = 0;
            for (auto &q : d) n += (long) q.size();
            string sig = source_sig(o) + to_string(n);
            if (o.str("rp", "u") != "u" || (!s->fitsig.empty() && s->fitsig != sig)) sig = "mixed";
            s->fitsig = sig;
        }
        s->range_known = false;
        for (auto &q : d) for (int v : q) s->maybe.insert(v);
        if (on("C07")) {
            call(plain, [&] { s->m->save("state.json"); });
            JReader rd(read_file("state.json"));
            string bytes = read_file("state.json");
            JReader rd2(bytes);
            J j = rd2.document();
            const J *f = j.get("fitted"), *fc = j.get("freqs_computed");
            if (f && fc && f->b && fc->b) violate("passes-for-complete", "after an interrupted fit the model claims to be fitted");
        }
    }
    s->corpus = d;
    after_op(*s, o, true, true);
    if (on("C11 C17 C19 C04")) emit_snap((int) o.num("m"), *s);
}
static void do_look(const Op &o) {
    if (on("C04") && variant == 1) return;
    Shadow *s = get(o);
    if (!s) return;
    int slot = (int) o.num("m");
    string what = o.str("what", "parse");
    Seqs d = gen_data(o, max_symbol(s->m->kind));
    if (what == "parse") {
        Snapshot p = snap_now(*s);
        if (o.num("ent", 0)) {  // text made of the published sequences of several symbols
            Seqs es;
            for (auto &e : p.alpha) if (e.size() > 1) es.push_back(e);
            Rng g(mix(o.num("ent")));
            if (!es.empty()) for (auto &q : d) {
                size_t l = q.size();
                for (q.clear(); q.size() < l;) { const Seq &e = es[g.below(es.size())]; q.insert(q.end(), e.begin(), e.end()); }
            }
        }
        if (on("C13")) {
            auto c = s->m->prepare(d, o.num("noise", 0));
            Model::Raw raw;
            Outcome r = call(o, [&] { raw = s->m->parse_raw(c, (int) o.num("how", 0)); });
            if (r.oom_fired) {
                probe("oom_in_parse");
                if (r.ok) violate("swallowed", "an allocation failed in parse, and it returned normally");
                if (!r.oom) violate("oom-exception", "an allocation failed in parse, and it threw: " + r.err);
            }
        }
        auto r = parse_now(*s, plain, d, p, (int) o.num("how", 0), o.num("noise", 0));
        for (size_t i = 0; i < d.size(); i++) {
            if (on("C01 C13")) check_lossless(p, d[i], r[i]);
            if (on("C02")) check_best(p, d[i], r[i]);
            if (on("C11 C17 C19")) obs(slot, "parse " + show(d[i]) + " -> " + show(r[i].entries));
            if (on("C04 C12")) emit('I', "parse " + show(r[i].entries));
        }
    } else if (what == "snap") {
        Snapshot p = snap_now(*s);
        if (on("C11 C17 C19")) obs(slot, "snap " + show(p));
        if (on("C03")) check_well_formed(*s, p);
    } else if (what == "save" && !s->m->mirror && cur_prop != "C17") {
        string f = o.str("f", "look.json");
        call(plain, [&] { s->m->save(f); });
        string b = read_file(f);
        if (on("C11 C19")) obs(slot, "saved " + b);
    }
    if (on("C04 C03 C13 C07")) after_op(*s, o, false, true);
}
static void do_dump(const Op &o) {  // final state, ids of tokens included
    Shadow *s = get(o);
    if (!s) return;
    int slot = (int) o.num("m");
    if (!s->m->mirror && cur_prop != "C17") {
        call(plain, [&] { s->m->save("dump.json"); });
        obs(slot, "dump " + read_file("dump.json"));
    }
    emit_snap(slot, *s);
    Seqs t = trial_seqs(*s, o.num("seed", 3));
    Snapshot p = snap_now(*s);
    auto r = parse_now(*s, plain, t, p, 0, 0);
    for (auto &x : r) obs(slot, "final " + show(x.entries));
}
// save, forget the model, load it: only what is in the file survives
static void do_reload(const Op &o) {
    Shadow *s = get(o);
    if (!s || s->m->mirror || cur_prop == "C17") return;
    if (on("C19") && false) return;
    string f = o.str("f", "model.json");
    Kind k = s->m->kind;
    IoPlan wp, rp;
    arm_io(o, wp);
    arm_io(o, rp);
    Op so = o, lo = o;
    if (o.has("f.oom")) { lo.a.erase("f.oom"); if (o.num("f.onload")) { lo.a["f.oom"] = o.str("f.oom"); so.a.erase("f.oom"); } }
    string ref;
    if (on("C13") || o.has("f.oom")) { call(plain, [&] { s->m->save("ref.json"); }); ref = read_file("ref.json"); }
    Outcome r = call(so, [&] { s->m->save(f); }, true, &wp);
    if (r.oom_fired) {
        probe("oom_in_save");
        if (r.ok && read_file(f) != ref) violate("swallowed", "an allocation failed in save, it returned normally, and the file is incomplete");
        check_usable(*s, hash_str(where));
        call(plain, [&] { s->m->save(f); });
        if (read_file(f) != ref) violate("retry", "saving again after a failed allocation writes something else");
    }
    Snapshot ps;
    if (!on("C12")) ps = snap_now(*s);
    string bytes = read_file(f);
    std::shared_ptr<Model> m;
    Outcome r2 = call(lo, [&] { m = Model::load(k, f, s->mode); }, true, &rp);
    if (r2.oom_fired) {
        probe("oom_in_load");
        if (r2.ok) violate("swallowed", "an allocation failed in load, and it returned normally");
        call(plain, [&] { m = Model::load(k, f, s->mode); });
    }
    if (!m) return;
    if (on("C08 C13")) { compare_models(*s, ps, m, bytes, hash_str(where)); }
    Shadow n;
    adopt_loaded(n, *s, m);
    n.published = s->published;
    n.pubknown = s->pubknown;
    for (int v : s->known) if (!s->pubknown.count(v)) n.lost.insert(v);
    n.pub = ps;
    for (auto &e : ps.alpha) if (e.size() > 1) n.base.push_back(e);
    double mp = saved_min_prob(bytes);
    n.has_result = mp > 0;
    n.min_prob = mp > 0 ? mp : 0.002;
    n.cap_on = s->cap_on;
    n.cap_syms = s->cap_syms;
    n.late = s->late;
    n.late.insert(n.lost.begin(), n.lost.end());
    // what was accepted but not published is not in the file
    W.slots[(int) o.num("m")] = n;
    fault_count[F_RELOAD]++;
    Shadow &q = W.slots[(int) o.num("m")];
    after_op(q, o, true, true);
    if (on("C11 C19 C04")) emit_snap((int) o.num("m"), q);
}
static void do_drop(const Op &o) {
    auto it = W.slots.find((int) o.num("m"));
    if (it == W.slots.end()) return;
    call(plain, [&] { it->second.m.reset(); });
    W.slots.erase(it);
}
// ---------------------------------------------------------------- C08
static void do_fidelity(const Op &o) {
    Shadow *s = get(o);
    if (!s) return;
    string f = o.str("f", "m.json");
    if (o.has("pre")) {  // what the file holds before
        string junk;
        long n = o.num("pre");
        if (o.str("prek") == "json") { junk = "{\"size\": 3, \"alphabet\": ["; while ((long) junk.size() < n) junk += "{\"freq\": 1, \"vec\": [0]},"; junk += "]}"; }
        else while ((long) junk.size() < n) junk += "}{\"],0 1 2\n";
        write_file(f, junk);
    }
    Snapshot before = snap_now(*s);
    call(plain, [&] { s->m->save(f); });
    string bytes = read_file(f);
    check_file_format(*s, bytes, before);
    std::shared_ptr<Model> m;
    call(plain, [&] { m = Model::load(s->m->kind, f, s->mode); });
    compare_models(*s, before, m, bytes, hash_str(where));
    call(plain, [&] { s->m->save("other.json"); });
    if (read_file("other.json") != bytes) violate("resave", "saving twice writes different bytes");
    if (is_fit(s->m->kind) && s->fitted) {  // the loaded model knows that it is fitted
        Shadow b;
        adopt_loaded(b, *s, m);
        Seqs d = {{0, 1, 0, 1}, {2}};
        auto c = b.m->prepare(d, 0);
        Op fo = plain;
        fo.a["rs"] = "3"; fo.a["_docs"] = "2";
        bool comp = false;
        call(fo, [&] { comp = b.m->fit(c); });
        if (!comp || !(snap_now(b) == before)) violate("fitted", "the loaded model is fitted again");
        probe("fitted_models_reloaded");
    }
}
// ---------------------------------------------------------------- C09
static void do_fsave(const Op &o) {
    Shadow *s = get(o);
    if (!s) return;
    string f = o.str("f", "m.json");
    Snapshot before = snap_now(*s);
    call(plain, [&] { s->m->save("ref.json"); });
    string ref = read_file("ref.json");
    string target = o.str("target"), good = f;
    if (target == "dir") { mkdir("place", 0755); f = "place"; }
    else if (target == "nodir") f = "nowhere/" + f;
    else if (target == "dangling") { unlink("link.json"); if (symlink("nowhere/m.json", "link.json")) {} f = "link.json"; }
    else if (target == "link") { unlink("link.json"); if (symlink(good.c_str(), "link.json")) {} f = "link.json"; }
    else if (target == "long") f = string(300, 'n') + ".json";
    bool bad = !target.empty() && target != "link";
    if (bad) fault_count[F_TARGET]++;
    Op o2 = o;
    if (o.has("f.wpct")) o2.a["f.wat"] = to_string((long) ref.size() * o.num("f.wpct") / 1000);
    IoPlan p;
    arm_io(o2, p);
    p.w_dead_at = -1;
    Outcome r = call(o2, [&] { s->m->save(f); }, false, &p);
    if (r.ok) {
        if (read_file(f) != ref) violate("silent", "save returned normally after " + to_string(r.hard) + " failed calls, but the file holds " + to_string(read_file(f).size()) + " bytes of " + to_string(ref.size()));
        if (p.close_failed) violate("silent-close", "save returned normally although closing the file failed");
        probe("saves_ok");
        if (r.soft) probe("saves_ok_despite_retries");
        if (r.hard) probe("saves_ok_despite_failures");
    } else {
        probe("saves_failed");
        if (!r.hard && !bad) violate("gave-up", "save threw although every call succeeded in the end: " + r.err);
    }
    if (!(snap_now(*s) == before)) violate("save-changes-model", "a failed save changed the model");
    f = good;
    call(plain, [&] { s->m->save(f); });
    if (read_file(f) != ref) violate("later-save", "after a failed save, a save on a healthy disk writes another file");
}
// ---------------------------------------------------------------- C10
static void expect_reject(Shadow &s, const Snapshot &p, const string &ref, const string &f, const Op &lo, const string &what) {
    bool present;
    string content = read_file(f, &present);
    IoPlan rp;
    arm_io(lo, rp);
    std::shared_ptr<Model> m;
    Op o = lo;
    o.a["_maythrow"] = "1";
    o.a.erase("f.oom");
    Outcome r = call(o, [&] { m = Model::load(s.m->kind, f, s.mode); }, false, &rp);
    bool whole = present && content == ref && !r.hard;
    if (!r.ok) {
        if (whole) violate("rejects-good", "a complete file cannot be loaded (" + what + "): " + r.err);
        probe("torn_files_rejected");
        return;
    }
    // it was loaded: then it has to be exactly the model that was saved
    Shadow b;
    adopt_loaded(b, s, m);
    Snapshot q;
    try { q = snap_now(b); } catch (const BadOutput &e) { violate("torn-loaded", "a damaged file (" + what + ") was loaded: " + e.what); }
    if (!(q == p)) violate("torn-loaded", "a damaged file (" + what + ", " + to_string(content.size()) + " of " + to_string(ref.size()) + " bytes) was loaded as " + show(q));
    call(plain, [&] { b.m->save("again.json"); });
    if (read_file("again.json") != ref) violate("torn-loaded", "a damaged file (" + what + ") was loaded as another model");
    probe(whole ? "whole_files_loaded" : "harmless_damage_loaded");
}
static void do_tear(const Op &o) {
    Shadow *s = get(o);
    if (!s) return;
    string f = o.str("f", "m.json");
    Snapshot p = snap_now(*s);
    IoPlan wp;
    call(plain, [&] { s->m->save("ref.json"); }, false, &wp);
    string ref = read_file("ref.json");
    string how = o.str("how", "prefix");
    size_t at = (size_t) ((double) ref.size() * o.num("at", 500) / 1000);
    if (o.has("back")) at = ref.size() - std::min<size_t>(ref.size(), (size_t) o.num("back"));
    if (at > ref.size()) at = ref.size();
    if (how == "prefix") { write_file(f, ref.substr(0, at)); fault_count[F_TORN]++; }
    else if (how == "isdir") { unlink(f.c_str()); mkdir(f.c_str(), 0755); fault_count[F_TARGET]++; }
    else if (how == "missing") { unlink(f.c_str()); fault_count[F_TORN]++; }
    else if (how == "empty") { write_file(f, ""); fault_count[F_TORN]++; }
    else if (how == "zeros" || how == "cutzeros") {  // blocks that never reached the disk read as zeros
        string c = ref;
        size_t bs = (size_t) o.num("bs", 512);
        Rng g(mix(o.num("seed", 1)));
        size_t blocks = (c.size() + bs - 1) / bs;
        bool any = false;
        for (size_t b = 0; b < blocks; b++)
            if (g.chance(o.real("p", 0.3)) || (!any && b + 1 == blocks)) {
                any = true;
                fault_count[F_LOSTBLOCK]++;
                for (size_t i = b * bs; i < std::min(c.size(), (b + 1) * bs); i++) c[i] = 0;
            }
        if (how == "cutzeros") c.resize(std::max<size_t>(1, at));
        write_file(f, c);
    } else if (how == "crash") {  // the disk is gone from some byte on; then the process is restarted
        unlink(f.c_str());
        IoPlan dp;
        dp.w_dead_at = (long) at;
        dp.w_chunk = o.num("f.wchunk");
        dp.seed = o.num("seed", 1);
        Op so = o;
        so.a["_maythrow"] = "1";
        call(so, [&] { s->m->save(f); }, false, &dp);
        fault_count[F_CRASH]++;
    } else if (how == "reorder") {  // a subset of the write calls arrives
        string c(ref.size(), '\0');
        Rng g(mix(o.num("seed", 1)));
        size_t end = 0;
        for (auto &w : wp.journal) if (g.chance(o.real("p", 0.6))) {
            for (long i = w.first; i < w.first + w.second && i < (long) c.size(); i++) c[i] = ref[i];
            end = std::max<size_t>(end, std::min<size_t>(c.size(), w.first + w.second));
        } else fault_count[F_LOSTBLOCK]++;
        c.resize(end);
        write_file(f, c);
        fault_count[F_CRASH]++;
    } else if (how == "member") {  // a member that every such file has is not there
        static const char *kMembers[] = {"size", "min_prob", "coder", "alphabet", "fitted", "freqs_computed", "freq", "vec", "text"};
        string key = string("\"") + kMembers[o.num("seed", 1) % 9] + "\"";
        std::vector<size_t> found;
        for (size_t i = ref.find(key + ":"); i != string::npos; i = ref.find(key + ":", i + 1)) found.push_back(i);
        string c = ref;
        if (!found.empty()) {  // another name hides it
            size_t i = found[(size_t) (o.num("at", 0)) % found.size()];
            c[i + 1] = 'X';
            fault_count[F_TORN]++;
        }
        write_file(f, c);
    } else write_file(f, ref);
    if (how == "kind") {  // the file is a model's, but of another kind
        Kind k = (Kind) (o.num("seed", 1) % 6);
        if (k == s->m->kind) return;
        fault_count[F_TORN]++;
        std::shared_ptr<Model> other;
        Op so = o;
        so.a["_maythrow"] = "1";
        Outcome r = call(so, [&] { other = Model::load(k, f, s->mode); other->snap_raw(); }, false);
        probe(r.ok ? "other_kinds_loaded" : "other_kinds_rejected");
        size_t singles = 0;
        for (auto &e : p.alpha) singles += e.size() == 1;
        bool lacks = (is_text(k) && !is_text(s->m->kind) && singles) || (is_fit(k) && !is_fit(s->m->kind));
        if (r.ok && lacks) violate("torn-loaded", string("a file of a model of kind ") + kind_names[s->m->kind] + " was loaded as one of kind " + kind_names[k]);
        call(so, [&] { other.reset(); });
        if (!(snap_now(*s) == p)) violate("load-changes-other", "loading another file changed a model");
        return;
    }
    Op lo = o;
    if (o.has("f.rpct")) lo.a["f.rat"] = to_string((long) ref.size() * o.num("f.rpct") / 1000);
    expect_reject(*s, p, ref, f, lo, how + (o.has("f.rerr") ? " with read error" : ""));
    if (how == "isdir") rmdir(f.c_str());
    if (!(snap_now(*s) == p)) violate("load-changes-other", "loading another file changed a model");
}
// ---------------------------------------------------------------- C24
static void do_itransform(const Op &o) {  // the host asks for termination while documents are transformed
    Shadow *s = get(o);
    if (!s || s->m->kind != IV || !s->m->py) return;
    Seqs d = gen_data(o, max_symbol(s->m->kind));
    Snapshot p = snap_now(*s);
    auto c = s->m->prepare(d, 0);
    int how = o.num("how", 0) % 2 ? 2 : 0;
    Seqs want;
    for (auto &q : d) { auto one = parse_now(*s, plain, {q}, p, 1, 0); want.push_back(one[0].ids); }
    Model::Raw raw;
    Op o2 = o;
    o2.a["_maythrow"] = "1";
    Outcome r = call(o2, [&] { raw = s->m->parse_raw(c, how); }, false);
    auto check = [&](const Model::Raw &w, bool whole) {
        auto got = s->m->interpret(w, p);
        if (got.size() > d.size() || (whole && got.size() != d.size())) violate("results", to_string(d.size()) + " documents were given and " + to_string(got.size()) + " results returned");
        for (size_t i = 0; i < got.size(); i++)
            if (got[i].ids != want[i]) violate(whole ? "later-transform" : "interrupted-transform", "document " + to_string(i) + " " + show(d[i]) + " is transformed into " + show(got[i].ids) + " instead of " + show(want[i]));
    };
    if (r.ok) check(raw, !r.intr_fired);
    else if (!r.intr_fired) violate("exception", "transform threw: " + r.err);
    probe(r.intr_fired ? "transforms_interrupted" : "transforms_whole");
    if (!(snap_now(*s) == p)) violate("transform-changes-model", "an interrupted transform changed the model");
    Model::Raw again;
    call(plain, [&] { again = s->m->parse_raw(c, how); });
    check(again, true);
}
// ---------------------------------------------------------------- C25
static void do_noise(const Op &o) {  // typical data of a source without structure
    Shadow *s = get(o);
    if (!s) return;
    Seqs d = gen_data(o, max_symbol(s->m->kind));
    long syms = 0, pieces = 0;
    for (auto &q : d) syms += (long) q.size();
    if (o.str("src") != "u" || o.num("A") < 15 || o.num("A") > 40 || syms < 400) return;
    if (!s->shown || s->qsig != source_sig(o) || s->qtokens < 15000 || s->size < (long) s->known.size() + 20) return;
    Snapshot p = snap_now(*s);
    auto r = parse_now(*s, plain, d, p, 0, 0);
    for (auto &x : r) pieces += (long) x.entries.size();
    long pm = syms ? pieces * 1000 / syms : 0;
    probe("noise_checks");
    probe(pm < 900 ? "noise_below_0.9" : pm < 930 ? "noise_below_0.93" : pm < 960 ? "noise_below_0.96" : "noise_above_0.96");
    if (n_multi(p) > 0) probe("noise_with_vgrams");
    if ((double) pieces < o.real("limit", 0.9) * (double) syms)
        violate("structure-in-noise", to_string(syms) + " independent symbols are segmented into " + to_string(pieces) + " pieces with " + to_string(n_multi(p)) + " v-grams");
}
// ---------------------------------------------------------------- C26
// Goes on training and using one model. Only what the calls into it take and give back is counted, and only their steps.
static void do_steady(const Op &o) {
    Shadow *s = get(o);
    if (!s || !is_stream(s->m->kind)) return;
    long blocks = std::max(4L, o.num("blocks", 6)), per = o.num("per", 400);
    std::vector<long> held;
    std::vector<uint64_t> work;
    long live = 0;
    uint64_t taken = 0;
    Op so = o;
    so.a["_maythrow"] = "1";
    auto counted = [&](const Op &c, const std::function<void()> &f, bool oom, IoPlan *io = nullptr) {
        long b = (long) __sanitizer_get_current_allocated_bytes();
        uint64_t st = seam::steps;
        Outcome r = call(c, f, oom, io);
        taken += seam::steps - st;
        live += (long) __sanitizer_get_current_allocated_bytes() - b;
        return r;
    };
    Rng g(mix(o.num("seed", 1)) + 17);
    for (long b = 0; b < blocks; b++) {
        taken = 0;
        Op d = o;
        d.a["seed"] = to_string(o.num("seed", 1) + b * 1000003);
        d.a["n"] = to_string(per);
        Seqs q = gen_data(d, max_symbol(s->m->kind));
        auto c = s->m->prepare(q, o.num("noise", 0));
        Seqs t(q.begin(), q.begin() + std::min<size_t>(q.size(), 40));
        auto ct = s->m->prepare(t, o.num("noise", 0) ? o.num("noise", 0) + b : 0);
        string f = "steady.json";
        for (size_t i = 0; i < q.size(); i++) {
            bool fail = o.has("f.oom") && (long) i % 100 == o.num("f.at", 0) % 100;
            Outcome r = counted(so, [&] { s->m->accept(c, i); }, fail);
            if (!r.ok && !r.oom_fired) violate("exception", "accept threw: " + r.err);
            if (!r.ok) counted(plain, [&] { s->m->accept(c, i); }, false);
            if (o.num("upd", 0) && (long) i % o.num("upd", 1) == 0) counted(plain, [&] { s->m->update(); }, false);
        }
        if (!o.num("noupd", 0)) counted(plain, [&] { s->m->update(); }, false);
        if (o.num("parses", 0)) {
            Op pd = d;
            pd.a["seed"] = to_string(o.num("seed", 1) + b * 1000003 + 7);
            pd.a["n"] = to_string(o.num("parses", 0));
            Seqs pq = gen_data(pd, max_symbol(s->m->kind));
            auto pc = s->m->prepare(pq, o.num("noise", 0) ? o.num("noise", 0) + b : 0);
            int how = (int) g.below(3);
            counted(so, [&] { s->m->parse_raw(pc, how); }, false);
        }
        if (o.num("reads", 1)) {
            counted(so, [&] { s->m->parse_raw(ct, (int) g.below(3)); }, o.has("f.oom"));
            counted(so, [&] { s->m->snap_raw(); }, false);
            IoPlan wp;
            arm_io(o, wp);
            counted(so, [&] { s->m->save(f); }, false, &wp);
            counted(so, [&] { Model::load(s->m->kind, f, s->mode); }, o.has("f.oom"));
        }
        held.push_back(live);
        work.push_back(taken);
    }
    // measurements, which are no part of the event log: addresses may decide them in a program that goes by addresses
    emit('M', "bytes kept " + show(Seq(held.begin(), held.end())));
    { string w; for (auto x : work) w += to_string(x) + " "; emit('M', "basic blocks " + w); }
    emit_snap((int) o.num("m"), *s);
    probe("steady_checks");
    size_t nb = held.size();
    long step = 0;  // a single step, however large, is not growth
    for (size_t i = 1; i < nb; i++) step = std::max(step, held[i] - held[i - 1]);
    long grown = std::min(held[nb - 1], held[nb - 2]) - std::max(held[0], held[1]) - step;
    probe(grown > 50000 ? "grown_above_50k" : grown > 20000 ? "grown_above_20k" : grown > 5000 ? "grown_above_5k" : "grown_less");
    uint64_t w0 = std::max(work[0], work[1]), w1 = std::min(work[work.size() - 1], work[work.size() - 2]);
    probe(w1 > w0 * 2 ? "work_above_2" : w1 > w0 * 3 / 2 ? "work_above_1.5" : w1 > w0 * 5 / 4 ? "work_above_1.25" : "work_less");
    if (grown > o.num("limit", 40000)) violate("memory-grows", "with a fixed alphabet and capacity the model keeps more and more memory after each block of " + to_string(per) + " sequences");
    if (w1 > w0 * 3) violate("work-grows", "with a fixed alphabet and capacity the same amount of data costs more and more work");
}
// ---------------------------------------------------------------- C16
static void do_progress(const Op &o) {
    Shadow *s = get(o);
    if (!s) return;
    Seqs d = gen_data(o, max_symbol(s->m->kind));
    long syms = 0, pieces = 0;
    for (auto &q : d) syms += (long) q.size();
    // the conditions under which progress is required
    if (o.str("src") != "d" || o.num("K") < 2 || o.num("K") > 6 || o.num("L") < 3 || syms < 400 || o.real("limit", 0) < 0.7) return;
    // the longer the past, the slower the change: rebuilds that bring nothing make the learner wait for more evidence
    if (s->qtokens < 15000 + 2 * std::max(0L, s->tokens - s->qtokens)) return;
    if (!s->shown || s->qsig != source_sig(o) || s->qtokens < 15000 || s->size < (long) s->known.size() + 20) return;
    Snapshot p = snap_now(*s);
    auto r = parse_now(*s, plain, d, p, 0, 0);
    for (auto &x : r) pieces += (long) x.entries.size();
    emit('I', "progress entries=" + to_string(p.alpha.size()) + " multi=" + to_string(n_multi(p)) + " symbols=" + to_string(syms) + " pieces=" + to_string(pieces));
    double limit = o.real("limit", 0.8);
    probe("progress_checks");
    long pm = syms ? pieces * 1000 / syms : 0;
    probe(pm < 300 ? "progress_below_0.3" : pm < 400 ? "progress_below_0.4" : pm < 500 ? "progress_below_0.5" : pm < 600 ? "progress_below_0.6" : pm < 700 ? "progress_below_0.7" : pm < 800 ? "progress_below_0.8" : "progress_above_0.8");
    if (n_multi(p) == 0) violate("no-vgrams", "no v-gram learned from " + to_string(s->tokens) + " symbols of a repetitive source");
    if ((double) pieces > limit * (double) syms)
        violate("no-compression", to_string(syms) + " symbols of the source are segmented into " + to_string(pieces) + " pieces (limit " + to_string(limit) + ") with " + to_string(n_multi(p)) + " v-grams");
}
// ---------------------------------------------------------------- C12 and C11: threads
static SwitchPlan switch_plan(const Op &o) {
    SwitchPlan sp;
    sp.seed = o.num("sseed", 1);
    sp.mean = std::max(1L, o.num("mean", 50));
    sp.mean2 = (double) o.num("mean2", 0);
    sp.stall = (uint64_t) std::max(0L, o.num("stall", 0));
    if (o.has("sw")) {
        sp.is_explicit = true;
        std::stringstream ss(o.str("sw"));
        string t;
        while (std::getline(ss, t, ',')) {
            size_t c = t.find(':');
            if (c != string::npos) sp.list.push_back({strtoull(t.c_str(), nullptr, 10), atoi(t.c_str() + c + 1)});
        }
    }
    return sp;
}
static void report_switches(const SchedResult &r) {
    string s;
    for (auto &x : r.taken) s += to_string(x.first) + ":" + to_string(x.second) + ",";
    emit('W', s);
    probe("switches", (long) r.taken.size());
    probe("thread_steps", (long) r.steps);
}
static void do_readers(const Op &o) {
    Shadow *s = get(o);
    if (!s) return;
    // some of the threads may read another model
    Shadow *s2 = o.has("m2") ? get(o, "m2") : nullptr;
    if (!s2) s2 = s;
    int T = (int) std::max(1L, std::min(8L, o.num("threads", 3)));
    int per = (int) std::max(1L, o.num("per", 3));
    uint64_t seed = o.num("seed", 1);
    Shadow *const first = s;
    auto of = [&](int t) { return t % 2 ? s2 : first; };
    struct Task { string what; Model::Call c; int how; string file; Model::Raw raw; Model::RawSnap snap; string err; size_t nseq; };
    std::vector<std::vector<Task>> tasks(T);
    for (int t = 0; t < T; t++) {
        s = of(t);
        int lim = max_symbol(s->m->kind);
        Rng g(mix(seed * 31 + (o.num("same") ? 0 : t)));
        for (int i = 0; i < per; i++) {
            Task k;
            static const char *whats[] = {"parse", "parse", "parse", "snap", "save"};
            k.what = whats[g.below(o.num("saves", 1) ? 5 : 4)];
            Seqs d;
            int nq = 1 + (int) g.below(3);
            for (int q = 0; q < nq; q++) {
                Seq x;
                const Seqs &src = s->hist.empty() ? s->corpus : s->hist;
                if (!src.empty() && !g.chance(0.2)) x = src[g.below(src.size())];
                int extra = (int) g.below(6);
                for (int e = 0; e < extra; e++) x.insert(x.begin() + g.below(x.size() + 1), any_symbol(*s, g, lim));
                if (x.size() > 60) x.resize(60);
                d.push_back(x);
            }
            k.nseq = d.size();
            k.c = s->m->prepare(d, g.chance(0.5) ? g.next() % 1000 : 0);
            k.how = (int) g.below(3);
            k.file = "t" + to_string(t) + "_" + to_string(i) + ".json";
            tasks[t].push_back(k);
        }
    }
    std::vector<std::function<void()>> bodies;
    for (int t = 0; t < T; t++)
        bodies.push_back([&, t] {
            Shadow *const s = of(t);
            for (auto &k : tasks[t]) {
                op_steps = 0;
                try {
                    if (k.what == "parse") k.raw = s->m->parse_raw(k.c, k.how);
                    else if (k.what == "snap") k.snap = s->m->snap_raw();
                    else s->m->save(k.file);
                } catch (const std::exception &e) { k.err = string("exception ") + e.what(); }
            }
        });
    // meanwhile a thread may train a model of its own
    Shadow *busy = o.has("busy") ? get(o, "busy") : nullptr;
    if (busy == s2 || busy == first) busy = nullptr;
    Model::Call bc;
    RandState brs;
    string berr;
    Seqs bd;
    if (busy) {
        Rng g(mix(seed * 17 + 5));
        int lim = max_symbol(busy->m->kind);
        for (int i = 0; i < 12; i++) { Seq q; for (int k = 0; k < 9; k++) q.push_back(k % 3 && !q.empty() ? (q.back() + 1) % lim : (int) g.below(std::min(lim, 8))); bd.push_back(q); }
        bc = busy->m->prepare(bd, 0);
        brs.rng = Rng(mix(seed * 7 + 1));
        brs.n = (long) bd.size();
        bodies.push_back([&] {
            op_steps = 0;
            rand_cur = &brs;
            try {
                if (is_stream(busy->m->kind)) { for (size_t i = 0; i < bd.size(); i++) { op_steps = 0; busy->m->accept(bc, i); } busy->m->update(); }
                else busy->m->fit(bc);
            } catch (const std::exception &e) { berr = string("exception ") + e.what(); }
            rand_cur = nullptr;
        });
    }
    if (variant == 0) for (auto &b : bodies) b();  // the reference: one after the other
    else report_switches(run_threads(bodies, switch_plan(o)));
    Snapshot p1 = snap_now(*first), p2 = snap_now(*s2);
    for (int t = 0; t < T; t++)
        for (auto &k : tasks[t]) {
            string res;
            s = of(t);
            const Snapshot &p = t % 2 ? p2 : p1;
            if (!k.err.empty()) res = k.err;
            else if (k.what == "parse") { auto v = s->m->interpret(k.raw, p); for (auto &x : v) res += show(x.entries) + show(x.ids) + ";"; if (v.size() != k.nseq) res += "wrong number of results"; }
            else if (k.what == "snap") res = show(s->m->snap(k.snap));
            else res = hex(hash_str(read_file(k.file))) + " " + to_string(read_file(k.file).size());
            obs((int) o.num("m"), "thread " + to_string(t) + " " + k.what + " " + res);
        }
    obs((int) o.num("m"), "after " + show(p1));
    if (s2 != first) obs((int) o.num("m2"), "after " + show(p2));
    if (busy) {
        for (auto &d : bd) { for (int v : d) busy->known.insert(v); note_hist(*busy, d); }
        obs((int) o.num("busy"), "trained meanwhile " + show(snap_now(*busy)) + " " + berr);
        probe("trained_meanwhile");
    }
    probe("reader_calls", (long) T * per);
}
static void do_trainers(const Op &o) {  // several models, each with its own thread
    int T = (int) std::max(1L, std::min(6L, o.num("threads", 3)));
    std::vector<std::function<void()>> bodies;
    struct Prep { Shadow *s; Model::Call c, look; Seqs d; RandState rs; Model::RawSnap snap, again; Model::Raw raw; string err, file; std::shared_ptr<Model> other; };
    std::vector<Prep> prep(T);
    for (int t = 0; t < T; t++) {
        int slot = (int) o.num("m") + t;
        auto it = W.slots.find(slot);
        if (it == W.slots.end()) { prep[t].s = nullptr; continue; }
        prep[t].s = &it->second;
        Op d = o;
        d.a["seed"] = to_string(o.num("seed", 1) + 17 * t);
        prep[t].d = gen_data(d, max_symbol(it->second.m->kind));
        prep[t].c = it->second.m->prepare(prep[t].d, 0);
        prep[t].look = it->second.m->prepare({Seq{0, 1, 2, 3, 0, 1, 2, 3}, prep[t].d.empty() ? Seq() : prep[t].d[0]}, 0);
        prep[t].rs.rng = Rng(mix(o.num("seed", 1) * 7 + t));
        prep[t].rs.n = std::max<long>(1, (long) prep[t].d.size());
        if (o.num("files", 0)) prep[t].file = "trained" + to_string(t) + ".json";
    }
    for (int t = 0; t < T; t++) {
        Prep *p = &prep[t];
        if (!p->s) continue;
        if (variant == 0 && t > 0) continue;
        bodies.push_back([p] {
            op_steps = 0;
            rand_cur = &p->rs;
            try {
                Model &m = *p->s->m;
                if (is_stream(m.kind)) {
                    for (size_t i = 0; i < p->d.size(); i++) { op_steps = 0; m.accept(p->c, i); }
                    m.update();
                } else m.fit(p->c);
                p->raw = m.parse_raw(p->look, 0);
                p->snap = m.snap_raw();
                if (!p->file.empty()) {
                    m.save(p->file);
                    p->other = Model::load(m.kind, p->file, p->s->mode);
                    p->again = p->other->snap_raw();
                }
            } catch (const std::exception &e) { p->err = string("exception ") + e.what(); }
            rand_cur = nullptr;
        });
    }
    if (bodies.empty()) return;
    if (variant == 0) for (auto &b : bodies) b(); else report_switches(run_threads(bodies, switch_plan(o)));
    for (int t = 0; t < T; t++) {
        Prep &p = prep[t];
        if (!p.s || (variant == 0 && t > 0)) continue;
        Snapshot q = p.s->m->snap(p.snap);
        string res = p.err;
        if (res.empty()) for (auto &x : p.s->m->interpret(p.raw, q)) res += show(x.entries);
        if (res.empty() || p.err.empty()) {
            if (!p.file.empty()) res += " file " + hex(hash_str(read_file(p.file))) + " loaded as " + show(p.s->m->snap(p.again));
            p.other.reset();
        }
        obs((int) o.num("m") + t, "trained " + show(q) + " " + res);
        for (auto &d : p.d) { for (int v : d) p.s->known.insert(v); note_hist(*p.s, d); }
    }
}
// ---------------------------------------------------------------- C18: tokenizers
struct PairTokenizer : vgram_core::BaseTokenizer {  // a user's own: two bytes are a token, '#' ends a token
    PairTokenizer() {}
    explicit PairTokenizer(const std::unordered_map<string, int> &m) : BaseTokenizer(m) {}
    string normalize(const string &s) const override { string r; for (char c : s) if (c != '~') r += c; return r; }
    std::vector<string> tokenize(const string &s) const override {
        std::vector<string> r;
        for (size_t i = 0; i < s.size(); i += 2) r.push_back(s.substr(i, 2));
        return r;
    }
};
static string tok_text(const Op &o, const string &kind) {
    static const char *bytes[] = {"a", "b", "c", "A", "Z", "z", "0", "7", " ", "  ", ",", "\xc3\xa9", "~", "#", "xy", "hello", "\t", "\xe2\x96\x81", "q", "-", "e", "ab", "ba"};
    Rng g(mix(o.num("seed", 1)) + 5);
    string r, fill = o.has("lw") ? string(o.num("lw"), 'k') : "";   // long words that differ in their last bytes
    long n = o.num("len", 20), A = std::max(1L, std::min(23L, o.num("A", 23)));
    long off = o.num("off", 0);
    for (long i = 0; i < n; i++) { string b = bytes[(g.below(A) + off) % 23]; r += b[0] == ' ' ? b : fill + b; }
    return r;
}
static void tok_check(int t, const string &text, const std::vector<int> &ids) {
    auto &tk = W.toks[t];
    std::vector<string> tokens = tk->tokenize(tk->normalize(text));
    if (ids.size() != tokens.size()) violate("token-count", "a text of " + to_string(tokens.size()) + " tokens became " + to_string(ids.size()) + " ids");
    string all;
    for (size_t i = 0; i < ids.size(); i++) {
        all += tokens[i];
        auto f = W.tok_ids[t].find(tokens[i]);
        if (f != W.tok_ids[t].end() && f->second != ids[i]) violate("id-changed", "token \"" + tokens[i] + "\" had id " + to_string(f->second) + " and now has " + to_string(ids[i]));
        auto b = W.tok_back[t].find(ids[i]);
        if (b != W.tok_back[t].end() && b->second != tokens[i]) violate("id-shared", "id " + to_string(ids[i]) + " means both \"" + b->second + "\" and \"" + tokens[i] + "\"");
        W.tok_ids[t][tokens[i]] = ids[i];
        W.tok_back[t][ids[i]] = tokens[i];
    }
    string dec = tk->decode(ids);
    if (dec != all) violate("decode", "the ids of \"" + all + "\" decode to \"" + dec + "\"");
    for (auto &p : W.tok_back[t]) if (tk->decode(std::vector<int>(1, p.first)) != p.second) violate("decode", "id " + to_string(p.first) + " of \"" + p.second + "\" decodes to \"" + tk->decode(std::vector<int>(1, p.first)) + "\"");
    probe("token_checks");
}
static void do_tknew(const Op &o) {
    int t = (int) (o.num("t") & 3);
    string k = o.str("kind", "char");
    W.tok_ids[t].clear();
    W.tok_back[t].clear();
    std::unordered_map<string, int> map;
    if (o.has("map")) {  // restored with ids that have gaps
        Rng g(mix(o.num("map")));
        long n = o.num("n", 5), span = std::max(n, o.num("span", 9));
        static const char *one[] = {"a", "b", "c", "z", "0", "7", "x", "y", "h", "e", "l", "o", "q"};
        static const char *two[] = {"ab", "c ", "xy", "he", "ll", "AZ", "07", "hello", "b", "zz", "q", "#a", "ba"};
        std::set<int> used;
        for (long i = 0; i < n && i < 13; i++) {
            int id = (int) g.below(span);
            while (used.count(id)) id++;
            used.insert(id);
            map[k == "char" ? one[i] : two[i]] = id;
        }
        for (auto &p : map) { W.tok_ids[t][p.first] = p.second; W.tok_back[t][p.second] = p.first; }
    }
    call(o, [&] {
        if (k == "char") W.toks[t] = std::make_shared<vgram_core::CharTokenizer>(map);
        else if (k == "word") W.toks[t] = std::make_shared<vgram_core::WordTokenizer>(map);
        else W.toks[t] = std::make_shared<PairTokenizer>(map);
    });
}
static void do_tk(const Op &o) {
    int t = (int) (o.num("t") & 3);
    if (!W.toks[t]) return;
    long n = std::max(1L, o.num("n", 1));
    std::vector<string> texts;
    for (long i = 0; i < n; i++) { Op p = o; p.a["seed"] = to_string(o.num("seed", 1) * 100 + i); texts.push_back(tok_text(p, "")); }
    std::vector<std::vector<int>> ids;
    call(o, [&] {
        if (n == 1) ids.push_back(W.toks[t]->transform(texts[0]));
        else ids = W.toks[t]->transform(texts);
    });
    if (ids.size() != texts.size()) violate("token-count", "texts were lost");
    for (size_t i = 0; i < texts.size(); i++) tok_check(t, texts[i], ids[i]);
    if (o.num("dec")) {  // decoding unknown ids and in bulk changes nothing
        call(o, [&] { W.toks[t]->decode(std::vector<int>{9999, -1, 3}); auto d = W.toks[t]->decode(ids); if (d.size() != ids.size()) violate("decode", "texts were lost in decoding"); });
    }
}
// ids of tokens inside a text model, as its file shows them; they must not change over the model's life
static void do_tokids(const Op &o) {
    Shadow *s = get(o);
    if (!s || !is_text(s->m->kind)) return;
    int slot = (int) (o.num("m") & 3);
    call(plain, [&] { s->m->save("ids.json"); });
    string bytes = read_file("ids.json");
    JReader rd(bytes);
    J j = rd.document();
    const J *coder = j.get("coder"), *alpha = j.get("alphabet");
    if (rd.bad || !coder || !alpha) violate("format", "the saved file has no coder or alphabet");
    std::map<string, int> ids;
    std::map<int, string> back;
    std::set<long> codes;
    for (auto &c : coder->a) if (!codes.insert(c.i).second) violate("id-shared", "the file lists token id " + to_string(c.i) + " twice");
    for (auto &e : alpha->a) {
        const J *vec = e.get("vec"), *tx = e.get("text");
        if (!vec || !tx) violate("format", "an entry without vec or text");
        if (vec->a.size() != 1) continue;
        if (vec->a[0].i < 0 || vec->a[0].i >= (long) coder->a.size()) violate("format", "a code that is not in the coder");
        int id = (int) coder->a[vec->a[0].i].i;
        if (ids.count(tx->s) && ids[tx->s] != id) violate("id-changed", "token \"" + tx->s + "\" has two ids in one model");
        if (back.count(id) && back[id] != tx->s) violate("id-shared", "id " + to_string(id) + " means both \"" + back[id] + "\" and \"" + tx->s + "\" in one model");
        ids[tx->s] = id;
        back[id] = tx->s;
    }
    for (auto &p : ids) {
        if (p.first.empty()) violate("decode", "a symbol of a text model has no text");
        auto f = W.tok_ids[slot].find(p.first);
        if (f != W.tok_ids[slot].end() && f->second != p.second) violate("id-changed", "token \"" + p.first + "\" had id " + to_string(f->second) + " and now has " + to_string(p.second));
        auto b = W.tok_back[slot].find(p.second);
        if (b != W.tok_back[slot].end() && b->second != p.first) violate("id-shared", "id " + to_string(p.second) + " meant \"" + b->second + "\" and now means \"" + p.first + "\"");
        W.tok_ids[slot][p.first] = p.second;
        W.tok_back[slot][p.second] = p.first;
    }
    for (auto &e : alpha->a) {  // multi-token entries spell their tokens
        const J *vec = e.get("vec"), *tx = e.get("text");
        string t;
        for (auto &c : vec->a) if (c.i >= 0 && c.i < (long) coder->a.size()) t += back[(int) coder->a[c.i].i];
        if (t != tx->s) violate("decode", "entry \"" + tx->s + "\" consists of tokens that spell \"" + t + "\"");
    }
    probe("model_id_checks");
    probe("model_ids", (long) ids.size());
}
// ---------------------------------------------------------------- C20: dictionary
static int dict_find(const Seq &q, const std::set<int> *ex) {  // reference: longest entry that is a prefix and not excluded
    int best = -1;
    for (size_t i = 0; i < W.dict_entries.size(); i++) {
        const Seq &e = W.dict_entries[i];
        if (e.empty() || e.size() > q.size() || !std::equal(e.begin(), e.end(), q.begin())) continue;
        if (ex && ex->count((int) i)) continue;
        if (best < 0 || e.size() > W.dict_entries[best].size()) best = (int) i;
    }
    return best;
}
static void dict_note_added(int sym) {
    W.dict_entries.push_back(Seq(1, sym));
    W.dict_parents.push_back(-1);
    probe("symbols_added");
}
static void dict_check() {
    if (W.dict->size() != (int) W.dict_entries.size()) violate("dict-size", "the dictionary has " + to_string(W.dict->size()) + " entries instead of " + to_string(W.dict_entries.size()));
    for (int i = 0; i < W.dict->size(); i++) {
        if (W.dict->get(i) != W.dict_entries[i]) violate("dict-entry", "entry " + to_string(i) + " is " + show(W.dict->get(i)) + " instead of " + show(W.dict_entries[i]));
        if (W.dict->parent(i) != W.dict_parents[i]) violate("dict-parent", "the parent of " + show(W.dict_entries[i]) + " is " + to_string(W.dict->parent(i)) + " instead of " + to_string(W.dict_parents[i]));
    }
    if (W.dict->alphabet() != W.dict_entries) violate("dict-entry", "the alphabet is not the list of entries");
    probe("dict_checks");
}
// After a failed allocation: the dictionary may have grown by first symbols of the sequence, each once.
static bool dict_after_oom(const Outcome &r, const Seq &q, bool may_grow) {
    if (!r.oom_fired) return false;
    probe("oom_in_dictionary");
    if (r.ok) violate("swallowed", "an allocation failed in the dictionary, and it returned normally");
    if (!r.oom) violate("oom-exception", "an allocation failed in the dictionary, and it threw: " + r.err);
    for (int i = (int) W.dict_entries.size(); i < W.dict->size(); i++) {
        const Seq &e = W.dict->get(i);
        if (!may_grow || e.size() != 1 || std::find(q.begin(), q.end(), e[0]) == q.end() || dict_find(e, nullptr) >= 0)
            violate("dict-entry", "after a failed allocation the dictionary has an entry " + show(e));
        dict_note_added(e[0]);
    }
    dict_check();
    return true;
}
static void do_dinit(const Op &o) {
    Seqs d;
    if (o.has("lit")) d = parse_seqs(o.str("lit"));
    std::set<Seq> u;
    Seqs given;
    for (auto &e : d) if (!e.empty() && u.insert(e).second) given.push_back(e);
    auto make = [&](std::function<void()> f) {
        Outcome r = call(o, f);
        if (!r.oom_fired) return;
        probe("oom_in_dictionary");
        if (r.ok || !r.oom) violate("swallowed", "an allocation failed in making a dictionary, and it was made");
        call(plain, f);
    };
    if (o.str("how") == "symbols") {
        Seq syms;
        Seqs singles;
        std::set<int> us;
        for (auto &e : given) if (us.insert(e[0]).second) { syms.push_back(e[0]); singles.push_back(Seq(1, e[0])); }
        make([&] { W.dict = std::make_shared<IntDictImpl>(syms); });
        given = singles;
    } else if (o.str("how") == "empty") {
        given.clear();
        make([&] { W.dict = std::make_shared<IntDictImpl>(); });
    } else make([&] { W.dict = std::make_shared<IntDictImpl>(given); });
    W.dict_entries.clear();
    W.dict_parents.clear();
    std::sort(given.begin(), given.end());
    // ids are positions; only their stability is promised, so take the entries as the dictionary numbers them
    for (int i = 0; i < W.dict->size(); i++) W.dict_entries.push_back(W.dict->get(i));
    Seqs have = W.dict_entries;
    std::sort(have.begin(), have.end());
    if (have != given) violate("dict-entry", "the dictionary was built from " + show(given) + " but has " + show(have));
    for (size_t i = 0; i < W.dict_entries.size(); i++) {
        int best = -1;
        for (size_t j = 0; j < W.dict_entries.size(); j++) {
            const Seq &e = W.dict_entries[j], &f = W.dict_entries[i];
            if (e.size() < f.size() && std::equal(e.begin(), e.end(), f.begin()) && (best < 0 || e.size() > W.dict_entries[best].size())) best = (int) j;
        }
        W.dict_parents.push_back(best);
    }
    dict_check();
}
static void do_dsearch(const Op &o) {
    if (!W.dict) return;
    Seq q = parse_seq(o.str("lit"));
    if (q.empty()) return;
    if (o.num("clone")) { call(plain, [&] { W.dict = std::make_shared<IntDictImpl>(*W.dict); }); dict_check(); }
    bool ex = o.has("ex");
    std::set<int> e;
    std::unordered_set<int> ue;
    for (int v : parse_seq(o.str("ex"))) { if (v >= 900) v = v - 900; else v = v % std::max(1, (int) W.dict_entries.size()); e.insert(v); ue.insert(v); }
    int got = -2;
    Outcome r = call(o, [&] { got = W.dict->search(q, ex ? &ue : nullptr); });
    bool again = dict_after_oom(r, Seq(1, q[0]), !ex);
    int want = dict_find(q, ex ? &e : nullptr);
    size_t before = W.dict_entries.size();
    if (again) call(plain, [&] { got = W.dict->search(q, ex ? &ue : nullptr); });
    if (want < 0 && !ex) { want = (int) before; dict_note_added(q[0]); }
    if (got != want) violate("dict-search", "looking up " + show(q) + " excluding " + show(Seq(e.begin(), e.end())) + " gives " + to_string(got) + " instead of " + to_string(want) + (want >= 0 ? " " + show(W.dict_entries[want]) : ""));
    dict_check();
    probe("dict_searches");
    if (want >= (int) W.dict_built) probe("dict_searches_late");
}
static void do_dparse(const Op &o) {
    if (!W.dict) return;
    Seq q = parse_seq(o.str("lit"));
    Seq out;
    bool weighted = o.num("weighted");
    bool ex = !weighted && o.has("ex");
    std::set<int> e;
    std::unordered_set<int> ue;
    for (int v : parse_seq(o.str("ex"))) { v = v % std::max(1, (int) W.dict_entries.size()); e.insert(v); ue.insert(v); }
    Seq freqs;
    double total = 0;
    Rng g(mix(o.num("seed", 1)));
    if (weighted) {  // frequencies may be shorter than the dictionary, which grows meanwhile
        size_t n = g.below(W.dict_entries.size() + 1);
        for (size_t i = 0; i < n; i++) { freqs.push_back((int) g.below(9)); total += freqs.back(); }
    }
    int n = 0;
    auto run = [&] { out.clear(); if (weighted) n = W.dict->parse(q, freqs, total, &out); else n = W.dict->parse(q, &out, ex ? &ue : nullptr); };
    Outcome r = call(o, run);
    if (dict_after_oom(r, q, !ex)) call(plain, run);
    if (n != (int) out.size()) violate("dict-parse", "parse returns " + to_string(n) + " for " + to_string(out.size()) + " ids");
    Seq spelled;
    if (weighted) {
        for (size_t i = 0; i < q.size(); i++) if (dict_find(Seq(q.begin() + i, q.end()), nullptr) < 0) dict_note_added(q[i]);
        dict_check();
        for (int id : out) { if (id < 0 || id >= (int) W.dict_entries.size()) violate("dict-parse", "id " + to_string(id) + " out of range"); spelled.insert(spelled.end(), W.dict_entries[id].begin(), W.dict_entries[id].end()); }
        if (spelled != q) violate("dict-parse", "the segmentation of " + show(q) + " spells " + show(spelled));
    } else {
        Seq want;
        for (size_t i = 0; i < q.size();) {
            int w = dict_find(Seq(q.begin() + i, q.end()), ex ? &e : nullptr);
            if (w < 0 && !ex) { w = (int) W.dict_entries.size(); dict_note_added(q[i]); }
            if (w < 0) { i++; continue; }
            want.push_back(w);
            i += W.dict_entries[w].size();
        }
        if (out != want) violate("dict-parse", "greedy parse of " + show(q) + " gives " + show(out) + " instead of " + show(want));
        dict_check();
    }
    probe("dict_parses");
}

// ================================================================ running
void World::op(const Op &o) {
    long c0 = console.bytes, f0 = 0;
    bool quiet = cur_prop == "C19" && variant == 0;
    Shadow *s = get(o);
    bool was_file = s && s->from_file;
    if (quiet) f0 = fd_bytes();
    if (o.name == "new") do_new(o);
    else if (o.name == "craft") do_craft(o);
    else if (o.name == "train") do_train(o);
    else if (o.name == "upd") do_upd(o);
    else if (o.name == "fit") do_fit(o);
    else if (o.name == "look") do_look(o);
    else if (o.name == "dump") do_dump(o);
    else if (o.name == "reload") do_reload(o);
    else if (o.name == "drop") do_drop(o);
    else if (o.name == "fidelity") do_fidelity(o);
    else if (o.name == "fsave") do_fsave(o);
    else if (o.name == "tear") do_tear(o);
    else if (o.name == "progress") do_progress(o);
    else if (o.name == "noise") do_noise(o);
    else if (o.name == "steady") do_steady(o);
    else if (o.name == "itransform") do_itransform(o);
    else if (o.name == "readers") do_readers(o);
    else if (o.name == "trainers") do_trainers(o);
    else if (o.name == "tknew") do_tknew(o);
    else if (o.name == "tk") do_tk(o);
    else if (o.name == "tokids") do_tokids(o);
    else if (o.name == "dinit") do_dinit(o);
    else if (o.name == "dsearch") do_dsearch(o);
    else if (o.name == "dparse") do_dparse(o);
    else { emit('X', "unknown operation " + o.name); finish(3); }
    if (quiet && !was_file && o.name != "craft" && o.name != "reload") {
        if (console.bytes != c0) violate("prints", "a model with verbosity 0 wrote " + to_string(console.bytes - c0) + " bytes to the console");
        if (fd_bytes() != f0) violate("prints", "a model with verbosity 0 wrote " + to_string(fd_bytes() - f0) + " bytes to its output descriptors");
        probe("silence_checks");
    }
}
void World::run() {
    const Op &h = sc.head;
    bool alt = variant == 1;
    // the environment: must not matter, so the twin gets another one
    uint64_t e = mix(h.num("env", 1) * 2 + ((cur_prop == "C11" && alt) ? 1 : 0));
    env.entropy = e;
    env.clock_ns = (int64_t) (e >> 4);
    env.tick_ns = 1 + (int64_t) (e % 100000007);
    if (e % 5 == 0) env.tick_ns = -env.tick_ns;
    env.pid = 2 + (int) (e % 30000);
    static const int cpus[] = {1, 2, 4, 8, 16, 64, 3, 96};
    env.cpus = cpus[(e >> 20) % 8];
    env.sched = mix(e ^ 99);
    rand_env.rng = Rng(e ^ 77);
    static const int fills[] = {0, 0xff, 0xaa, 0x01, 0x7f, 0x55};
    env.fill = fills[e % 6];
    if (cur_prop == "C11" && alt) {
        fault_count[F_ENV]++;
        for (unsigned i = 0; i < e % 97; i++) { char *junk = new char[16 + (e >> (i % 32)) % 5000]; if (i % 3) delete[] junk; }
    }
    if (cur_prop == "C19" && alt) {
        console.fail_after = h.num("consoleat", 0);
        console.throws = h.num("consolethrow", 0);
    }
    seam::steps = 0;
    step_budget = (uint64_t) h.num("budget", 4000) * 1000000ULL;
    on_hang = hang;
    int n = 0;
    int rounds = cur_prop == "C23" ? 5 : 1;
    std::vector<long> bytes, fds;
  for (int round = 1; round <= rounds; round++) {
    if (rounds > 1) emit('M', "round " + to_string(round));
    n = 0;
    for (auto &o : sc.ops) {
        n++;
        where = "op " + to_string(n) + " " + o.name;
        if (cur_prop == "C11" && variant == 0 && o.has("m") && o.num("m") > 0) continue;  // only model 0
        emit('I', where);
        try {
            op(o);
        } catch (const BadOutput &b) {
            violate("bad-output", b.what);
        }
        emit(on("C23 C26") ? 'M' : 'I', "steps " + to_string(seam::steps));
    }
    // end of the run: the models go away
    where = "end";
    op_steps = 0;
    slots.clear();
    dict.reset();
    for (auto &t : toks) t.reset();
    if (rounds > 1) {
        for (int t = 0; t < 4; t++) { tok_ids[t].clear(); tok_back[t].clear(); }
        dict_entries = Seqs();
        dict_parents = Seq();
        bytes.push_back((long) __sanitizer_get_current_allocated_bytes());
        long n = 0;
        for (int fd = 0; fd < 256; fd++) n += fcntl(fd, F_GETFD) != -1;
        fds.push_back(n);
    }
  }
    if (rounds > 1) {  // the same history over and over: what it takes has to come back
        emit('M', "bytes " + show(Seq(bytes.begin(), bytes.end())) + " descriptors " + show(Seq(fds.begin(), fds.end())));
        auto grows = [](const std::vector<long> &v) { for (size_t i = 2; i < v.size(); i++) if (v[i] <= v[i - 1]) return false; return true; };
        if (grows(bytes)) violate("memory-leak", "each time the same history is repeated and its models destroyed, " + to_string(bytes[4] - bytes[3]) + " bytes are not given back");
        if (grows(fds)) violate("descriptor-leak", "each time the same history is repeated and its models destroyed, " + to_string(fds[4] - fds[3]) + " descriptors stay open");
        probe("leak_checks");
    }
    finish(0);
}

// ================================================================ parent
static string json_str(const string &s) {
    string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char) c;
    }
    return r + "\"";
}
struct RunResult {
    int status = 0;         // wait status
    bool done = false;
    string vkey, vmsg, note, err;
    string obs;             // all O lines
    std::vector<std::pair<int, string>> olist;
    string sw;
    uint64_t hash = 1469598103934665603ULL;
    std::map<string, long> faults, probes;
    uint64_t steps = 0;
    bool timed_out = false;
    string info;
};
static string classify_crash(int status, const string &err) {
    size_t p = err.find("ERROR: AddressSanitizer: ");
    if (p != string::npos) {
        size_t e = err.find_first_of(" \n", p + 25);
        return "crash:" + err.substr(p + 25, e - p - 25);
    }
    if (err.find("runtime error: ") != string::npos) return "crash:undefined-behaviour";
    if (err.find("Assertion") != string::npos) return "crash:assertion";
    if (err.find("terminate called") != string::npos) return "crash:terminate";
    if (WIFSIGNALED(status)) return "crash:signal-" + to_string(WTERMSIG(status));
    return "crash:exit-" + to_string(WEXITSTATUS(status));
}
static std::map<string, long> parse_counts(const string &s) {
    std::map<string, long> m;
    std::istringstream is(s);
    string t;
    while (is >> t) { size_t e = t.find('='); if (e != string::npos) m[t.substr(0, e)] += atol(t.c_str() + e + 1); }
    return m;
}
static void clean_directory() {  // nothing of an earlier run may matter
    DIR *d = opendir(".");
    if (!d) return;
    while (struct dirent *e = readdir(d)) {
        if (e->d_type == DT_REG || e->d_type == DT_LNK) syscall(SYS_unlinkat, AT_FDCWD, e->d_name, 0);
        else if (e->d_type == DT_DIR && e->d_name[0] != '.') {  // one level: made by a run
            if (DIR *d2 = opendir(e->d_name)) {
                while (struct dirent *f = readdir(d2)) if (f->d_type == DT_REG || f->d_type == DT_LNK) unlink((string(e->d_name) + "/" + f->d_name).c_str());
                closedir(d2);
            }
            rmdir(e->d_name);
        }
    }
    closedir(d);
}
static RunResult run_variant(const Scenario &sc, int v, bool keep_info) {
    RunResult r;
    int pfd[2];
    if (pipe(pfd) != 0) { r.err = "pipe"; return r; }
    clean_directory();
    pid_t pid = fork();
    if (pid == 0) {
        syscall(SYS_close, pfd[0]);
        out_fd = pfd[1];
        if (out_fd != 200) { dup2(out_fd, 200); syscall(SYS_close, out_fd); out_fd = 200; }
        int ef = (int) syscall(SYS_openat, AT_FDCWD, "stderr.txt", O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
        int of = (int) syscall(SYS_openat, AT_FDCWD, "stdout.txt", O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
        dup2(of, 1);
        dup2(ef, 2);
        struct rlimit rl = {150, 160};
        setrlimit(RLIMIT_CPU, &rl);
        struct rlimit cl = {0, 0};
        setrlimit(RLIMIT_CORE, &cl);
        variant = v;
        cur_prop = sc.prop;
        W.sc = sc;
        W.run();
        _exit(0);
    }
    syscall(SYS_close, pfd[1]);
    string buf;
    char b[65536];
    long n;
    while ((n = syscall(SYS_read, pfd[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR)) if (n > 0) buf.append(b, n);
    syscall(SYS_close, pfd[0]);
    waitpid(pid, &r.status, 0);
    size_t i = 0;
    while (i < buf.size()) {
        size_t e = buf.find('\n', i);
        if (e == string::npos) break;
        string l = buf.substr(i, e - i);
        i = e + 1;
        if (l.size() < 2) continue;
        string x = l.substr(2);
        char t = l[0];
        if (!strchr("SEPM", t)) { r.hash ^= hash_str(l); r.hash *= 1099511628211ULL; }
        if (t == 'V') { size_t p = x.find('|'); r.vkey = x.substr(0, p); r.vmsg = x.substr(p + 1); }
        else if (t == 'O') { size_t p = x.find(' '); r.olist.push_back({atoi(x.c_str()), x.substr(p + 1)}); }
        else if (t == 'F') r.faults = parse_counts(x);
        else if (t == 'P') r.probes = parse_counts(x);
        else if (t == 'S') r.steps = strtoull(x.c_str(), nullptr, 10);
        else if (t == 'W') r.sw += x + ";";
        else if (t == 'X') r.err = x;
        else if (t == 'M' && (x[0] == 'b')) r.note += "; " + x;
        else if (t == 'E') r.done = true;
        if (keep_info) r.info += l + "\n";
    }
    if (!r.done) {
        string err = read_file("stderr.txt");
        if (WIFSIGNALED(r.status) && (WTERMSIG(r.status) == SIGXCPU || WTERMSIG(r.status) == SIGKILL)) {
            if (WTERMSIG(r.status) == SIGXCPU) { r.vkey = "hang"; r.vmsg = "no end after 150 s of processor time"; }
            else r.err = "the run was killed";
        } else {
            r.vkey = classify_crash(r.status, err);
            string head;
            size_t p = err.find("ERROR: AddressSanitizer");
            if (p == string::npos) p = err.find("runtime error");
            if (p == string::npos) p = 0;
            for (char c : err.substr(p, 600)) head += c;
            r.vmsg = "the process crashed: ";
            // no addresses: they differ between machines
            for (size_t k = 0; k < head.size(); k++) {
                if (head.compare(k, 2, "0x") == 0) { r.vmsg += "0x_"; k += 2; while (k < head.size() && isxdigit((unsigned char) head[k])) k++; k--; }
                else if (head.compare(k, 2, "==") == 0 && k + 2 < head.size() && isdigit((unsigned char) head[k + 2])) { k += 2; while (k < head.size() && isdigit((unsigned char) head[k])) k++; k--; }
                else r.vmsg += head[k];
            }
        }
    }
    return r;
}
static string counts_json(const std::map<string, long> &m) {
    string s = "{";
    for (auto &p : m) s += (s.size() > 1 ? ", " : "") + json_str(p.first) + ": " + to_string(p.second);
    return s + "}";
}
static string run_scenario(const Scenario &sc, bool keep_info) {
    std::vector<RunResult> rs;
    string status = "ok", key, msg;
    uint64_t hash = 7, steps = 0;
    std::map<string, long> faults, probes;
    string sw, info;
    for (int v = 0; v < sc.variants; v++) {
        RunResult r = run_variant(sc, v, keep_info);
        hash = mix(hash ^ r.hash);
        steps += r.steps;
        for (auto &p : r.faults) faults[p.first] += p.second;
        for (auto &p : r.probes) probes[p.first] += p.second;
        sw += r.sw;
        info += r.info;
        rs.push_back(r);
        if (!r.err.empty()) { status = "error"; msg = r.err; break; }
        if (!r.vkey.empty()) { status = "violation"; key = r.vkey; msg = (sc.variants > 1 ? "run " + to_string(v) + ", " : "") + r.vmsg + r.note; break; }
    }
    if (status == "ok" && sc.variants == 2) {
        std::vector<string> a, b;
        for (auto &x : rs[0].olist) if (sc.prop != "C11" || x.first == 0) a.push_back(x.second);
        for (auto &x : rs[1].olist) if (sc.prop != "C11" || x.first == 0) b.push_back(x.second);
        static const std::map<string, string> why = {
            {"C04", "with the read-only calls in between the model differs"}, {"C11", "the same history gives another result among other models and in another environment"},
            {"C12", "concurrent readers get something else than sequential ones"}, {"C17", "the text model differs from tokenizer and integer model"},
            {"C19", "the result depends on verbosity or on the console"}};
        size_t n = std::min(a.size(), b.size());
        size_t i = 0;
        while (i < n && a[i] == b[i]) i++;
        if (i < n || a.size() != b.size()) {
            status = "violation";
            key = "twins-differ";
            string x = i < a.size() ? a[i] : "(nothing)", y = i < b.size() ? b[i] : "(nothing)";
            size_t d = 0;
            while (d < x.size() && d < y.size() && x[d] == y[d]) d++;
            size_t from = d > 60 ? d - 60 : 0;
            msg = why.at(sc.prop) + ": observation " + to_string(i) + " (" + x.substr(0, 30) + ") ..." + x.substr(from, 160) + "... / ..." + y.substr(from, 160);
        } else {
            probes["observations_compared"] += (long) n;
        }
    }
    string out = "{\"status\": " + json_str(status) + ", \"key\": " + json_str(key) + ", \"msg\": " + json_str(msg.substr(0, 1500)) + ", \"hash\": \"" + hex(hash) +
                 "\", \"steps\": " + to_string(steps) + ", \"faults\": " + counts_json(faults) + ", \"probes\": " + counts_json(probes) + ", \"sw\": " + json_str(sw.size() < 200000 ? sw : "");
    if (keep_info) out += ", \"log\": " + json_str(info);
    return out + "}";
}
extern "C" const char *__asan_default_options() { return "detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1:handle_sigfpe=1:detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_context_size=8:symbolize=0:print_legend=0"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=78"; }

int main(int argc, char **argv) {
    // addresses must not vary between runs
    int per = personality(0xffffffff);
    if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("VSIM_REEXEC")) {
        if (personality(per | ADDR_NO_RANDOMIZE) != -1) { setenv("VSIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
    }
    bool verbose = argc > 2 && string(argv[2]) == "-v";
    if (argc > 1 && chdir(argv[1]) != 0) { perror("chdir"); return 2; }
    cover_map = (unsigned char *) mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::cout.rdbuf(&console);
    std::ios::sync_with_stdio(true);
    string line;
    Scenario sc;
    bool have = false;
    std::vector<char> buf(1 << 20);
    string pending;
    while (true) {
        size_t e;
        while ((e = pending.find('\n')) == string::npos) {
            long n = syscall(SYS_read, 0, buf.data(), buf.size());
            if (n <= 0) goto done;
            pending.append(buf.data(), n);
        }
        line = pending.substr(0, e);
        pending.erase(0, e + 1);
        if (line.empty() || line[0] == '#') continue;
        Op o = parse_op(line);
        if (o.name == "scenario") {
            sc = Scenario();
            sc.head = o;
            sc.prop = o.str("prop");
            static const char *twins = "C04 C11 C12 C17 C19";
            sc.variants = strstr(twins, sc.prop.c_str()) ? 2 : 1;
            have = true;
        } else if (o.name == "end") {
            if (!have) continue;
            string r = run_scenario(sc, verbose);
            r += "\n";
            size_t w = 0;
            while (w < r.size()) { long n = syscall(SYS_write, 1, r.data() + w, r.size() - w); if (n <= 0) return 3; w += n; }
            have = false;
        } else if (o.name == "coverage") {
            long n = 0;
            for (int i = 0; i < 65536; i++) n += cover_map[i];
            string r = "{\"blocks\": " + to_string(n) + "}\n";
            syscall(SYS_write, 1, r.data(), r.size());
        } else if (have) sc.ops.push_back(o);
    }
done:
    return 0;
}
