#include "model.h"
#include <fcntl.h>
#include <limits.h>
#include <sys/syscall.h>
#include <unistd.h>

using namespace vgram_core;

std::string read_file(const std::string &f, bool *ok) {
    std::string r;
    int fd = (int) syscall(SYS_openat, AT_FDCWD, f.c_str(), O_RDONLY, 0);
    if (ok) *ok = fd >= 0;
    if (fd < 0) return r;
    char b[65536];
    long n;
    while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0) r.append(b, n);
    syscall(SYS_close, fd);
    return r;
}
void write_file(const std::string &f, const std::string &s) {
    int fd = (int) syscall(SYS_openat, AT_FDCWD, f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    size_t o = 0;
    while (o < s.size()) {
        long n = syscall(SYS_write, fd, s.data() + o, s.size() - o);
        if (n <= 0) _exit(95);
        o += n;
    }
    syscall(SYS_close, fd);
}

int Rendering::to_int(int b) const {
    static const int special[] = {INT_MIN, INT_MAX, -1, 0, 1, INT_MIN + 1, 65536, -65536, INT_MAX - 1, 256};
    switch (mode % 4) {
        case 0: return b;
        case 1: return b * 7919 - 3;
        case 2: return b < 10 ? special[b] : 1000003 * (b % 2 ? -1 : 1) + 97 * b;
        default: return 1000 - b;
    }
}
static const char kChars[] = "etaoinshrdlucmfwypvbgkjqxz0123456789";
std::string Rendering::token(int b) const {
    if (!is_words(kind)) {
        int i = mode % 2 ? 35 - b : b;
        return std::string(1, kChars[i % 36]);
    }
    std::string w(3, 'w');  // words have three bytes, so that a concatenation can be taken apart
    switch (mode % 3) {
        case 0: w[1] = char('0' + b / 15); w[2] = char('a' + b % 15); break;
        case 1: w[0] = char(mode % 12 < 6 ? 'A' + b % 20 : b % 20); w[1] = char('!' + b / 20); w[2] = b % 2 ? '.' : 'q'; break;  // quotes; from mode 6 on, bytes from 0 to 19
        default: w[0] = char(0xC3); w[1] = char(0xA0 + b % 25); w[2] = char('a' + b / 25); break;  // UTF-8
    }
    // long words that differ only in their last or first bytes
    if (mode >= 12) { std::string fill(token_bytes() - 3, 'k'); w = mode >= 18 ? w + fill : fill + w; }
    return w;
}
size_t Rendering::token_bytes() const { return !is_words(kind) ? 1 : mode < 12 ? 3 : mode % 2 ? 70 : 300; }
Seq Rendering::ints(const Seq &s) {
    Seq r;
    r.reserve(s.size());
    for (int b : s) {
        int v = to_int(b);
        back[v] = b;
        r.push_back(v);
    }
    return r;
}
std::string Rendering::text(const Seq &s, uint64_t noise) const {
    std::string r;
    seam::Rng g(seam::mix(noise));
    for (size_t i = 0; i < s.size(); i++) {
        std::string t = token(s[i]);
        if (is_words(kind)) {
            if (i) r += ' ';
            r += t;
        } else {
            if (noise) {
                if (g.chance(0.15)) { static const char *junk[] = {" ", ", ", "-", "\t", "\n", "!?", "_", "\xc3\xa9", "\xe2\x96\x81"}; r += junk[g.below(9)]; }
                if (t[0] >= 'a' && t[0] <= 'z' && g.chance(0.2)) t[0] = char(t[0] - 32);
            }
            r += t;
        }
    }
    if (is_words(kind) && noise && g.chance(0.3) && !r.empty()) r += ' ';
    return r;
}
Seq Rendering::from_ints(const Seq &s) const {
    Seq r;
    r.reserve(s.size());
    for (int v : s) {
        auto it = back.find(v);
        if (it == back.end()) {
            int b = -1;  // a symbol never given to this rendering: still decodable
            for (int i = 0; i < max_symbol(kind) + 100; i++) if (to_int(i) == v) { b = i; break; }
            if (b < 0) throw BadOutput{"symbol " + std::to_string(v) + " was never given to the model"};
            r.push_back(b);
        } else {
            r.push_back(it->second);
        }
    }
    return r;
}
Seq Rendering::from_text(const std::string &s) const {
    Seq r;
    static thread_local std::map<std::pair<bool, int>, std::map<std::string, int>> rev;
    auto &m = rev[{is_words(kind), mode}];
    if (m.empty()) for (int b = 0; b < max_symbol(kind); b++) m[token(b)] = b;
    size_t w = token_bytes();
    if (s.size() % w) throw BadOutput{"text \"" + s + "\" is not made of tokens"};
    for (size_t i = 0; i < s.size(); i += w) {
        auto it = m.find(s.substr(i, w));
        if (it == m.end()) throw BadOutput{"text \"" + s + "\" has a token that was never given to the model"};
        r.push_back(it->second);
    }
    return r;
}

std::shared_ptr<Model> Model::create(Kind k, int size, int iters, int verbose, int mode, bool mirror) {
    auto m = std::make_shared<Model>();
    m->kind = k;
    m->r.kind = k;
    m->r.mode = mode;
    m->mirror = mirror && is_text(k);
    if (m->mirror) {
        if (is_words(k)) m->tok = std::make_shared<WordTokenizer>(); else m->tok = std::make_shared<CharTokenizer>();
        if (is_fit(k)) m->iv = std::make_shared<IntVGram>(size, iters, verbose);
        else m->is = std::make_shared<IntStreamVGram>(size, verbose);
        return m;
    }
    switch (k) {
        case IS: m->is = std::make_shared<IntStreamVGram>(size, verbose); break;
        case IV: m->iv.reset(api::new_int_vgram(size, iters, verbose)); m->py = true; break;
        case SS: m->ss = std::make_shared<StringStreamVGram>(size, verbose); break;
        case SW: m->ss = std::make_shared<StringStreamVGram>(size, verbose, false, true); break;
        case SV: m->sv.reset(api::new_string_vgram(size, iters, verbose, false)); m->py = true; break;
        case SX: m->sv.reset(api::new_string_vgram(size, iters, verbose, true)); m->py = true; break;
    }
    return m;
}
std::shared_ptr<Model> Model::load(Kind k, const std::string &file, int mode) {
    auto m = std::make_shared<Model>();
    m->kind = k;
    m->r.kind = k;
    m->r.mode = mode;
    m->loaded = true;
    switch (k) {
        case IS: m->is = api::load_is(file); break;
        case IV: m->py = mode % 4 < 3; m->iv.reset(api::load_iv(file, m->py)); break;
        case SS: case SW: m->ss = api::load_ss(file); break;
        case SV: case SX: m->sv.reset(api::load_sv(file)); break;
    }
    return m;
}
Model::Call Model::prepare(const Seqs &s, uint64_t noise) {
    Call c;
    for (size_t i = 0; i < s.size(); i++) {
        if (is_text(kind)) c.texts.push_back(r.text(s[i], noise ? noise + i : 0));
        else c.ints.push_back(r.ints(s[i]));
    }
    return c;
}
void Model::accept(const Call &c, size_t i) {
    if (mirror) {
        if (iv) iv->accept(tok->transform(c.texts[i])); else is->accept(tok->transform(c.texts[i]));
        return;
    }
    switch (kind) {
        case IS: is->accept(c.ints[i]); break;
        case IV: iv->accept(c.ints[i]); break;
        case SS: case SW: ss->accept(c.texts[i]); break;
        default: break;
    }
}
void Model::update() {
    if (mirror) { if (iv) iv->update_dict(); else is->update_dict(); return; }
    switch (kind) {
        case IS: is->update_dict(); break;
        case IV: iv->update_dict(); break;
        case SS: case SW: ss->update_dict(); break;
        default: break;
    }
}
bool Model::fit(const Call &c) {
    if (mirror) return iv->fit(tok->transform(c.texts)) != nullptr;
    if (kind == IV) return (py ? api::py_fit(iv.get(), c.ints) : iv->fit(c.ints)) != nullptr;
    if (kind == SV || kind == SX) return (py ? api::py_fit_text(sv.get(), c.texts) : sv->fit(c.texts)) != nullptr;
    return true;
}
Model::Raw Model::parse_raw(const Call &c, int how) {
    Raw o;
    if (mirror) {
        for (const auto &t : c.texts) o.ids.push_back(iv ? iv->parse(tok->transform(t)) : is->parse(tok->transform(t)));
        return o;
    }
    switch (kind) {
        case IS:
            for (const auto &s : c.ints) o.ids.push_back(is->parse(s));
            break;
        case IV:
            if (how % 3 == 0) o.ids = iv->transform(c.ints);
            else if (how % 3 == 1) for (const auto &s : c.ints) o.ids.push_back(iv->parse(s));
            else o.strings = py ? api::py_transform(iv.get(), c.ints) : iv->transform_to_string(c.ints);
            break;
        case SS: case SW:
            for (const auto &s : c.texts) o.pieces.push_back(ss->parse(s));
            break;
        default:
            o.strings = sv->transform(c.texts);
    }
    return o;
}
std::vector<Parsed> Model::interpret(const Raw &raw, const Snapshot &s) const {
    std::vector<Parsed> out;
    auto by_ids = [&](const std::vector<int> &ids) {
        Parsed p;
        p.has_ids = true;
        p.ids = ids;
        for (int id : ids) {
            if (id < 0 || id >= (int) s.alpha.size())
                throw BadOutput{"id " + std::to_string(id) + " is not an index of the alphabet of " + std::to_string(s.alpha.size())};
            p.entries.push_back(s.alpha[id]);
        }
        out.push_back(p);
    };
    for (const auto &ids : raw.ids) by_ids(ids);
    for (const auto &ps : raw.pieces) {
        Parsed p;
        for (const auto &t : ps) p.entries.push_back(r.from_text(t));
        out.push_back(p);
    }
    for (const auto &str : raw.strings) {
        std::vector<std::string> parts;
        std::string cur;
        for (char ch : str) {
            if (ch == ' ') { if (!cur.empty()) parts.push_back(cur); cur.clear(); } else cur += ch;
        }
        if (!cur.empty()) parts.push_back(cur);
        if (kind == IV) {
            Seq ids;
            if (str != "-1") for (const auto &p : parts) ids.push_back(atoi(p.c_str()));
            by_ids(ids);
        } else {
            Parsed p;
            for (const auto &t : parts) p.entries.push_back(r.from_text(t));
            out.push_back(p);
        }
    }
    return out;
}
Model::RawSnap Model::snap_raw() const {
    RawSnap s;
    if (mirror) {
        if (iv) { s.as = tok->decode(iv->alphabet()); s.f = iv->freqs(); }
        else { s.as = tok->decode(is->alphabet()); s.f = is->freqs(); }
        return s;
    }
    switch (kind) {
        case IS: s.ai = is->alphabet(); s.f = is->freqs(); break;
        case IV: s.ai = iv->alphabet(); s.f = iv->freqs(); break;
        case SS: case SW: s.as = ss->alphabet(); s.f = ss->freqs(); break;
        default: s.as = sv->alphabet(); s.f = sv->freqs();
    }
    return s;
}
Snapshot Model::snap(const RawSnap &raw) const {
    Snapshot s;
    s.freqs = raw.f;
    for (const auto &a : raw.ai) s.alpha.push_back(r.from_ints(a));
    for (const auto &t : raw.as) s.alpha.push_back(r.from_text(t));
    return s;
}
void Model::save(const std::string &f) const {
    switch (kind) {
        case IS: is->save(f); break;
        case IV: iv->save(f); break;
        case SS: case SW: ss->save(f); break;
        default: sv->save(f);
    }
}
