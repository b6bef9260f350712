// A model under test (real code of /repo) seen through one interface, and what the simulator knows about it.
// Sequences are given and returned as "base" symbols 0,1,2,...; every kind of model has its own rendering of them.
#pragma once
#include "api.h"
#include "seams.h"
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

using Seq = std::vector<int>;
using Seqs = std::vector<Seq>;

struct BadOutput { std::string what; };  // the code returned something that cannot be an answer

enum Kind { IS, IV, SS, SW, SV, SX };
static const char *kind_names[] = {"IS", "IV", "SS", "SW", "SV", "SX"};
inline bool is_text(Kind k) { return k >= SS; }
inline bool is_fit(Kind k) { return k == IV || k == SV || k == SX; }
inline bool is_stream(Kind k) { return k == IS || k == IV || k == SS || k == SW; }
inline bool is_words(Kind k) { return k == SW || k == SX; }
inline int max_symbol(Kind k) { return is_text(k) ? (is_words(k) ? 600 : 36) : 20000; }

struct Snapshot {
    Seqs alpha;
    Seq freqs;
    bool operator==(const Snapshot &o) const { return alpha == o.alpha && freqs == o.freqs; }
};
struct Parsed {
    Seqs entries;   // what each returned piece stands for
    Seq ids;        // ids, where the class returns them
    bool has_ids = false;
};

struct Rendering {  // of base symbols, per model
    Kind kind;
    int mode = 0;
    std::map<int, int> back;
    int to_int(int b) const;
    std::string token(int b) const;
    size_t token_bytes() const;  // all tokens of a rendering have the same length
    Seq ints(const Seq &s);
    std::string text(const Seq &s, uint64_t noise) const;
    Seq from_ints(const Seq &s) const;
    Seq from_text(const std::string &s) const;
};

struct Model {
    Kind kind;
    Rendering r;
    bool loaded = false;
    bool mirror = false;   // text kind built from a tokenizer and an integer model
    bool py = false;       // the object is of the Python-facing subclass
    std::shared_ptr<vgram_core::IntStreamVGram> is;
    std::shared_ptr<vgram_core::IntVGram> iv;
    std::shared_ptr<vgram_core::StringStreamVGram> ss;
    std::shared_ptr<vgram_core::StringVGram> sv;
    std::shared_ptr<vgram_core::BaseTokenizer> tok;  // mirror only

    static std::shared_ptr<Model> create(Kind k, int size, int iters, int verbose, int mode, bool mirror);
    static std::shared_ptr<Model> load(Kind k, const std::string &file, int mode);

    // rendering happens before the real call, so that faults armed around `run` hit only the real code
    struct Call {  // a prepared call
        std::vector<std::vector<int>> ints;
        std::vector<std::string> texts;
    };
    Call prepare(const Seqs &s, uint64_t noise);
    void accept(const Call &c, size_t i);
    void update();
    bool fit(const Call &c);  // true: reported complete
    struct Raw {
        std::vector<std::vector<int>> ids;
        std::vector<std::vector<std::string>> pieces;
        std::vector<std::string> strings;
    };
    Raw parse_raw(const Call &c, int how);   // how: variant of the entry point
    std::vector<Parsed> interpret(const Raw &raw, const Snapshot &s) const;
    struct RawSnap { std::vector<std::vector<int>> ai; std::vector<std::string> as; std::vector<int> f; };
    RawSnap snap_raw() const;
    Snapshot snap(const RawSnap &r) const;
    Snapshot snap() const { return snap(snap_raw()); }
    void save(const std::string &f) const;
};
std::string read_file(const std::string &f, bool *ok = nullptr);
void write_file(const std::string &f, const std::string &s);
