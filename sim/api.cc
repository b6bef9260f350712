#include "api.h"
#include <src/main/cpp/interfaces/loader.h>
#include "py_int_vgram_builder.h"
#include "py_vgram_builder.h"

namespace api {
static py::args no_args;

vgram_core::IntVGram *new_int_vgram(int size, int iters, int verbose) { return new PyIntVGram(size, iters, verbose); }
vgram_core::IntVGram *py_fit(vgram_core::IntVGram *m, const IntSeqs &seqs) {
    return static_cast<PyIntVGram *>(m)->fit(seqs, no_args);
}
Strs py_transform(vgram_core::IntVGram *m, const IntSeqs &seqs) {
    return static_cast<PyIntVGram *>(m)->transform_to_string(seqs, no_args);
}
vgram_core::StringVGram *new_string_vgram(int size, int iters, int verbose, bool words) {
    if (words) return new PyStringVGram(size, iters, new vgram_core::WordTokenizer(), verbose);
    return new PyStringVGram(size, iters, verbose);
}
vgram_core::StringVGram *py_fit_text(vgram_core::StringVGram *m, const Strs &seqs) {
    return static_cast<PyStringVGram *>(m)->fit(seqs, no_args);
}
std::shared_ptr<vgram_core::IntStreamVGram> load_is(const std::string &f) {
    return vgram_core::Loader::load_int_stream_vgram(f);
}
vgram_core::IntVGram *load_iv(const std::string &f, bool py) {
    return py ? PyIntVGram::load(f) : vgram_core::Loader::load_int_vgram(f);
}
std::shared_ptr<vgram_core::StringStreamVGram> load_ss(const std::string &f) {
    return vgram_core::Loader::load_string_stream_vgram(f);
}
vgram_core::StringVGram *load_sv(const std::string &f) { return vgram_core::Loader::load_string_vgram(f); }
}
