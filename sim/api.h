// Thin calls into code that lives in headers of /repo (Loader, the Python-facing classes), compiled in a
// translation unit that is instrumented like the rest of /repo.
#pragma once
#include <memory>
#include <string>
#include <vector>
#include <pybind11/pybind11.h>
#include <src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h>
#include <src/main/cpp/interfaces/vgram_builders/int_vgram.h>
#include <src/main/cpp/interfaces/vgram_builders/string_stream_vgram.h>
#include <src/main/cpp/interfaces/vgram_builders/string_vgram.h>
#include <src/main/cpp/interfaces/tokenizers/char_tokenizer.h>
#include <src/main/cpp/interfaces/tokenizers/word_tokenizer.h>

namespace api {
using Ints = std::vector<int>;
using IntSeqs = std::vector<std::vector<int>>;
using Strs = std::vector<std::string>;

vgram_core::IntVGram *new_int_vgram(int size, int iters, int verbose);       // a PyIntVGram
vgram_core::IntVGram *py_fit(vgram_core::IntVGram *m, const IntSeqs &seqs);   // only on objects of new_int_vgram
Strs py_transform(vgram_core::IntVGram *m, const IntSeqs &seqs);              // only on objects of new_int_vgram
vgram_core::StringVGram *new_string_vgram(int size, int iters, int verbose, bool words);
vgram_core::StringVGram *py_fit_text(vgram_core::StringVGram *m, const Strs &seqs);

std::shared_ptr<vgram_core::IntStreamVGram> load_is(const std::string &f);
vgram_core::IntVGram *load_iv(const std::string &f, bool py);
std::shared_ptr<vgram_core::StringStreamVGram> load_ss(const std::string &f);
vgram_core::StringVGram *load_sv(const std::string &f);
}
