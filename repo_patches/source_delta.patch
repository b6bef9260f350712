From 6a36d9da23f85017136bb0d434474f2a162c1b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:57 +0000
Subject: [PATCH 01/19] fix: drop the include of word_splitter.h, which is not
 in the repository

---
 .../src/main/cpp/interfaces/vgram_builders/string_stream_vgram.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.h b/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.h
index f5bfc0e..afe42ef 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.h
+++ b/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.h
@@ -7,7 +7,6 @@
 
 #include "../tokenizers/char_tokenizer.h"
 #include "../tokenizers/word_tokenizer.h"
-#include "../word_splitter/word_splitter.h"
 #include "int_stream_vgram.h"
 
 using json = nlohmann::json;
-- 
2.43.0


From b0ad823b3062fcba0574fdaba86df58eafcaad65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:57 +0000
Subject: [PATCH 02/19] fix: find symbols appended to a dictionary in any order
 instead of adding them again

---
 core/src/main/cpp/algorithm/int_dict_p.cc | 20 +++++++++++++++++---
 core/src/main/cpp/algorithm/int_dict_p.h  |  3 +++
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/core/src/main/cpp/algorithm/int_dict_p.cc b/core/src/main/cpp/algorithm/int_dict_p.cc
index 62b4c44..acf5973 100644
--- a/core/src/main/cpp/algorithm/int_dict_p.cc
+++ b/core/src/main/cpp/algorithm/int_dict_p.cc
@@ -29,6 +29,8 @@ IntDictImpl::IntDictImpl(const IntSeq& seqs) {
 IntDictImpl::IntDictImpl(const IntDictImpl& dict) {
     seqs_ = dict.seqs_; // Sanitizer: indirect leak
     parents_ = dict.parents_; // Sanitizer: indirect leak
+    sorted_size_ = dict.sorted_size_;
+    added_symbols_ = dict.added_symbols_;
 }
 
 void IntDictImpl::init(const std::vector<IntSeq>& seqs) {
@@ -36,6 +38,7 @@ void IntDictImpl::init(const std::vector<IntSeq>& seqs) {
     parents_ = IntSeq(seqs_.size(), -1); // Sanitizer: indirect leak
     std::vector<std::pair<IntSeq, int>> parents_stack;
     std::sort(seqs_.begin(), seqs_.end());
+    sorted_size_ = size();
 
     for (int i = 0; i < seqs_.size(); ++i) {
         IntSeq current = seqs_[i];
@@ -101,8 +104,9 @@ double IntDictImpl::weightedParse(const IntSeq& seq, const IntSeq& freqs, double
 }
 
 int IntDictImpl::search(const IntSeq& seq, std::unordered_set<int>* excludes) {
-    int index = static_cast<int>(std::lower_bound(seqs_.begin(), seqs_.end(), seq) - seqs_.begin());
-    if (index >= 0 && index < size() && seqs_[index] == seq) {
+    auto sorted_end = seqs_.begin() + sorted_size_;
+    int index = static_cast<int>(std::lower_bound(seqs_.begin(), sorted_end, seq) - seqs_.begin());
+    if (index >= 0 && index < sorted_size_ && seqs_[index] == seq) {
         if (excludes == nullptr || excludes->count(index) == 0) {
             return index;
         }
@@ -116,10 +120,20 @@ int IntDictImpl::search(const IntSeq& seq, std::unordered_set<int>* excludes) {
         }
         index = parents_[index];
     }
+    auto added = added_symbols_.find(seq[0]);
+    if (added != added_symbols_.end()) {
+        return excludes == nullptr || excludes->count(added->second) == 0 ? added->second : -1;
+    }
     if (excludes == nullptr) {
         int ind = size();
+        parents_.resize(static_cast<size_t>(ind) + 1, -1);
         seqs_.emplace_back(1, seq[0]);
-        parents_.push_back(-1);
+        try {
+            added_symbols_[seq[0]] = ind;
+        } catch (...) {
+            seqs_.pop_back();
+            throw;
+        }
         return ind;
     } else {
         return -1;
diff --git a/core/src/main/cpp/algorithm/int_dict_p.h b/core/src/main/cpp/algorithm/int_dict_p.h
index 6895615..d06e34c 100644
--- a/core/src/main/cpp/algorithm/int_dict_p.h
+++ b/core/src/main/cpp/algorithm/int_dict_p.h
@@ -29,6 +29,9 @@ public:
 private:
     std::vector<IntSeq> seqs_;
     IntSeq parents_;
+    // Symbols met after construction are appended in order of appearance, so only the first sorted_size_ seqs_ are sorted
+    int sorted_size_ = 0;
+    std::unordered_map<int, int> added_symbols_;
 
     void init(const std::vector<IntSeq>& seqs);
     int linearParse(const IntSeq& seq, IntSeq* builder, std::unordered_set<int>* excludes);
-- 
2.43.0


From d02c9862533e62713588e6db3c0ee0f0ac75e2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:50 +0000
Subject: [PATCH 03/19] fix: grow the symbol and the parse frequencies of
 StatDict independently

---
 core/src/main/cpp/algorithm/stat_dict_p.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/core/src/main/cpp/algorithm/stat_dict_p.cc b/core/src/main/cpp/algorithm/stat_dict_p.cc
index 6cdb6ef..9fea5a5 100644
--- a/core/src/main/cpp/algorithm/stat_dict_p.cc
+++ b/core/src/main/cpp/algorithm/stat_dict_p.cc
@@ -34,12 +34,10 @@ StatDictImpl::StatDictImpl(const std::vector<IntSeq>& seqs, double min_prob_resu
 }
 
 void StatDictImpl::update_symbol(int index, int freq) {
-    if (index >= symbol_freqs_.size()) {
-        for (auto i = symbol_freqs_.size(); i < index + 1; i++)
-            symbol_freqs_.push_back(0); // Sanitizer: indirect leak
-        for (auto i = parse_freqs_.size(); i < index + 1; i++)
-            parse_freqs_.push_back(0); // Sanitizer: indirect leak
-    }
+    for (auto i = symbol_freqs_.size(); i < index + 1; i++)
+        symbol_freqs_.push_back(0); // Sanitizer: indirect leak
+    for (auto i = parse_freqs_.size(); i < index + 1; i++)
+        parse_freqs_.push_back(0); // Sanitizer: indirect leak
     symbol_freqs_[index] += freq;
     parse_freqs_[index] += freq;
     power_ += freq;
-- 
2.43.0


From d41636a821cdc46a33e392fd629ce29c09deb2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:50 +0000
Subject: [PATCH 04/19] fix: never leave a code without its symbol when
 SeqCoder runs out of memory

---
 core/src/main/cpp/interfaces/seq_coder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/main/cpp/interfaces/seq_coder.cc b/core/src/main/cpp/interfaces/seq_coder.cc
index eb28550..f602d3f 100644
--- a/core/src/main/cpp/interfaces/seq_coder.cc
+++ b/core/src/main/cpp/interfaces/seq_coder.cc
@@ -19,8 +19,8 @@ std::vector<int> SeqCoder::encode(const std::vector<int>& seq) {
     for (int symbol : seq) {
         if (forward_code_.count(symbol) == 0) {
             int size = static_cast<int>(forward_code_.size());
-            forward_code_[symbol] = size;
             backward_code_[size] = symbol;
+            forward_code_[symbol] = size;
         }
         result.push_back(forward_code_[symbol]);
     }
-- 
2.43.0


From ebaac84303d6f8efb7135249f9ac63534bbadd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:50 +0000
Subject: [PATCH 05/19] fix: give new tokens a free id when the ids of a loaded
 tokenizer have gaps

---
 core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc b/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc
index 258f705..debea61 100644
--- a/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc
+++ b/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc
@@ -33,8 +33,12 @@ vector<int> BaseTokenizer::transform(const string &seq) {
     coded_seq.reserve(tokens.size());
     for (const std::string &symb : tokens) {
         if (forward_coder_.count(symb) == 0) {
-            forward_coder_[symb] = static_cast<int>(forward_coder_.size());
-            backward_coder_[backward_coder_.size()] = symb;
+            int code = static_cast<int>(forward_coder_.size());
+            while (backward_coder_.count(code) > 0 && backward_coder_.at(code) != symb) {
+                code++;
+            }
+            backward_coder_[code] = symb;
+            forward_coder_[symb] = code;
         }
         coded_seq.push_back(forward_coder_.at(symb));
     }
-- 
2.43.0


From 75947337786ae1af1775e0eb0b9c022c22fefe27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:57 +0000
Subject: [PATCH 06/19] fix: keep every symbol and the requested capacity when
 the builder rebuilds its dictionary

The builder mistook the number of v-grams for the number of symbols (and a whole
loaded dictionary for its symbols), so it dropped symbols when size was small,
outgrew size when symbols came late and lost a loaded dictionary on its first rebuild.
---
 .../main/cpp/algorithm/int_vgram_builder_p.cc | 29 ++++++++-----------
 .../main/cpp/algorithm/int_vgram_builder_p.h  |  3 +-
 .../vgram_builders/int_stream_vgram.cc        |  4 +--
 .../interfaces/vgram_builders/int_vgram.cc    |  2 +-
 4 files changed, 16 insertions(+), 22 deletions(-)

diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
index ae1c33f..5fbc5b5 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
@@ -2,6 +2,7 @@
 // Created by akhvorov on 14.08.18.
 //
 
+#include <algorithm>
 #include <numeric>
 #include <iostream>
 #import "int_vgram_builder_p.h"
@@ -9,7 +10,6 @@
 
 IntVGramBuilderImpl::IntVGramBuilderImpl(int size, int verbose) {
     size_ = size;
-    symb_alphabet_ = std::vector<IntSeq>();
     current_ = std::make_shared<StatDictImpl>();
     result_ = nullptr;
     verbose_ = verbose;
@@ -25,13 +25,12 @@ IntVGramBuilderImpl::IntVGramBuilderImpl(const IntSeq &alphabet, int size, int v
 }
 
 IntVGramBuilderImpl::IntVGramBuilderImpl(const IntDict &dict, const IntSeq &freqs,
-                                         const std::vector<IntSeq> &alphabet, double min_probability, int verbose) {
+                                         int size, double min_probability, int verbose) {
     verbose_ = verbose;
-    size_ = dict.size();
+    size_ = size;
     IntSeq freqs_copy(freqs.begin(), freqs.end());
     std::shared_ptr<StatDictImpl> result = std::make_shared<StatDictImpl>(dict.alphabet(), min_probability,
                                                                           &freqs_copy);
-    symb_alphabet_ = alphabet;
     current_ = result;
     result_ = result;
 }
@@ -39,7 +38,6 @@ IntVGramBuilderImpl::IntVGramBuilderImpl(const IntDict &dict, const IntSeq &freq
 void IntVGramBuilderImpl::init(const IntDict &alphabet, int size, int verbose) {
     verbose_ = verbose;
     size_ = size;
-    symb_alphabet_ = alphabet.alphabet();
     current_ = std::make_shared<StatDictImpl>(alphabet.alphabet());
     result_ = nullptr;
 }
@@ -86,7 +84,13 @@ void IntVGramBuilderImpl::update() {
     std::shared_ptr<StatDictImpl> result;
     std::vector<IntSeq> new_dict;
     IntSeq freqs;
-    int alphabet_size = static_cast<int>(symb_alphabet_.size());
+    int alphabet_size = 0;
+    for (int i = 0; i < current_->size(); i++) {
+        if (current_->parent(i) < 0) {
+            alphabet_size++;
+        }
+    }
+    int free_slots = std::max(size_ - alphabet_size, 0);
     if (populate_) {
         if (verbose_ > 0) {
             std::cout << "Size: " << current_->size() << " rate: " << compression_rate <<
@@ -94,26 +98,17 @@ void IntVGramBuilderImpl::update() {
         }
         int slots;
         if (current_->size() * kExtensionFactor < 10)
-            slots = size_ - alphabet_size;
+            slots = free_slots;
         else
             slots = static_cast<int>(current_->size() * kExtensionFactor);
         double min_prob_result = current_->expand(slots, &new_dict, &freqs);
         result = std::make_shared<StatDictImpl>(new_dict, min_prob_result, &freqs);
     } else {
-        double min_prob_result = current_->reduce(size_ - alphabet_size, &new_dict, &freqs);
+        double min_prob_result = current_->reduce(free_slots, &new_dict, &freqs);
         result = std::make_shared<StatDictImpl>(new_dict, min_prob_result, &freqs);
         result_ = result;
     }
     current_ = result;
-    int alpha_accum_num = 0;
-    for (int i = 0; i < current_->size(); i++) {
-        if (current_->parent(i) < 0) {
-            if (alpha_accum_num > alphabet_size) {
-                symb_alphabet_.push_back(current_->get(i));
-            }
-            alpha_accum_num++;
-        }
-    }
     populate_ = !populate_;
 }
 
diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.h b/core/src/main/cpp/algorithm/int_vgram_builder_p.h
index af8e9fd..bb1c8e5 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.h
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.h
@@ -19,7 +19,7 @@ public:
 
     IntVGramBuilderImpl(const IntSeq &alphabet, int size, int verbose = 1);
 
-    IntVGramBuilderImpl(const IntDict &dict, const IntSeq &freqs, const std::vector<IntSeq> &alphabet,
+    IntVGramBuilderImpl(const IntDict &dict, const IntSeq &freqs, int size,
                         double min_probability, int verbose = 1);
 
     std::shared_ptr<IntDict> result() const override;
@@ -36,7 +36,6 @@ public:
 
 private:
     int size_;
-    std::vector<IntSeq> symb_alphabet_;
     std::shared_ptr<StatDictImpl> current_;
     std::shared_ptr<StatDictImpl> result_;
     bool populate_ = true;
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index 4ed43ab..6453913 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -16,7 +16,7 @@ IntStreamVGram::IntStreamVGram(int size)
         : IntStreamVGram(size, 1) {}
 
 IntStreamVGram::IntStreamVGram(int size, int verbose = 1) {
-    builder_ = std::shared_ptr<IntVGramBuilder>(new IntVGramBuilderImpl(size - 1, verbose));
+    builder_ = std::shared_ptr<IntVGramBuilder>(new IntVGramBuilderImpl(size, verbose));
     size_ = size;
     dict_ = nullptr;
     coder_ = std::make_shared<SeqCoder>();
@@ -92,6 +92,6 @@ IntStreamVGram::IntStreamVGram(const std::shared_ptr<SeqCoder> coder, const IntS
     dict_ = std::make_shared<IntDictImpl>(alphabet);
 //    std::cout << "dict_ inited" << std::endl;
 //    std::cout << "Size " << dict_->size() << "!" << std::endl;
-    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs, alphabet, min_probability, 1);
+    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs, size, min_probability, 1);
 //    std::cout << "out ctor" << std::endl;
 }
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index 2ec120c..714a82c 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -126,7 +126,7 @@ IntVGram::IntVGram(std::shared_ptr<SeqCoder> coder, const IntSeq &freqs,
     total_freqs_ = std::accumulate(freqs.begin(), freqs.end(), 0);
     coder_ = coder; //TODO: check it
     dict_ = std::make_shared<IntDictImpl>(alphabet);
-    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs, alphabet, min_probability, 1);
+    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs, size, min_probability, 1);
     fitted_ = fitted;
     freqs_computed_ = freqs_computed;
     iter_num_ = 0;
-- 
2.43.0


From ff30a9d4dcd7f0136aaaaa3fa6b7794fdac6ba3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:57 +0000
Subject: [PATCH 07/19] fix: train normally after loading a model saved before
 its first result

---
 core/src/main/cpp/algorithm/int_vgram_builder_p.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
index 5fbc5b5..e8ab260 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
@@ -29,6 +29,9 @@ IntVGramBuilderImpl::IntVGramBuilderImpl(const IntDict &dict, const IntSeq &freq
     verbose_ = verbose;
     size_ = size;
     IntSeq freqs_copy(freqs.begin(), freqs.end());
+    if (min_probability <= 0) { // saved before the first result, when there is no minimal probability
+        min_probability = StatDictImpl::kMaxMinProbability;
+    }
     std::shared_ptr<StatDictImpl> result = std::make_shared<StatDictImpl>(dict.alphabet(), min_probability,
                                                                           &freqs_copy);
     current_ = result;
-- 
2.43.0


From 56864554bc751a08a6c9c340c5578941e0af6a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 08/19] fix: publish a consistent copy of the learned
 dictionary in update_dict

The published dictionary was the builder's own, which kept changing under accept
and parse while the frequencies did not (out-of-bounds reads in save), was null
before the first update, and its frequencies were appended to at every update.
---
 .../vgram_builders/int_stream_vgram.cc        | 52 ++++++++++++-------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index 6453913..264d6dd 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -4,6 +4,8 @@
 
 #include <algorithm>
 #include <iomanip>
+#include <map>
+#include <numeric>
 #include <utility>
 #include "../../algorithm/int_dict_p.h"
 #include "../../algorithm/int_vgram_builder_p.h"
@@ -18,10 +20,11 @@ IntStreamVGram::IntStreamVGram(int size)
 IntStreamVGram::IntStreamVGram(int size, int verbose = 1) {
     builder_ = std::shared_ptr<IntVGramBuilder>(new IntVGramBuilderImpl(size, verbose));
     size_ = size;
-    dict_ = nullptr;
+    dict_ = std::make_shared<IntDictImpl>();
     coder_ = std::make_shared<SeqCoder>();
     freqs_ = IntSeq();
     total_freqs_ = 0;
+    min_probability_ = builder_->get_min_probability();
     verbose_ = verbose;
 }
 
@@ -30,30 +33,40 @@ void IntStreamVGram::accept(const IntSeq &seq) {
 }
 
 IntSeq IntStreamVGram::parse(const IntSeq &seq) const {
-//    std::cout << "in parse" << std::endl;
+    IntSeq known;
+    std::unordered_set<int> no_excludes; // looked up this way, a symbol the dictionary lacks is not added to it
+    for (int code : coder_->encode_immutable(seq)) {
+        if (dict_->search(IntSeq(1, code), &no_excludes) >= 0) {
+            known.push_back(code);
+        }
+    }
     IntSeq result;
-//    if (dict_) {
-//        std::cout << "dict is true" << std::endl;
-//    }
-//    std::cout << "after if" << std::endl;
-    coder_->encode_immutable(seq);
-//    std::cout << "before coder call" << std::endl;
-    builder_->alpha();
-//    std::cout << "before builder call" << std::endl;
-//    std::cout << "Size " << dict_->size() << "!" << std::endl;
-//    std::cout << "before parse" << std::endl;
-    dict_->parse(coder_->encode_immutable(seq), freqs_, total_freqs_, &result);
-//    std::cout << "out parse" << std::endl;
+    dict_->parse(known, freqs_, total_freqs_, &result);
     return result;
 }
 
 void IntStreamVGram::update_dict() {
-    if (dict_ != builder_->result()) {
-        dict_ = builder_->result();
-        builder_->result_freqs(&freqs_);
-        total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
-        min_probability_ = builder_->get_min_probability();
+    // the builder goes on changing its own dictionary, so publish a copy with a frequency for every entry
+    IntSeq builder_freqs;
+    builder_->result_freqs(&builder_freqs);
+    const std::vector<IntSeq> &builder_alphabet = builder_->result()->alphabet();
+    std::map<IntSeq, int> entries;
+    for (int i = 0; i < builder_alphabet.size(); i++) {
+        entries[builder_alphabet[i]] = builder_freqs[i];
+    }
+    for (const auto &symbol_code : coder_->code_map()) {
+        entries.emplace(IntSeq(1, symbol_code.second), 0);
     }
+    std::vector<IntSeq> alphabet;
+    IntSeq freqs;
+    for (const auto &entry : entries) {
+        alphabet.push_back(entry.first);
+        freqs.push_back(entry.second);
+    }
+    dict_ = std::make_shared<IntDictImpl>(alphabet);
+    freqs_.swap(freqs);
+    total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
+    min_probability_ = builder_->get_min_probability();
 }
 
 std::vector<IntSeq> IntStreamVGram::alphabet() const {
@@ -85,6 +98,7 @@ IntStreamVGram::IntStreamVGram(const std::shared_ptr<SeqCoder> coder, const IntS
                                                  double min_probability) {
 //    std::cout << "in ctor" << std::endl;
     size_ = size;
+    verbose_ = 1;
     min_probability_ = min_probability;
     freqs_ = freqs;
     total_freqs_ = std::accumulate(freqs.begin(), freqs.end(), 0);
-- 
2.43.0


From 7664f895cb12aad7a09b0c255b4d8e6f2e4cce89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 09/19] fix: count the frequencies of a whole corpus in fit,
 and only report a completed count

---
 .../interfaces/vgram_builders/int_vgram.cc    | 30 ++++++++++---------
 .../cpp/interfaces/vgram_builders/int_vgram.h |  2 +-
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index 714a82c..29e6aba 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -30,9 +30,8 @@ IntVGram *IntVGram::fit(const std::vector<IntSeq> &seqs/*, const std::string &fi
         if (freqs_computed_) {
             return this;
         }
-        recompute_freqs(seqs);
-        freqs_computed_ = true;
-        return this;
+        freqs_computed_ = recompute_freqs(seqs);
+        return freqs_computed_ ? this : nullptr;
     }
     for (int i = 0; i < iter_num_; i++) {
         if (verbose_ > 0) {
@@ -51,32 +50,35 @@ IntVGram *IntVGram::fit(const std::vector<IntSeq> &seqs/*, const std::string &fi
 //        }
     }
     fitted_ = true;
-    recompute_freqs(seqs);
-    freqs_computed_ = true;
-    return this;
+    freqs_computed_ = recompute_freqs(seqs);
+    return freqs_computed_ ? this : nullptr;
 }
 
-void IntVGram::recompute_freqs(const std::vector<IntSeq> &seqs) {
+bool IntVGram::recompute_freqs(const std::vector<IntSeq> &seqs) {
     if (verbose_ > 0) {
         std::cout << "recompute freqs" << std::endl;
     }
-    IntSeq freqs;
-    builder_->result_freqs(&freqs);
-    freqs_ = IntSeq(freqs.size(), 0);
-    int total_freqs = std::accumulate(freqs.begin(), freqs.end(), 0);
+    // not every sequence has been sampled: let the dictionary know their symbols too
+    for (const IntSeq &seq : seqs) {
+        coder_->encode(seq);
+    }
+    update_dict();
+    IntSeq freqs(freqs_.size(), 0);
     for (const IntSeq &seq : seqs) {
         IntSeq result;
-        dict_->parse(coder_->encode(seq), freqs, total_freqs, &result);
+        dict_->parse(coder_->encode(seq), freqs_, total_freqs_, &result);
         for (int symb : result) {
             if (symb >= 0) {
-                freqs_[symb]++;
+                freqs[symb]++;
             }
         }
         if (isTerminated()) {
-            return;
+            return false;
         }
     }
+    freqs_.swap(freqs);
     total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
+    return true;
 }
 
 std::vector<std::string> IntVGram::transform_to_string(const std::vector<IntSeq> &seqs) const {
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
index d60794d..133b6df 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
@@ -37,7 +37,7 @@ namespace vgram_core {
         bool fitted_ = false;
         bool freqs_computed_ = false;
 
-        void recompute_freqs(const std::vector<IntSeq> &seqs);
+        bool recompute_freqs(const std::vector<IntSeq> &seqs);
 
         virtual bool isTerminated() const;
     };
-- 
2.43.0


From 683577878fc619ac46f24260afa2ad6dfa361a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 10/19] fix: save the number of iterations, so that an unfitted
 model can be fitted after loading

---
 core/src/main/cpp/interfaces/loader.h                    | 9 ++++++---
 core/src/main/cpp/interfaces/saver.h                     | 1 +
 core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc | 4 ++--
 core/src/main/cpp/interfaces/vgram_builders/int_vgram.h  | 2 +-
 4 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/core/src/main/cpp/interfaces/loader.h b/core/src/main/cpp/interfaces/loader.h
index 091127d..4ee2d85 100644
--- a/core/src/main/cpp/interfaces/loader.h
+++ b/core/src/main/cpp/interfaces/loader.h
@@ -27,10 +27,12 @@ namespace vgram_core {
             IntSeq freqs;
             std::vector<IntSeq> alphabet;
             bool fitted, freqs_computed;
-            read_fitable_dict(filename, coder, freqs, alphabet, size, min_probability, fitted, freqs_computed);
+            int iter_num;
+            read_fitable_dict(filename, coder, freqs, alphabet, size, min_probability, fitted, freqs_computed,
+                              iter_num);
 //            return std::shared_ptr<IntVGram>(
 //                    new IntVGram(coder, freqs, alphabet, size, min_probability, fitted, freqs_computed));
-            return new IntVGram(coder, freqs, alphabet, size, min_probability, fitted, freqs_computed);
+            return new IntVGram(coder, freqs, alphabet, size, min_probability, fitted, freqs_computed, iter_num);
         }
 
         static std::shared_ptr<StringStreamVGram> load_string_stream_vgram(const std::string &filename) {
@@ -49,10 +51,11 @@ namespace vgram_core {
     private:
         static json read_fitable_dict(const std::string &filename, const std::shared_ptr<SeqCoder> &coder,
                                       IntSeq &freqs, std::vector<IntSeq> &alphabet, int &size, double &min_probability,
-                                      bool &fitted, bool &freqs_computed) {
+                                      bool &fitted, bool &freqs_computed, int &iter_num) {
             json dict = read_dict(filename, coder, freqs, alphabet, size, min_probability);
             fitted = dict["fitted"].get<bool>();
             freqs_computed = dict["freqs_computed"].get<bool>();
+            iter_num = dict.value("iter_num", 0);
             return dict;
         }
 
diff --git a/core/src/main/cpp/interfaces/saver.h b/core/src/main/cpp/interfaces/saver.h
index 6e8ef9d..c2eb31c 100644
--- a/core/src/main/cpp/interfaces/saver.h
+++ b/core/src/main/cpp/interfaces/saver.h
@@ -57,6 +57,7 @@ namespace vgram_core {
         static void add_fitted_info(json &dict, const vgram_core::IntVGram *int_vgram) {
             dict["fitted"] = int_vgram->fitted_;
             dict["freqs_computed"] = int_vgram->freqs_computed_;
+            dict["iter_num"] = int_vgram->iter_num_;
         }
 
         static json coder_to_json(const std::shared_ptr<vgram_core::SeqCoder> &coder) {
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index 29e6aba..cb61f8d 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -120,7 +120,7 @@ bool IntVGram::isTerminated() const {
 
 IntVGram::IntVGram(std::shared_ptr<SeqCoder> coder, const IntSeq &freqs,
                    const std::vector<IntSeq> &alphabet, int size, double min_probability,
-                   bool fitted, bool freqs_computed)
+                   bool fitted, bool freqs_computed, int iter_num)
         : IntStreamVGram(size) {
     size_ = size;
     min_probability_ = min_probability;
@@ -131,5 +131,5 @@ IntVGram::IntVGram(std::shared_ptr<SeqCoder> coder, const IntSeq &freqs,
     builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs, size, min_probability, 1);
     fitted_ = fitted;
     freqs_computed_ = freqs_computed;
-    iter_num_ = 0;
+    iter_num_ = iter_num;
 }
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
index 133b6df..ca009e1 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
@@ -22,7 +22,7 @@ namespace vgram_core {
         IntVGram(int size, int iter_num, int verbose);
 
         IntVGram(std::shared_ptr<SeqCoder> coder, const IntSeq &freqs, const std::vector<IntSeq> &alphabet,
-                 int size, double min_probability, bool fitted, bool freqs_computed);
+                 int size, double min_probability, bool fitted, bool freqs_computed, int iter_num = 0);
 
         virtual ~IntVGram() = default;
 
-- 
2.43.0


From 72007bbb999c491b5f738dbed3c8c495f3033d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 11/19] fix: report a failure to write the file of a model

---
 core/src/main/cpp/interfaces/saver.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/main/cpp/interfaces/saver.h b/core/src/main/cpp/interfaces/saver.h
index c2eb31c..7fe732c 100644
--- a/core/src/main/cpp/interfaces/saver.h
+++ b/core/src/main/cpp/interfaces/saver.h
@@ -7,6 +7,7 @@
 
 #include <fstream>
 #include <iomanip>
+#include <stdexcept>
 #include "vgram_builders/string_vgram.h"
 
 namespace vgram_core {
@@ -43,7 +44,9 @@ namespace vgram_core {
             std::ofstream file(filename);
             file << std::setw(2) << dict << std::endl;
             file.close();
-
+            if (!file) {
+                throw std::runtime_error("can't write to file " + filename);
+            }
         }
 
         static void add_base_info(json &dict, const vgram_core::IntStreamVGram *int_stream_vgram,
-- 
2.43.0


From 84f68d07ad5d6997213d34fa67023deffd8b3697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 12/19] fix: do not change the tokenizer when a model
 transforms or parses a text

---
 .../main/cpp/interfaces/tokenizers/base_tokenizer.cc  | 11 +++++++++++
 .../main/cpp/interfaces/tokenizers/base_tokenizer.h   |  2 ++
 .../interfaces/vgram_builders/string_stream_vgram.cc  |  2 +-
 .../cpp/interfaces/vgram_builders/string_vgram.cc     |  7 ++++++-
 4 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc b/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc
index debea61..b1af1dd 100644
--- a/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc
+++ b/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc
@@ -45,6 +45,17 @@ vector<int> BaseTokenizer::transform(const string &seq) {
     return coded_seq;
 }
 
+vector<int> BaseTokenizer::transform_known(const string &seq) const {
+    vector<int> coded_seq;
+    for (const string &symb : tokenize(normalize(seq))) {
+        auto code = forward_coder_.find(symb);
+        if (code != forward_coder_.end()) {
+            coded_seq.push_back(code->second);
+        }
+    }
+    return coded_seq;
+}
+
 string BaseTokenizer::normalize(const string &str) const {
     return str;
 }
diff --git a/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.h b/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.h
index 2bdda96..2f247f0 100644
--- a/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.h
+++ b/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.h
@@ -24,6 +24,8 @@ namespace vgram_core {
 
         std::vector<int> transform(const std::string &seq);
 
+        std::vector<int> transform_known(const std::string &seq) const;
+
         std::vector<std::string> decode(const std::vector<std::vector<int>> &seqs) const;
 
         std::string decode(const std::vector<int> &seq) const;
diff --git a/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.cc
index 5de5ba4..d81842d 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.cc
@@ -40,7 +40,7 @@ void StringStreamVGram::accept(const string &seq) {
 }
 
 vector<string> StringStreamVGram::parse(const string &seq) const {
-    IntSeq intSeq = tokenizer_->transform(seq);
+    IntSeq intSeq = tokenizer_->transform_known(seq);
     IntSeq tokens_ids = stream_builder_->parse(intSeq);
     vector<string> token_words;
     for (int token_id : tokens_ids) {
diff --git a/core/src/main/cpp/interfaces/vgram_builders/string_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/string_vgram.cc
index 1076e07..4b91037 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/string_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/string_vgram.cc
@@ -28,7 +28,12 @@ StringVGram *StringVGram::fit(const std::vector<std::string> &seqs) {
 }
 
 std::vector<std::string> StringVGram::transform(const std::vector<std::string> &seqs) const {
-    std::vector<IntSeq> coded_texts_by_token_ids = int_builder_->transform(tokenizer_->transform(seqs));
+    std::vector<IntSeq> known_tokens;
+    known_tokens.reserve(seqs.size());
+    for (const std::string &seq : seqs) {
+        known_tokens.push_back(tokenizer_->transform_known(seq));
+    }
+    std::vector<IntSeq> coded_texts_by_token_ids = int_builder_->transform(known_tokens);
     std::vector<std::string> decoded_texts;
     std::vector<IntSeq> alphabet = int_builder_->alphabet();
     for (const IntSeq &coded_text_by_token_ids : coded_texts_by_token_ids) {
-- 
2.43.0


From 0761332ea54c48cfcfb35e3469bae9e56e52b9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 13/19] fix: load a model of words with the tokenizer of words

---
 core/src/main/cpp/interfaces/loader.h | 7 +++++--
 core/src/main/cpp/interfaces/saver.h  | 3 +++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/interfaces/loader.h b/core/src/main/cpp/interfaces/loader.h
index 4ee2d85..3c39723 100644
--- a/core/src/main/cpp/interfaces/loader.h
+++ b/core/src/main/cpp/interfaces/loader.h
@@ -38,7 +38,8 @@ namespace vgram_core {
         static std::shared_ptr<StringStreamVGram> load_string_stream_vgram(const std::string &filename) {
             std::shared_ptr<IntStreamVGram> stream_builder = load_int_stream_vgram(filename);
             std::shared_ptr<BaseTokenizer> tokenizer = load_tokenizer(filename, stream_builder->get_coder());
-            return std::make_shared<StringStreamVGram>(stream_builder, tokenizer);
+            bool words_are_tokens = std::dynamic_pointer_cast<WordTokenizer>(tokenizer) != nullptr;
+            return std::make_shared<StringStreamVGram>(stream_builder, tokenizer, false, words_are_tokens);
         }
 
         static StringVGram *load_string_vgram(const std::string &filename) {
@@ -105,7 +106,9 @@ namespace vgram_core {
                     forward_map[key] = vec[0];
                 }
             }
-            //TODO chose tokenizer
+            if (dict.value("words_are_tokens", false)) {
+                return std::make_shared<WordTokenizer>(forward_map);
+            }
             return std::make_shared<CharTokenizer>(forward_map);
         }
     };
diff --git a/core/src/main/cpp/interfaces/saver.h b/core/src/main/cpp/interfaces/saver.h
index 7fe732c..4f9c315 100644
--- a/core/src/main/cpp/interfaces/saver.h
+++ b/core/src/main/cpp/interfaces/saver.h
@@ -55,6 +55,9 @@ namespace vgram_core {
             dict["min_prob"] = int_stream_vgram->min_probability_;
             dict["coder"] = coder_to_json(int_stream_vgram->get_coder());
             dict["alphabet"] = alphabet_to_json(int_stream_vgram, tokenizer);
+            if (std::dynamic_pointer_cast<WordTokenizer>(tokenizer) != nullptr) {
+                dict["words_are_tokens"] = true;
+            }
         }
 
         static void add_fitted_info(json &dict, const vgram_core::IntVGram *int_vgram) {
-- 
2.43.0


From bb8cac21a16cc5871ffa860260e947bb44e41f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:39 +0000
Subject: [PATCH 14/19] fix: save an IntVGram with the fields it needs to be
 loaded again

---
 core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc | 5 +++++
 core/src/main/cpp/interfaces/vgram_builders/int_vgram.h  | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index cb61f8d..e5bc9b3 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -14,6 +14,7 @@
 #include <int_vgram_builder_p.h>
 #include <int_dict_p.h>
 #include "int_vgram.h"
+#include "../saver.h"
 
 using namespace vgram_core;
 
@@ -114,6 +115,10 @@ std::vector<IntSeq> IntVGram::transform(const std::vector<IntSeq> &seqs) const {
     return res;
 }
 
+void IntVGram::save(const std::string &filename, std::shared_ptr<BaseTokenizer> tokenizer) const {
+    Saver::save(this, filename);
+}
+
 bool IntVGram::isTerminated() const {
     return false;
 }
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
index ca009e1..06bf40e 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
@@ -32,6 +32,8 @@ namespace vgram_core {
 
         std::vector<IntSeq> transform(const std::vector<IntSeq> &seqs) const;
 
+        void save(const std::string &filename, std::shared_ptr<BaseTokenizer> tokenizer = nullptr) const;
+
     protected:
         int iter_num_;
         bool fitted_ = false;
-- 
2.43.0


From 3370dc2240f3b93ff95efd2bb5405ca64c2bf8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:57 +0000
Subject: [PATCH 15/19] fix: save the tokens a text model knows but has not
 published yet

---
 core/src/main/cpp/interfaces/loader.h |  5 +++++
 core/src/main/cpp/interfaces/saver.h  | 12 ++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/core/src/main/cpp/interfaces/loader.h b/core/src/main/cpp/interfaces/loader.h
index 3c39723..cacc811 100644
--- a/core/src/main/cpp/interfaces/loader.h
+++ b/core/src/main/cpp/interfaces/loader.h
@@ -106,6 +106,11 @@ namespace vgram_core {
                     forward_map[key] = vec[0];
                 }
             }
+            if (dict.count("tokens") > 0) {
+                for (int i = 0; i < dict["tokens"].size(); i++) {
+                    forward_map[dict["tokens"][i].get<std::string>()] = dict["coder"][i].get<int>();
+                }
+            }
             if (dict.value("words_are_tokens", false)) {
                 return std::make_shared<WordTokenizer>(forward_map);
             }
diff --git a/core/src/main/cpp/interfaces/saver.h b/core/src/main/cpp/interfaces/saver.h
index 4f9c315..87ae60c 100644
--- a/core/src/main/cpp/interfaces/saver.h
+++ b/core/src/main/cpp/interfaces/saver.h
@@ -58,6 +58,18 @@ namespace vgram_core {
             if (std::dynamic_pointer_cast<WordTokenizer>(tokenizer) != nullptr) {
                 dict["words_are_tokens"] = true;
             }
+            if (tokenizer != nullptr) {
+                dict["tokens"] = tokens_to_json(dict["coder"], tokenizer);
+            }
+        }
+
+        // the tokens the coder knows, in its order: some of them may not be in the alphabet yet
+        static json tokens_to_json(const json &coder, const std::shared_ptr<vgram_core::BaseTokenizer> &tokenizer) {
+            json tokens = json::array();
+            for (const auto &id : coder) {
+                tokens.push_back(tokenizer->decode(std::vector<int>(1, id.get<int>())));
+            }
+            return tokens;
         }
 
         static void add_fitted_info(json &dict, const vgram_core::IntVGram *int_vgram) {
-- 
2.43.0


From 676391fee174ed4d892fa5761bbb2895f33090ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:24 +0000
Subject: [PATCH 16/19] fix: build the JSON of a model so that it survives
 running out of memory

---
 core/src/main/cpp/interfaces/saver.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/core/src/main/cpp/interfaces/saver.h b/core/src/main/cpp/interfaces/saver.h
index 87ae60c..2ad97df 100644
--- a/core/src/main/cpp/interfaces/saver.h
+++ b/core/src/main/cpp/interfaces/saver.h
@@ -14,26 +14,26 @@ namespace vgram_core {
     class Saver {
     public:
         static void save(const vgram_core::IntStreamVGram *int_stream_vgram, const std::string &filename) {
-            json dict;
+            json dict = json::object();
             add_base_info(dict, int_stream_vgram, nullptr);
             write_to_file(dict, filename);
         }
 
         static void save(const vgram_core::IntVGram *int_vgram, const std::string &filename) {
-            json dict;
+            json dict = json::object();
             add_base_info(dict, int_vgram, nullptr);
             add_fitted_info(dict, int_vgram);
             write_to_file(dict, filename);
         }
 
         static void save(const vgram_core::StringStreamVGram *string_stream_vgram, const std::string &filename) {
-            json dict;
+            json dict = json::object();
             add_base_info(dict, string_stream_vgram->stream_builder_.get(), string_stream_vgram->tokenizer_);
             write_to_file(dict, filename);
         }
 
         static void save(const vgram_core::StringVGram *string_vgram, const std::string &filename) {
-            json dict;
+            json dict = json::object();
             add_base_info(dict, string_vgram->int_builder_.get(), string_vgram->tokenizer_);
             add_fitted_info(dict, string_vgram->int_builder_.get());
             write_to_file(dict, filename);
@@ -82,7 +82,7 @@ namespace vgram_core {
             std::vector<std::pair<int, int>> pairs(coder->code_map().begin(), coder->code_map().end());
             std::sort(pairs.begin(), pairs.end(),
                       [](const std::pair<int, int> &a, const std::pair<int, int> &b) { return a.second < b.second; });
-            json coder_obj;
+            json coder_obj = json::array();
             for (const auto &p : pairs) {
                 coder_obj.push_back(p.first);
             }
@@ -91,11 +91,11 @@ namespace vgram_core {
 
         static json alphabet_to_json(const vgram_core::IntStreamVGram *int_stream_vgram,
                                      const std::shared_ptr<vgram_core::BaseTokenizer> &tokenizer) {
-            json alpha;
+            json alpha = json::array();
             const IntSeq &freqs = int_stream_vgram->freqs();
             auto &dict = int_stream_vgram->dict_;
             for (int i = 0; i < dict->size(); i++) {
-                json word_obj;
+                json word_obj = json::object();
                 word_obj["vec"] = json(dict->get(i));
                 word_obj["freq"] = freqs[i];
                 if (tokenizer != nullptr) {
-- 
2.43.0


From 68772194de062c703f2ea44a70e1eaacd3a5c8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:15 +0000
Subject: [PATCH 17/19] fix: sum the frequencies of a model without overflow

---
 .../main/cpp/interfaces/vgram_builders/int_stream_vgram.cc    | 4 ++--
 .../src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h | 2 +-
 core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc      | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index 264d6dd..9fad834 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -65,7 +65,7 @@ void IntStreamVGram::update_dict() {
     }
     dict_ = std::make_shared<IntDictImpl>(alphabet);
     freqs_.swap(freqs);
-    total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
+    total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0.0);
     min_probability_ = builder_->get_min_probability();
 }
 
@@ -101,7 +101,7 @@ IntStreamVGram::IntStreamVGram(const std::shared_ptr<SeqCoder> coder, const IntS
     verbose_ = 1;
     min_probability_ = min_probability;
     freqs_ = freqs;
-    total_freqs_ = std::accumulate(freqs.begin(), freqs.end(), 0);
+    total_freqs_ = std::accumulate(freqs.begin(), freqs.end(), 0.0);
     coder_ = coder;
     dict_ = std::make_shared<IntDictImpl>(alphabet);
 //    std::cout << "dict_ inited" << std::endl;
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h
index 2e79dac..60674f0 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h
@@ -50,7 +50,7 @@ namespace vgram_core {
         std::shared_ptr<IntDict> dict_;
         std::shared_ptr<SeqCoder> coder_;
         IntSeq freqs_;
-        int total_freqs_;
+        double total_freqs_;
         double min_probability_;
         int verbose_;
     };
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index e5bc9b3..4b094b8 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -78,7 +78,7 @@ bool IntVGram::recompute_freqs(const std::vector<IntSeq> &seqs) {
         }
     }
     freqs_.swap(freqs);
-    total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
+    total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0.0);
     return true;
 }
 
@@ -130,7 +130,7 @@ IntVGram::IntVGram(std::shared_ptr<SeqCoder> coder, const IntSeq &freqs,
     size_ = size;
     min_probability_ = min_probability;
     freqs_ = freqs;
-    total_freqs_ = std::accumulate(freqs.begin(), freqs.end(), 0);
+    total_freqs_ = std::accumulate(freqs.begin(), freqs.end(), 0.0);
     coder_ = coder; //TODO: check it
     dict_ = std::make_shared<IntDictImpl>(alphabet);
     builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs, size, min_probability, 1);
-- 
2.43.0


From c74e86bddba472ee9bb810d078963faed4579236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:37 +0000
Subject: [PATCH 18/19] fix: reject a file that lacks a member of a model

---
 core/src/main/cpp/interfaces/loader.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/core/src/main/cpp/interfaces/loader.h b/core/src/main/cpp/interfaces/loader.h
index cacc811..34abebc 100644
--- a/core/src/main/cpp/interfaces/loader.h
+++ b/core/src/main/cpp/interfaces/loader.h
@@ -54,8 +54,8 @@ namespace vgram_core {
                                       IntSeq &freqs, std::vector<IntSeq> &alphabet, int &size, double &min_probability,
                                       bool &fitted, bool &freqs_computed, int &iter_num) {
             json dict = read_dict(filename, coder, freqs, alphabet, size, min_probability);
-            fitted = dict["fitted"].get<bool>();
-            freqs_computed = dict["freqs_computed"].get<bool>();
+            fitted = dict.at("fitted").get<bool>();
+            freqs_computed = dict.at("freqs_computed").get<bool>();
             iter_num = dict.value("iter_num", 0);
             return dict;
         }
@@ -64,8 +64,8 @@ namespace vgram_core {
                               std::vector<IntSeq> &alphabet, int &size, double &min_probability) {
 //        std::cout << "in read_dict" << std::endl;
             json dict = read_dict_json(filename);
-            size = dict["size"];
-            min_probability = dict["min_prob"];
+            size = dict.at("size");
+            min_probability = dict.at("min_prob");
 //        std::cout << "first loop" << std::endl;
             read_coder(dict, coder);
 //        std::cout << "between" << std::endl;
@@ -83,15 +83,15 @@ namespace vgram_core {
         }
 
         static void read_coder(json &dict, const std::shared_ptr<SeqCoder> &coder) {
-            for (int n : dict["coder"]) {
+            for (int n : dict.at("coder")) {
                 coder->encode(std::vector<int>(1, n));
             }
         }
 
         static void read_alphabet(json &dict, IntSeq &freqs, std::vector<IntSeq> &alphabet) {
-            for (const auto &word_obj : dict["alphabet"]) {
-                freqs.push_back(word_obj["freq"].get<int>());
-                alphabet.push_back(word_obj["vec"].get<IntSeq>());
+            for (const auto &word_obj : dict.at("alphabet")) {
+                freqs.push_back(word_obj.at("freq").get<int>());
+                alphabet.push_back(word_obj.at("vec").get<IntSeq>());
             }
         }
 
@@ -99,16 +99,16 @@ namespace vgram_core {
                                                              const std::shared_ptr<SeqCoder> &coder) {
             json dict = read_dict_json(filename);
             std::unordered_map<std::string, int> forward_map;
-            for (const auto &word_obj : dict["alphabet"]) {
-                const std::vector<int> vec = coder->decode(word_obj["vec"].get<IntSeq>());
+            for (const auto &word_obj : dict.at("alphabet")) {
+                const std::vector<int> vec = coder->decode(word_obj.at("vec").get<IntSeq>());
                 if (vec.size() == 1) {
-                    std::string key = word_obj["text"].get<std::string>();
+                    std::string key = word_obj.at("text").get<std::string>();
                     forward_map[key] = vec[0];
                 }
             }
             if (dict.count("tokens") > 0) {
                 for (int i = 0; i < dict["tokens"].size(); i++) {
-                    forward_map[dict["tokens"][i].get<std::string>()] = dict["coder"][i].get<int>();
+                    forward_map[dict["tokens"][i].get<std::string>()] = dict["coder"].at(i).get<int>();
                 }
             }
             if (dict.value("words_are_tokens", false)) {
-- 
2.43.0


From 9ceb2e194354774e2f31e57d360e33ae9a540643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:37 +0000
Subject: [PATCH 19/19] fix: let a model that Python code loaded be interrupted

---
 binding/src/main/cpp/py_int_vgram_builder.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/binding/src/main/cpp/py_int_vgram_builder.h b/binding/src/main/cpp/py_int_vgram_builder.h
index 73ba08a..2fe0f4a 100644
--- a/binding/src/main/cpp/py_int_vgram_builder.h
+++ b/binding/src/main/cpp/py_int_vgram_builder.h
@@ -5,6 +5,7 @@
 #ifndef DICT_EXPANSION_VGRAM_H
 #define DICT_EXPANSION_VGRAM_H
 
+#include <memory>
 #include <pybind11/pybind11.h>
 #include <src/main/cpp/interfaces/vgram_builders/int_vgram.h>
 #include <src/main/cpp/interfaces/loader.h>
@@ -14,9 +15,13 @@ namespace py = pybind11;
 class PyIntVGram : public vgram_core::IntVGram {
 public:
     static PyIntVGram *load(const std::string &filename) {
-        return static_cast<PyIntVGram*>(vgram_core::Loader::load_int_vgram(filename));
+        std::unique_ptr<vgram_core::IntVGram> model(vgram_core::Loader::load_int_vgram(filename));
+        return new PyIntVGram(*model);
     }
 
+    // a model loaded from a file has to check for signals too
+    explicit PyIntVGram(const vgram_core::IntVGram &model) : vgram_core::IntVGram(model) {}
+
     PyIntVGram(int size, int iter_num) : vgram_core::IntVGram(size, iter_num) {}
 
     PyIntVGram(int size, int iter_num, int verbose) : vgram_core::IntVGram(size, iter_num, verbose) {}
-- 
2.43.0

