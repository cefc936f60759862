From 3256d6aa36d816c9e6f89afb912b7ad891538b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:44 +0000
Subject: [PATCH 01/64] fix: match every plane inside a charset range of a 24
 bit lexer

A range that spans more than two planes (e.g. [\x1f600-\x30000]) inserted
the planes in between using the middle bytes of its ends instead of the most
significant ones.
---
 include/lexertl/parser/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexertl/parser/parser.hpp b/include/lexertl/parser/parser.hpp
index 127f0e9..ded1a8e 100644
--- a/include/lexertl/parser/parser.hpp
+++ b/include/lexertl/parser/parser.hpp
@@ -558,7 +558,7 @@ namespace lexertl::detail
 
                 if (second_msb_ > first_msb_ + 1)
                 {
-                    insert_range(first_mid_ + 1, second_mid_ - 1,
+                    insert_range(first_msb_ + 1, second_msb_ - 1,
                         0, 0xff,
                         0, 0xff, data_);
                 }
-- 
2.43.0


From 01d0392f3c386b2b7e32af39650cd446836f5536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 02/64] fix: fold partial ranges of alternating case pairs the
 right way round

---
 .../parser/tokeniser/re_tokeniser_helper.hpp     | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
index c6b9b77..aebe7dd 100644
--- a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
+++ b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
@@ -267,14 +267,14 @@ namespace lexertl::detail
                     }
                     else
                     {
-                        const index_type first_ = ptr_->to.second +
+                        // Descending: the highest char maps to the lowest
+                        const index_type second_ = ptr_->to.first -
                             (range_.first - ptr_->from.first);
 
-                        out_.insert(range(first_,
-                            range_.second > ptr_->from.second ?
-                            ptr_->to.first :
-                            static_cast<index_type>(ptr_->to.second +
-                                (range_.second - ptr_->from.first))));
+                        out_.insert(range(range_.second > ptr_->from.second ?
+                            ptr_->to.second :
+                            static_cast<index_type>(ptr_->to.first -
+                                (range_.second - ptr_->from.first)), second_));
                     }
                 }
                 else if (range_.second >= ptr_->from.first &&
@@ -289,10 +289,10 @@ namespace lexertl::detail
                     }
                     else
                     {
-                        const index_type second_ = ptr_->to.second +
+                        const index_type first_ = ptr_->to.first -
                             (range_.second - ptr_->from.first);
 
-                        out_.insert(range(ptr_->to.second, second_));
+                        out_.insert(range(first_, ptr_->to.first));
                     }
                 }
                 // Either range fully encompasses from range or not at all.
-- 
2.43.0


From 20b04eed93bebeafc75d8c43bb7da8350e6b0f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:57 +0000
Subject: [PATCH 03/64] fix: include whole First/Last ranges in the Unicode
 categories

---
 gen_unicode_hpp/main.cpp                     | 23 +++++++++--
 include/lexertl/parser/tokeniser/unicode.hpp | 40 ++++++++++----------
 2 files changed, 40 insertions(+), 23 deletions(-)

diff --git a/gen_unicode_hpp/main.cpp b/gen_unicode_hpp/main.cpp
index e35bfaa..8f31334 100644
--- a/gen_unicode_hpp/main.cpp
+++ b/gen_unicode_hpp/main.cpp
@@ -16,9 +16,12 @@ void lex_unicode_data(lexertl::memory_file& mf_, std::ostream& os_,
 	const char* start_ = mf_.data();
 	const char* end_ = start_ + mf_.size();
 	lexertl::cmatch results_(start_, end_);
-	enum { eNumber = 1, eName };
+	enum { eNumber = 1, eFirst, eName };
 
 	std::size_t num_ = 0;
+	std::size_t first_ = 0;
+	bool range_first_ = false;
+	bool range_last_ = false;
 	using string_token = lexertl::basic_string_token<std::size_t>;
 	using map = std::map<std::string, string_token>;
 	map map_;
@@ -28,6 +31,8 @@ void lex_unicode_data(lexertl::memory_file& mf_, std::ostream& os_,
 	rules_.push_state("FINISH");
 
 	rules_.push("INITIAL", "^[A-F0-9]+", eNumber, "LONG_NAME");
+	// Big blocks are only listed by their first and last members
+	rules_.push("LONG_NAME", ";<[^;]+\", First\">;", eFirst, "SHORT_NAME");
 	rules_.push("LONG_NAME", ";[^;]+;", lexertl::rules::skip(), "SHORT_NAME");
 	rules_.push("SHORT_NAME", "[A-Z][a-z]?", eName, "FINISH");
 	rules_.push("FINISH", ".*\n", lexertl::rules::skip(), "INITIAL");
@@ -44,12 +49,24 @@ void lex_unicode_data(lexertl::memory_file& mf_, std::ostream& os_,
 			ss_ << results_.str();
 			ss_ >> std::hex >> num_;
 		}
+		else if (results_.id == eFirst)
+		{
+			range_first_ = true;
+			first_ = num_;
+		}
 		else if (results_.id == eName)
 		{
 			const std::string name_ = results_.str();
 
-			map_[name_].insert(lexertl::basic_string_token<std::size_t>::range
-			(num_, num_));
+			if (!range_last_)
+				first_ = num_;
+
+			if (!range_first_)
+				map_[name_].insert(lexertl::basic_string_token<std::size_t>::
+					range(first_, num_));
+
+			range_last_ = range_first_;
+			range_first_ = false;
 		}
 	} while (results_.id != 0);
 
diff --git a/include/lexertl/parser/tokeniser/unicode.hpp b/include/lexertl/parser/tokeniser/unicode.hpp
index 00e1d41..853def4 100644
--- a/include/lexertl/parser/tokeniser/unicode.hpp
+++ b/include/lexertl/parser/tokeniser/unicode.hpp
@@ -54,12 +54,12 @@
 
     static const char* Co()
     {
-        return "[\\xe000\\xf8ff\\xf0000\\xffffd\\x100000\\x10fffd]";
+        return "[\\xe000-\\xf8ff\\xf0000-\\xffffd\\x100000-\\x10fffd]";
     }
 
     static const char* Cs()
     {
-        return "[\\xd800\\xdb7f\\xdb80\\xdbff\\xdc00\\xdfff]";
+        return "[\\xd800-\\xdfff]";
     }
 
     static const char* Ll()
@@ -217,8 +217,8 @@
             "\\x2da8-\\x2dae\\x2db0-\\x2db6\\x2db8-\\x2dbe\\x2dc0-\\x2dc6"
             "\\x2dc8-\\x2dce\\x2dd0-\\x2dd6\\x2dd8-\\x2dde\\x3006\\x303c"
             "\\x3041-\\x3096\\x309f\\x30a1-\\x30fa\\x30ff\\x3105-\\x312f"
-            "\\x3131-\\x318e\\x31a0-\\x31bf\\x31f0-\\x31ff\\x3400\\x4dbf\\x4e00"
-            "\\x9fff-\\xa014\\xa016-\\xa48c\\xa4d0-\\xa4f7\\xa500-\\xa60b"
+            "\\x3131-\\x318e\\x31a0-\\x31bf\\x31f0-\\x31ff\\x3400-\\x4dbf"
+            "\\x4e00-\\xa014\\xa016-\\xa48c\\xa4d0-\\xa4f7\\xa500-\\xa60b"
             "\\xa610-\\xa61f\\xa62a\\xa62b\\xa66e\\xa6a0-\\xa6e5\\xa78f\\xa7f7"
             "\\xa7fb-\\xa801\\xa803-\\xa805\\xa807-\\xa80a\\xa80c-\\xa822"
             "\\xa840-\\xa873\\xa882-\\xa8b3\\xa8f2-\\xa8f7\\xa8fb\\xa8fd\\xa8fe"
@@ -228,7 +228,7 @@
             "\\xaa7a\\xaa7e-\\xaaaf\\xaab1\\xaab5\\xaab6\\xaab9-\\xaabd\\xaac0"
             "\\xaac2\\xaadb\\xaadc\\xaae0-\\xaaea\\xaaf2\\xab01-\\xab06"
             "\\xab09-\\xab0e\\xab11-\\xab16\\xab20-\\xab26\\xab28-\\xab2e"
-            "\\xabc0-\\xabe2\\xac00\\xd7a3\\xd7b0-\\xd7c6\\xd7cb-\\xd7fb"
+            "\\xabc0-\\xabe2\\xac00-\\xd7a3\\xd7b0-\\xd7c6\\xd7cb-\\xd7fb"
             "\\xf900-\\xfa6d\\xfa70-\\xfad9\\xfb1d\\xfb1f-\\xfb28"
             "\\xfb2a-\\xfb36\\xfb38-\\xfb3c\\xfb3e\\xfb40\\xfb41\\xfb43\\xfb44"
             "\\xfb46-\\xfbb1\\xfbd3-\\xfd3d\\xfd50-\\xfd8f\\xfd92-\\xfdc7"
@@ -281,26 +281,26 @@
             "\\x14400-\\x14646\\x16100-\\x1611d\\x16800-\\x16a38"
             "\\x16a40-\\x16a5e\\x16a70-\\x16abe\\x16ad0-\\x16aed"
             "\\x16b00-\\x16b2f\\x16b63-\\x16b77\\x16b7d-\\x16b8f"
-            "\\x16d43-\\x16d6a\\x16f00-\\x16f4a\\x16f50\\x17000"
-            "\\x187ff-\\x18cd5\\x18cff\\x18d00\\x18d1e\\x18d80-\\x18df2"
-            "\\x1b000-\\x1b122\\x1b132\\x1b150-\\x1b152\\x1b155"
-            "\\x1b164-\\x1b167\\x1b170-\\x1b2fb\\x1bc00-\\x1bc6a"
-            "\\x1bc70-\\x1bc7c\\x1bc80-\\x1bc88\\x1bc90-\\x1bc99\\x1df0a"
-            "\\x1e100-\\x1e12c\\x1e14e\\x1e290-\\x1e2ad\\x1e2c0-\\x1e2eb"
-            "\\x1e4d0-\\x1e4ea\\x1e5d0-\\x1e5ed\\x1e5f0\\x1e6c0-\\x1e6de"
-            "\\x1e6e0-\\x1e6e2\\x1e6e4\\x1e6e5\\x1e6e7-\\x1e6ed"
-            "\\x1e6f0-\\x1e6f4\\x1e6fe\\x1e7e0-\\x1e7e6\\x1e7e8-\\x1e7eb"
-            "\\x1e7ed\\x1e7ee\\x1e7f0-\\x1e7fe\\x1e800-\\x1e8c4"
-            "\\x1ee00-\\x1ee03\\x1ee05-\\x1ee1f\\x1ee21\\x1ee22\\x1ee24\\x1ee27"
+            "\\x16d43-\\x16d6a\\x16f00-\\x16f4a\\x16f50\\x17000-\\x18cd5"
+            "\\x18cff-\\x18d1e\\x18d80-\\x18df2\\x1b000-\\x1b122\\x1b132"
+            "\\x1b150-\\x1b152\\x1b155\\x1b164-\\x1b167\\x1b170-\\x1b2fb"
+            "\\x1bc00-\\x1bc6a\\x1bc70-\\x1bc7c\\x1bc80-\\x1bc88"
+            "\\x1bc90-\\x1bc99\\x1df0a\\x1e100-\\x1e12c\\x1e14e"
+            "\\x1e290-\\x1e2ad\\x1e2c0-\\x1e2eb\\x1e4d0-\\x1e4ea"
+            "\\x1e5d0-\\x1e5ed\\x1e5f0\\x1e6c0-\\x1e6de\\x1e6e0-\\x1e6e2"
+            "\\x1e6e4\\x1e6e5\\x1e6e7-\\x1e6ed\\x1e6f0-\\x1e6f4\\x1e6fe"
+            "\\x1e7e0-\\x1e7e6\\x1e7e8-\\x1e7eb\\x1e7ed\\x1e7ee"
+            "\\x1e7f0-\\x1e7fe\\x1e800-\\x1e8c4\\x1ee00-\\x1ee03"
+            "\\x1ee05-\\x1ee1f\\x1ee21\\x1ee22\\x1ee24\\x1ee27"
             "\\x1ee29-\\x1ee32\\x1ee34-\\x1ee37\\x1ee39\\x1ee3b\\x1ee42\\x1ee47"
             "\\x1ee49\\x1ee4b\\x1ee4d-\\x1ee4f\\x1ee51\\x1ee52\\x1ee54\\x1ee57"
             "\\x1ee59\\x1ee5b\\x1ee5d\\x1ee5f\\x1ee61\\x1ee62\\x1ee64"
             "\\x1ee67-\\x1ee6a\\x1ee6c-\\x1ee72\\x1ee74-\\x1ee77"
             "\\x1ee79-\\x1ee7c\\x1ee7e\\x1ee80-\\x1ee89\\x1ee8b-\\x1ee9b"
-            "\\x1eea1-\\x1eea3\\x1eea5-\\x1eea9\\x1eeab-\\x1eebb\\x20000"
-            "\\x2a6df\\x2a700\\x2b73f\\x2b740\\x2b81d\\x2b820\\x2cead\\x2ceb0"
-            "\\x2ebe0\\x2ebf0\\x2ee5d\\x2f800-\\x2fa1d\\x30000\\x3134a\\x31350"
-            "\\x323af\\x323b0\\x33479]";
+            "\\x1eea1-\\x1eea3\\x1eea5-\\x1eea9\\x1eeab-\\x1eebb"
+            "\\x20000-\\x2a6df\\x2a700-\\x2b81d\\x2b820-\\x2cead"
+            "\\x2ceb0-\\x2ebe0\\x2ebf0-\\x2ee5d\\x2f800-\\x2fa1d"
+            "\\x30000-\\x3134a\\x31350-\\x33479]";
     }
 
     static const char* Lt()
-- 
2.43.0


From 4cd5edea24bf6d9bb04dbcc6c9faa42e2aa82c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:54 +0000
Subject: [PATCH 04/64] fix: wide [[:print:]] is everything but \p{C}

---
 include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
index aebe7dd..3f24c5f 100644
--- a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
+++ b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
@@ -853,7 +853,7 @@ namespace lexertl::detail
                 {
                     // print
                     str_ = sizeof(input_char_type) == 1 ?
-                        "[\x20-\x7e]" : R"([\p{C}])";
+                        "[\x20-\x7e]" : R"([^\p{C}])";
                 }
                 else
                 {
-- 
2.43.0


From 6e85cebf6adc356ceb57117f04ef5fd9faec3c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:51 +0000
Subject: [PATCH 05/64] fix: spot ^ in the first part of a rule that is split,
 in any state

---
 include/lexertl/rules.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index b0a5749..b604f79 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -1202,7 +1202,7 @@ namespace lexertl
 
                 narrow(regex_.c_str(), ss_);
 
-                if (tokens_vec_.back()[1]._type == detail::token_type::BOL)
+                if (tokens_vec_.front()[1]._type == detail::token_type::BOL)
                 {
                     _features[curr_] |= *feature_bit::bol;
                 }
-- 
2.43.0


From cbb977ca5fca7319496400fb4d52e18ab85a5ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:03 +0000
Subject: [PATCH 06/64] fix: try the alternatives without ^ at the beginning of
 a line too

---
 include/lexertl/parser/parser.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/lexertl/parser/parser.hpp b/include/lexertl/parser/parser.hpp
index ded1a8e..407e21c 100644
--- a/include/lexertl/parser/parser.hpp
+++ b/include/lexertl/parser/parser.hpp
@@ -933,17 +933,23 @@ namespace lexertl::detail
         void fixup_bol(observer_ptr<node>& root_)const
         {
             const auto& first_ = root_->firstpos();
-            bool found_ = false;
+            observer_ptr<node> bol_ = nullptr;
+            typename node::node_vector others_;
 
-            for (observer_ptr<const node> node_ : first_)
+            for (observer_ptr<node> node_ : first_)
             {
-                found_ = !node_->end_state() && node_->token() ==
-                    bol_token();
-
-                if (found_) break;
+                if (!node_->end_state() && node_->token() == bol_token())
+                    bol_ = node_;
+                else
+                    others_.push_back(node_);
             }
 
-            if (!found_)
+            if (bol_)
+            {
+                // Alternatives without ^ also match at the beginning of a line
+                bol_->append_followpos(others_);
+            }
+            else
             {
                 _node_ptr_vector.push_back(std::make_unique<leaf_node>
                     (bol_token(), greedy_repeat::yes));
-- 
2.43.0


From 7815fbd04d502b3097fae4409da9b3200867d097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:52 +0000
Subject: [PATCH 07/64] fix: $ has no charset to look up when pruning newline
 clashes

---
 include/lexertl/generator.hpp | 205 +++++++++-------------------------
 1 file changed, 54 insertions(+), 151 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index 0de20b0..86bfee2 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -334,84 +334,15 @@ namespace lexertl
 
             while (nl_iter_ != end_)
             {
-                node* node_ = *nl_iter_;
-
-                if (node_->end_state())
+                if (completes_NL(*nl_iter_, cr_id_, nl_id_, set_mapping_))
                 {
-                    ++nl_iter_;
-                    continue;
+                    // This might be suppressing additional paths
+                    // but we should be erroring out anyway.
+                    nl_iter_ = followpos_.erase(nl_iter_);
+                    end_ = followpos_.end();
                 }
-
-                if (const auto& cr_set_ =
-                    set_mapping_[node_->token()];
-                    cr_set_.find(cr_id_) != cr_set_.end())
-                {
-                    const auto& cr_followpos_ =
-                        node_->followpos();
-
-                    for (auto cr_node_ : cr_followpos_)
-                    {
-                        if (cr_node_->end_state())
-                            continue;
-
-                        if (const auto& nl_set_ =
-                            set_mapping_[cr_node_->token()];
-                            nl_set_.find(nl_id_) != nl_set_.end())
-                        {
-                            const auto& nl_followpos_ =
-                                cr_node_->followpos();
-                            bool found_ = false;
-
-                            for (auto nl_node_ : nl_followpos_)
-                            {
-                                found_ = nl_node_->end_state();
-
-                                if (found_)
-                                    break;
-                            }
-
-                            if (found_)
-                            {
-                                // This might be suppressing additional paths
-                                // but we should be erroring out anyway.
-                                nl_iter_ = followpos_.erase(nl_iter_);
-                                end_ = followpos_.end();
-                                continue;
-                            }
-                        }
-                    }
-                }
-
-                if (nl_iter_ == end_)
-                    break;
-
-                if (const auto& nl_set_ =
-                    set_mapping_[node_->token()];
-                    nl_set_.find(nl_id_) != nl_set_.end())
-                {
-                    const auto& nl_followpos_ =
-                        node_->followpos();
-                    bool found_ = false;
-
-                    for (auto nl_node_ : nl_followpos_)
-                    {
-                        found_ = nl_node_->end_state();
-
-                        if (found_)
-                            break;
-                    }
-
-                    if (found_)
-                    {
-                        // This might be suppressing additional paths
-                        // but we should be erroring out anyway.
-                        nl_iter_ = followpos_.erase(nl_iter_);
-                        end_ = followpos_.end();
-                        continue;
-                    }
-                }
-
-                ++nl_iter_;
+                else
+                    ++nl_iter_;
             }
         }
 
@@ -421,97 +352,69 @@ namespace lexertl
             const id_type cr_id_, const id_type nl_id_,
             const index_set_vector& set_mapping_)
         {
-            auto node_ = *iter_;
-            const auto& set_ = set_mapping_[node_->token()];
-
-            if (set_.find(cr_id_) != set_.end())
-            {
-                const auto& cr_followpos_ = node_->followpos();
-                bool found_ = false;
-
-                for (auto cr_node_ : cr_followpos_)
-                {
-                    if (cr_node_->end_state())
-                        continue;
-
-                    const auto& cr_set_ = set_mapping_[cr_node_->token()];
-
-                    if (cr_set_.find(nl_id_) != cr_set_.end())
-                    {
-                        const auto& nl_followpos_ = cr_node_->followpos();
-
-                        found_ = false;
+            if (!completes_NL(*iter_, cr_id_, nl_id_, set_mapping_))
+                return;
 
-                        for (auto nl_node_ : nl_followpos_)
-                        {
-                            found_ = nl_node_->end_state();
-
-                            if (found_)
-                                break;
-                        }
-
-                        if (found_)
-                        {
-                            // Search for any EOL tokens
-                            auto nl_iter_ = iter_;
-
-                            ++nl_iter_;
+            // Search for any EOL tokens
+            auto nl_iter_ = iter_;
 
-                            while (nl_iter_ != end_)
-                            {
-                                node_ = *nl_iter_;
+            ++nl_iter_;
 
-                                if (!node_->end_state() &&
-                                    node_->token() == parser::eol_token())
-                                {
-                                    nl_iter_ = followpos_.erase(nl_iter_);
-                                    end_ = followpos_.end();
-                                    continue;
-                                }
+            while (nl_iter_ != end_)
+            {
+                observer_ptr<node> node_ = *nl_iter_;
 
-                                ++nl_iter_;
-                            }
-                        }
-                    }
+                if (!node_->end_state() &&
+                    node_->token() == parser::eol_token())
+                {
+                    nl_iter_ = followpos_.erase(nl_iter_);
+                    end_ = followpos_.end();
                 }
+                else
+                    ++nl_iter_;
             }
+        }
 
-            if (set_.find(nl_id_) != set_.end())
+        // Is node_ \n or \r followed by \n and then an end state?
+        static bool completes_NL(observer_ptr<const node> node_,
+            const id_type cr_id_, const id_type nl_id_,
+            const index_set_vector& set_mapping_)
+        {
+            if (matches(node_, cr_id_, set_mapping_))
             {
-                const auto& nl_followpos_ = node_->followpos();
-                bool found_ = false;
-
-                for (auto nl_node_ : nl_followpos_)
+                for (observer_ptr<const node> next_ : node_->followpos())
                 {
-                    found_ = nl_node_->end_state();
-
-                    if (found_)
-                        break;
+                    if (matches(next_, nl_id_, set_mapping_) &&
+                        precedes_end(next_))
+                        return true;
                 }
+            }
 
-                if (found_)
-                {
-                    // Search for any EOL tokens
-                    auto nl_iter_ = iter_;
+            return matches(node_, nl_id_, set_mapping_) &&
+                precedes_end(node_);
+        }
 
-                    ++nl_iter_;
+        static bool matches(observer_ptr<const node> node_,
+            const id_type id_, const index_set_vector& set_mapping_)
+        {
+            // $ is not a charset
+            if (node_->end_state() || node_->token() == parser::eol_token())
+                return false;
 
-                    while (nl_iter_ != end_)
-                    {
-                        node_ = *nl_iter_;
+            const auto& set_ = set_mapping_[node_->token()];
 
-                        if (!node_->end_state() &&
-                            node_->token() == parser::eol_token())
-                        {
-                            nl_iter_ = followpos_.erase(nl_iter_);
-                            end_ = followpos_.end();
-                            continue;
-                        }
+            return set_.find(id_) != set_.end();
+        }
 
-                        ++nl_iter_;
-                    }
-                }
+        static bool precedes_end(observer_ptr<const node> node_)
+        {
+            for (observer_ptr<const node> next_ : node_->followpos())
+            {
+                if (next_->end_state())
+                    return true;
             }
+
+            return false;
         }
 
         static void set_transitions(const id_type transition_,
-- 
2.43.0


From bb74064158d47cbfabb2da647b0b2e3aeccb13e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:01 +0000
Subject: [PATCH 08/64] fix: keep the newline transitions of separate $ states
 apart

---
 include/lexertl/generator.hpp | 97 ++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 54 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index 86bfee2..7659c2e 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -509,32 +509,18 @@ namespace lexertl
             {
                 observer_ptr<id_type> ptr_ = &dfa_.front() +
                     eol_ * dfa_alphabet_;
-                const id_type eol_state_ = ptr_[*state_index::eol];
                 const id_type cr_state_ =
                     ptr_[cr_id_ + *state_index::transitions];
                 const id_type nl_state_ =
                     ptr_[nl_id_ + *state_index::transitions];
 
-                if (cr_state_)
+                if (cr_state_ || nl_state_)
                 {
                     ptr_[*state_index::transitions + cr_id_] = 0;
-                    ptr_ = &dfa_.front() + eol_state_ * dfa_alphabet_;
-
-                    if (ptr_[*state_index::transitions + cr_id_] == 0)
-                    {
-                        ptr_[*state_index::transitions + cr_id_] = cr_state_;
-                    }
-                }
-
-                if (nl_state_)
-                {
                     ptr_[*state_index::transitions + nl_id_] = 0;
-                    ptr_ = &dfa_.front() + eol_state_ * dfa_alphabet_;
-
-                    if (ptr_[*state_index::transitions + nl_id_] == 0)
-                    {
-                        ptr_[*state_index::transitions + nl_id_] = nl_state_;
-                    }
+                    ptr_ = split_eol_state(eol_, dfa_, dfa_alphabet_);
+                    set_clash(ptr_, cr_id_, cr_state_);
+                    set_clash(ptr_, nl_id_, nl_state_);
                 }
             }
         }
@@ -545,72 +531,75 @@ namespace lexertl
             typename internals::id_type_vector& dfa_,
             const std::size_t dfa_alphabet_, const std::true_type&)
         {
-            std::size_t i_ = 0;
+            // Leading zero bytes of \r and \n
+            const std::size_t zeros_ = sm_traits::char_24_bit ? 2 : 1;
 
             for (const auto& eol_ : eol_set_)
             {
                 observer_ptr<id_type> ptr_ = &dfa_.front() +
                     eol_ * dfa_alphabet_;
-                const id_type eol_state_ = ptr_[*state_index::eol];
-                id_type cr_state_ = 0;
-                id_type nl_state_ = 0;
 
-                for (; i_ < (sm_traits::char_24_bit ? 2 : 1); ++i_)
+                for (std::size_t i_ = 0; i_ < zeros_; ++i_)
                 {
                     ptr_ = &dfa_.front() +
                         ptr_[*state_index::transitions + zero_id_] *
                         dfa_alphabet_;
                 }
 
-                cr_state_ = ptr_[*state_index::transitions + cr_id_];
+                const id_type cr_state_ =
+                    ptr_[*state_index::transitions + cr_id_];
+                const id_type nl_state_ =
+                    ptr_[*state_index::transitions + nl_id_];
 
-                if (cr_state_)
+                if (cr_state_ || nl_state_)
                 {
-                    ptr_ = &dfa_.front() + eol_state_ * dfa_alphabet_;
+                    ptr_ = split_eol_state(eol_, dfa_, dfa_alphabet_);
 
                     if (ptr_[*state_index::transitions + zero_id_] != 0)
                         continue;
 
-                    ptr_[*state_index::transitions + zero_id_] =
-                        static_cast<id_type>(dfa_.size() / dfa_alphabet_);
-                    dfa_.resize(dfa_.size() + dfa_alphabet_, 0);
-
-                    for (i_ = 0; i_ < (sm_traits::char_24_bit ? 1 : 0); ++i_)
+                    for (std::size_t i_ = 0; i_ < zeros_; ++i_)
                     {
-                        ptr_ = &dfa_.front() + dfa_.size() - dfa_alphabet_;
                         ptr_[*state_index::transitions + zero_id_] =
                             static_cast<id_type>(dfa_.size() / dfa_alphabet_);
                         dfa_.resize(dfa_.size() + dfa_alphabet_, 0);
+                        ptr_ = &dfa_.front() + dfa_.size() - dfa_alphabet_;
                     }
 
-                    ptr_ = &dfa_.front() + dfa_.size() - dfa_alphabet_;
-                    ptr_[*state_index::transitions + cr_id_] = cr_state_;
+                    set_clash(ptr_, cr_id_, cr_state_);
+                    set_clash(ptr_, nl_id_, nl_state_);
                 }
+            }
+        }
 
-                nl_state_ = ptr_[*state_index::transitions + nl_id_];
-
-                if (nl_state_)
-                {
-                    ptr_ = &dfa_.front() + eol_state_ * dfa_alphabet_;
+        // Other states can share the state that follows $, so that
+        // transitions may only be added to a copy of it.
+        static observer_ptr<id_type> split_eol_state(const id_type state_,
+            typename internals::id_type_vector& dfa_,
+            const std::size_t dfa_alphabet_)
+        {
+            const std::size_t from_ = dfa_alphabet_ *
+                dfa_[state_ * dfa_alphabet_ + *state_index::eol];
+            const std::size_t to_ = dfa_.size();
 
-                    if (ptr_[*state_index::transitions + zero_id_] != 0)
-                        continue;
+            dfa_[state_ * dfa_alphabet_ + *state_index::eol] =
+                static_cast<id_type>(to_ / dfa_alphabet_);
+            dfa_.resize(to_ + dfa_alphabet_, 0);
 
-                    ptr_[*state_index::transitions + zero_id_] =
-                        static_cast<id_type>(dfa_.size() / dfa_alphabet_);
-                    dfa_.resize(dfa_.size() + dfa_alphabet_, 0);
+            for (std::size_t i_ = 0; i_ < dfa_alphabet_; ++i_)
+            {
+                dfa_[to_ + i_] = dfa_[from_ + i_];
+            }
 
-                    for (i_ = 0; i_ < (sm_traits::char_24_bit ? 1 : 0); ++i_)
-                    {
-                        ptr_ = &dfa_.front() + dfa_.size() - dfa_alphabet_;
-                        ptr_[*state_index::transitions + zero_id_] =
-                            static_cast<id_type>(dfa_.size() / dfa_alphabet_);
-                        dfa_.resize(dfa_.size() + dfa_alphabet_, 0);
-                    }
+            return &dfa_.front() + to_;
+        }
 
-                    ptr_ = &dfa_.front() + dfa_.size() - dfa_alphabet_;
-                    ptr_[*state_index::transitions + nl_id_] = nl_state_;
-                }
+        static void set_clash(const observer_ptr<id_type> ptr_,
+            const id_type id_, const id_type state_)
+        {
+            if (ptr_[*state_index::transitions + id_] == 0)
+            {
+                ptr_[*state_index::transitions + id_] = state_;
             }
         }
 
-- 
2.43.0


From c8143e01c6c61553c31c9c77f6d1501e50e2afcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:46 +0000
Subject: [PATCH 09/64] fix: a wide lexer with $ always needs the zero charset

---
 include/lexertl/parser/parser.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/lexertl/parser/parser.hpp b/include/lexertl/parser/parser.hpp
index 407e21c..34b79fa 100644
--- a/include/lexertl/parser/parser.hpp
+++ b/include/lexertl/parser/parser.hpp
@@ -410,6 +410,12 @@ namespace lexertl::detail
             assert(handle_.top()->_type == token_type::EOL &&
                 handle_.size() == 1);
 
+            if (sm_traits::compressed)
+            {
+                // The generator needs the leading zero bytes of \r and \n
+                lookup(string_token(0, 0));
+            }
+
             if (temp_cr_id_ != sm_traits::npos())
             {
                 cr_id_ = temp_cr_id_;
-- 
2.43.0


From 08fa128430d16f6bd4bd2fde0ee5a1d67e21fd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:13 +0000
Subject: [PATCH 10/64] fix: leave characters that only contain the bytes of a
 newline alone

---
 include/lexertl/generator.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index 7659c2e..b3d084c 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -255,8 +255,13 @@ namespace lexertl
 
                 for (auto& equivset_ : equiv_list_)
                 {
-                    prune_eol_clashes(equivset_->_followpos, cr_id_, nl_id_,
-                        set_mapping_);
+                    // In a compressed state machine cr_id_ and nl_id_ are bytes
+                    // that other characters also contain.
+                    if (!sm_traits::compressed)
+                    {
+                        prune_eol_clashes(equivset_->_followpos, cr_id_,
+                            nl_id_, set_mapping_);
+                    }
 
                     const id_type transition_ =
                         closure(equivset_->_followpos, seen_sets_,
-- 
2.43.0


From ddf5fcb222e373ffe113fb4dbb768d4c16c93602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:28 +0000
Subject: [PATCH 11/64] fix: keep the other alternatives when a trailing
 non-greedy repeat is pruned

---
 include/lexertl/abstemious.hpp | 56 +++++++++++++++++++++++++++++++---
 1 file changed, 51 insertions(+), 5 deletions(-)

diff --git a/include/lexertl/abstemious.hpp b/include/lexertl/abstemious.hpp
index ebbc7cd..af7eee0 100644
--- a/include/lexertl/abstemious.hpp
+++ b/include/lexertl/abstemious.hpp
@@ -66,6 +66,8 @@ namespace lexertl
                         break;
                 }
             }
+
+            restore_empty(tokens_);
         }
 
     protected:
@@ -178,12 +180,56 @@ namespace lexertl
 
             iter_ = tokens_.erase(iter_, tokens_.begin() + idx_ + 1);
 
-            if (iter_->_type == detail::token_type::OR)
-                tokens_.erase(iter_);
-            else if (iter_->_type != detail::token_type::BEGIN &&
-                (iter_ - 1)->_type == detail::token_type::OR)
+            const auto prev_ = (iter_ - 1)->_type;
+
+            if (iter_->_type == detail::token_type::OR &&
+                (prev_ == detail::token_type::BEGIN ||
+                prev_ == detail::token_type::OPENPAREN ||
+                prev_ == detail::token_type::OR))
+            {
+                mark_empty(tokens_, tokens_.erase(iter_));
+            }
+            else if (prev_ == detail::token_type::OR)
+            {
+                mark_empty(tokens_, tokens_.erase(--iter_));
+            }
+        }
+
+        // The alternative that has been removed could match nothing, so the
+        // block it belonged to still can.
+        static void mark_empty(token_vector& tokens_,
+            typename token_vector::iterator iter_)
+        {
+            std::size_t parens_ = 0;
+
+            for (; iter_ != tokens_.end(); ++iter_)
             {
-                tokens_.erase(--iter_);
+                if (iter_->_type == detail::token_type::OPENPAREN)
+                    ++parens_;
+                else if (iter_->_type == detail::token_type::CLOSEPAREN)
+                {
+                    if (parens_ == 0)
+                    {
+                        iter_->_extra.assign(1, '?');
+                        break;
+                    }
+
+                    --parens_;
+                }
+            }
+        }
+
+        static void restore_empty(token_vector& tokens_)
+        {
+            for (std::size_t idx_ = 0; idx_ < tokens_.size(); ++idx_)
+            {
+                if (tokens_[idx_]._type == detail::token_type::CLOSEPAREN &&
+                    !tokens_[idx_]._extra.empty())
+                {
+                    tokens_[idx_]._extra.clear();
+                    tokens_.insert(tokens_.begin() + idx_ + 1,
+                        token(detail::token_type::OPT));
+                }
             }
         }
     };
-- 
2.43.0


From 40c011e964428ba4d8429e3e2132b68c542b5c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:18 +0000
Subject: [PATCH 12/64] fix: look for the end of an alternative from its first
 token

---
 include/lexertl/abstemious.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexertl/abstemious.hpp b/include/lexertl/abstemious.hpp
index af7eee0..0c50b07 100644
--- a/include/lexertl/abstemious.hpp
+++ b/include/lexertl/abstemious.hpp
@@ -100,7 +100,7 @@ namespace lexertl
         static std::size_t end_block(const token_vector& tokens_,
             const std::size_t start_)
         {
-            auto idx_ = start_ + 1;
+            auto idx_ = start_;
             std::size_t parens_ = 0;
 
             for (auto size_ = tokens_.size(); idx_ < size_; ++idx_)
-- 
2.43.0


From d64647aba0efc74d21b060f5923843d138b76659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:56 +0000
Subject: [PATCH 13/64] fix: only store a macro once its regex has been
 accepted

---
 include/lexertl/rules.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index b604f79..aa6cb2c 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -251,12 +251,11 @@ namespace lexertl
 
             if (iter_ == _macro_map.end())
             {
-                auto pair_ =
-                    _macro_map.insert(macro_pair(name_, token_vector()));
                 auto tokens_vec_ = tokenise(regex_, npos(), name_);
 
                 // There can only be one token_vector for a macro
-                pair_.first->second = std::move(tokens_vec_.back());
+                _macro_map.insert(macro_pair(name_,
+                    std::move(tokens_vec_.back())));
             }
             else
             {
-- 
2.43.0


From 87ff065b5317a13e5140e6cf8ae35a98b29510ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:56 +0000
Subject: [PATCH 14/64] fix: reject {-} or {+} directly after another one

---
 include/lexertl/rules.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index aa6cb2c..5882dc0 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -527,7 +527,7 @@ namespace lexertl
                     process_macro(name_, lhs_, rhs_, macro_, tokens_, state_,
                         regex_, diff_);
                 }
-                else if (rhs_._type == detail::token_type::DIFF)
+                else if (rhs_._type == detail::token_type::DIFF && !diff_)
                 {
                     process_diff(name_, rhs_, state_, macro_, diff_);
                     continue;
-- 
2.43.0


From b7251ab53cda5902b6bb175aadd50ea0f96a1148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:17 +0000
Subject: [PATCH 15/64] fix: bracket macros that start with ^ or end with $

---
 include/lexertl/generator.hpp |  3 ++-
 include/lexertl/rules.hpp     | 29 +++++++++++++++++++++--------
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index b3d084c..ddf0181 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -430,7 +430,8 @@ namespace lexertl
             {
                 if (i_ == parser::bol_token())
                 {
-                    dfa_.front() = transition_;
+                    // ^ inside a repeat can only match the first time
+                    if (index_ == 0) dfa_.front() = transition_;
                 }
                 else if (i_ == parser::eol_token())
                 {
diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index 5882dc0..c0abaf6 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -298,13 +298,12 @@ namespace lexertl
 
             auto tokens_vec_ = tokenise(regex_, id_, nullptr);
 
-            if (tokens_vec_.front()[1]._type == detail::token_type::BOL)
+            if (has_token(tokens_vec_, detail::token_type::BOL))
             {
                 _features.front() |= *feature_bit::bol;
             }
 
-            if (tokens_vec_.back()[tokens_vec_.back().size() - 2]._type ==
-                detail::token_type::EOL)
+            if (has_token(tokens_vec_, detail::token_type::EOL))
             {
                 _features.front() |= *feature_bit::eol;
             }
@@ -568,6 +567,21 @@ namespace lexertl
             return ret_;
         }
 
+        // A macro can hold ^ or $ inside brackets
+        bool has_token(const token_vector_vector& tokens_vec_,
+            const detail::token_type type_) const
+        {
+            for (const auto& tokens_ : tokens_vec_)
+            {
+                for (const auto& token_ : tokens_)
+                {
+                    if (token_._type == type_) return true;
+                }
+            }
+
+            return false;
+        }
+
         void strip_parens(token_vector& tokens_) const
         {
             for (;;)
@@ -737,7 +751,7 @@ namespace lexertl
 
                 // Any macro with more than one charset (or quantifiers)
                 // requires bracketing.
-                if (multiple_ && !(bol_ || eol_))
+                if (multiple_)
                 {
                     token open_;
 
@@ -784,7 +798,7 @@ namespace lexertl
                     lhs_ = &tokens_.back();
                 }
 
-                if (multiple_ && !(bol_ || eol_))
+                if (multiple_)
                 {
                     token close_;
 
@@ -1201,13 +1215,12 @@ namespace lexertl
 
                 narrow(regex_.c_str(), ss_);
 
-                if (tokens_vec_.front()[1]._type == detail::token_type::BOL)
+                if (has_token(tokens_vec_, detail::token_type::BOL))
                 {
                     _features[curr_] |= *feature_bit::bol;
                 }
 
-                if (tokens_vec_.back()[tokens_vec_.back().size() - 2].
-                    _type == detail::token_type::EOL)
+                if (has_token(tokens_vec_, detail::token_type::EOL))
                 {
                     _features[curr_] |= *feature_bit::eol;
                 }
-- 
2.43.0


From 55d57fde791104c6484a120a18e3527e94e9b914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:20 +0000
Subject: [PATCH 16/64] fix: a rule that can match zero chars before $ matches
 zero chars

---
 include/lexertl/generator.hpp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index ddf0181..34cc2e4 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -454,7 +454,9 @@ namespace lexertl
 
                 for (observer_ptr<const node> node_ : firstpos_)
                 {
-                    if (node_->end_state())
+                    node_ = zero_len_end(node_);
+
+                    if (node_)
                     {
                         std::ostringstream ss_;
 
@@ -469,6 +471,29 @@ namespace lexertl
             }
         }
 
+        // The end state that node_ leads to without consuming a character
+        static observer_ptr<const node> zero_len_end
+            (observer_ptr<const node> node_)
+        {
+            if (node_->end_state())
+                return node_;
+
+            if (node_->token() == parser::eol_token())
+                return node_->followpos().front();
+
+            if (node_->token() == parser::bol_token())
+            {
+                for (observer_ptr<const node> next_ : node_->followpos())
+                {
+                    if (!next_->end_state() &&
+                        next_->token() == parser::eol_token())
+                        return next_->followpos().front();
+                }
+            }
+
+            return nullptr;
+        }
+
         static void check_suppressed(const rules& rules_,
             const id_type unique_id_, std::set<id_type>& used_ids_)
         {
-- 
2.43.0


From abe366b5bdf6ca298a28603e674f6c59a74d9c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:03 +0000
Subject: [PATCH 17/64] fix: refuse an empty state name at the end of a list

---
 include/lexertl/rules.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index c0abaf6..4f7af92 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -1173,7 +1173,9 @@ namespace lexertl
                 const rules_char_type* start_ = curr_dfa_;
                 string next_dfa_;
 
-                while (*curr_dfa_)
+                bool more_ = true;
+
+                while (more_)
                 {
                     while (*curr_dfa_ && *curr_dfa_ != ',')
                     {
@@ -1181,8 +1183,9 @@ namespace lexertl
                     }
 
                     next_dfa_.assign(start_, curr_dfa_);
+                    more_ = *curr_dfa_ != 0;
 
-                    if (*curr_dfa_)
+                    if (more_)
                     {
                         ++curr_dfa_;
                         start_ = curr_dfa_;
-- 
2.43.0


From 2f0115321af6bce59fd26ec43697d8d9fa2c4c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:13 +0000
Subject: [PATCH 18/64] fix: do not let the value of a \x escape wrap

---
 include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
index 3f24c5f..6f0af89 100644
--- a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
+++ b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
@@ -1324,6 +1324,10 @@ namespace lexertl::detail
 
             do
             {
+                // Already too big (do not wrap)
+                if (hex_ > static_cast<std::size_t>(char_traits::max_val()))
+                    break;
+
                 hex_ *= 16;
 
                 if (ch_ >= '0' && ch_ <= '9')
-- 
2.43.0


From 6edb1e7814fe0807f17a5515c165b67e4a487972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:57 +0000
Subject: [PATCH 19/64] fix: refuse repeat counts that do not fit into id_type

---
 .../lexertl/parser/tokeniser/re_tokeniser.hpp | 26 ++++++++++++++++---
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/lexertl/parser/tokeniser/re_tokeniser.hpp b/include/lexertl/parser/tokeniser/re_tokeniser.hpp
index ddc855b..97a7c9f 100644
--- a/include/lexertl/parser/tokeniser/re_tokeniser.hpp
+++ b/include/lexertl/parser/tokeniser/re_tokeniser.hpp
@@ -544,6 +544,26 @@ namespace lexertl::detail
             }
         }
 
+        // A count that does not fit into id_type can never fit into a DFA
+        static void add_digit(const state& state_, std::size_t& count_,
+            const rules_char_type ch_)
+        {
+            const std::size_t digit_ = static_cast<std::size_t>(ch_) - '0';
+            const std::size_t max_ = static_cast<id_type>(~0);
+
+            if (count_ > (max_ - digit_) / 10)
+            {
+                std::ostringstream ss_;
+
+                ss_ << "Repeat count is too big preceding index " <<
+                    state_.index();
+                state_.error(ss_);
+                throw runtime_error(ss_.str());
+            }
+
+            count_ = count_ * 10 + digit_;
+        }
+
         // SYNTAX:
         //   {n[,[n]]}
         // SEMANTIC RULES:
@@ -563,8 +583,7 @@ namespace lexertl::detail
 
             while (!eos_ && ch_ >= '0' && ch_ <= '9')
             {
-                min_ *= 10;
-                min_ += static_cast<std::size_t>(ch_) - '0';
+                add_digit(state_, min_, ch_);
                 token_._extra += ch_;
                 eos_ = state_.next(ch_);
             }
@@ -630,8 +649,7 @@ namespace lexertl::detail
 
                     do
                     {
-                        max_ *= 10;
-                        max_ += static_cast<std::size_t>(ch_) - '0';
+                        add_digit(state_, max_, ch_);
                         token_._extra += ch_;
                         eos_ = state_.next(ch_);
                     } while (!eos_ && ch_ >= '0' && ch_ <= '9');
-- 
2.43.0


From 82164d102be822de8829d55d902a3b43c5738b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:53 +0000
Subject: [PATCH 20/64] fix: ^ inside a rule is not a charset to look up when
 pruning newline clashes

---
 include/lexertl/generator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index 34cc2e4..fb96934 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -402,8 +402,8 @@ namespace lexertl
         static bool matches(observer_ptr<const node> node_,
             const id_type id_, const index_set_vector& set_mapping_)
         {
-            // $ is not a charset
-            if (node_->end_state() || node_->token() == parser::eol_token())
+            // ^, $ and null are not charsets
+            if (node_->end_state() || node_->token() >= set_mapping_.size())
                 return false;
 
             const auto& set_ = set_mapping_[node_->token()];
-- 
2.43.0


From 795eac6c47073e20fe639782d00e22d83a6517a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:55 +0000
Subject: [PATCH 21/64] fix: a syntax error instead of an assertion for ? after
 a repeat

---
 include/lexertl/parser/tokeniser/re_token.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/lexertl/parser/tokeniser/re_token.hpp b/include/lexertl/parser/tokeniser/re_token.hpp
index 53a208b..deacf28 100644
--- a/include/lexertl/parser/tokeniser/re_token.hpp
+++ b/include/lexertl/parser/tokeniser/re_token.hpp
@@ -76,13 +76,13 @@ namespace lexertl::detail
                 /*MACRO*/  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>',
                 /*  (  */  ' ', '=', '<', '<', '<', '<', '<', ' ', ' ', '<', '<', '<', '<', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ',
                 /*  )  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>',
-                /*  ?  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
+                /*  ?  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* ??  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
-                /*  *  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
+                /*  *  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* *?  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
-                /*  +  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
+                /*  +  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* +?  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
-                /* n,m */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
+                /* n,m */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* n,m?*/  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* END */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' '
             };
-- 
2.43.0


From ece8351940c198b7db3b8d644f65f4acc63bc85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:24 +0000
Subject: [PATCH 22/64] fix: keep ids and pushes when minimising a
 char_state_machine

---
 include/lexertl/state_machine.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/state_machine.hpp b/include/lexertl/state_machine.hpp
index 1c1ffa5..c8d0db5 100644
--- a/include/lexertl/state_machine.hpp
+++ b/include/lexertl/state_machine.hpp
@@ -473,8 +473,10 @@ namespace lexertl
                     }
 
                     new_ptr_->_end_state = ptr_->_end_state;
-                    new_ptr_->_id = ptr_->_end_state;
+                    new_ptr_->_push_pop_dfa = ptr_->_push_pop_dfa;
+                    new_ptr_->_id = ptr_->_id;
                     new_ptr_->_user_id = ptr_->_user_id;
+                    new_ptr_->_push_dfa = ptr_->_push_dfa;
                     new_ptr_->_next_dfa = ptr_->_next_dfa;
 
                     if (ptr_->_eol_index != npos())
-- 
2.43.0


From 2856b278e8434d3199dfe817a475c26b1791c6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:32 +0000
Subject: [PATCH 23/64] fix: save and load state machines of every character
 and id type

---
 include/lexertl/serialise.hpp | 36 +++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/include/lexertl/serialise.hpp b/include/lexertl/serialise.hpp
index 10ebb17..3f82334 100644
--- a/include/lexertl/serialise.hpp
+++ b/include/lexertl/serialise.hpp
@@ -18,18 +18,20 @@ namespace lexertl
 {
     namespace detail
     {
-        template<typename char_type, typename id_type, class stream>
+        template<typename id_type, class stream>
         void output_vec(const std::vector<id_type>& vec_, stream& stream_)
         {
-            std::basic_ostringstream<char_type> ss_;
-            std::basic_string<char_type> str_;
+            using stream_char = typename stream::char_type;
+            std::basic_ostringstream<stream_char> ss_;
+            std::basic_string<stream_char> str_;
             std::size_t line_len_ = 0;
 
             stream_ << vec_.size() << '\n';
 
             for (const id_type l_ : vec_)
             {
-                ss_ << l_;
+                // An 8 bit id would be output as a character
+                ss_ << static_cast<std::size_t>(l_);
                 str_ = ss_.str();
 
                 if (line_len_ + str_.size() + 1 > 80)
@@ -43,13 +45,13 @@ namespace lexertl
                     line_len_ += str_.size() + 1;
                 }
 
-                ss_.str("");
+                ss_.str(std::basic_string<stream_char>());
             }
 
             stream_ << '\n';
         }
 
-        template<typename char_type, class stream, typename id_type>
+        template<class stream, typename id_type>
         void input_vec(stream& stream_, std::vector<id_type>& vec_)
         {
             std::size_t num_ = 0;
@@ -78,21 +80,21 @@ namespace lexertl
         stream_ << 1 << '\n';
         stream_ << sizeof(char_type) << '\n';
         stream_ << sizeof(id_type) << '\n';
-        stream_ << internals_._eoi << '\n';
+        stream_ << static_cast<std::size_t>(internals_._eoi) << '\n';
         stream_ << internals_._lookup.size() << '\n';
 
         for (const auto& vec_ : internals_._lookup)
         {
-            detail::output_vec<char_type>(vec_, stream_);
+            detail::output_vec(vec_, stream_);
         }
 
-        detail::output_vec<char_type>(internals_._dfa_alphabet, stream_);
-        stream_ << internals_._features << '\n';
+        detail::output_vec(internals_._dfa_alphabet, stream_);
+        stream_ << static_cast<std::size_t>(internals_._features) << '\n';
         stream_ << internals_._dfa.size() << '\n';
 
         for (const auto& vec_ : internals_._dfa)
         {
-            detail::output_vec<char_type>(vec_, stream_);
+            detail::output_vec(vec_, stream_);
         }
     }
 
@@ -118,25 +120,27 @@ namespace lexertl
         if (num_ != sizeof(id_type))
             throw runtime_error("id_type mismatch in lexertl::load().");
 
-        stream_ >> internals_._eoi;
+        stream_ >> num_;
+        internals_._eoi = static_cast<id_type>(num_);
         stream_ >> num_;
         internals_._lookup.reserve(num_);
 
         for (std::size_t idx_ = 0; idx_ < num_; ++idx_)
         {
             internals_._lookup.emplace_back();
-            detail::input_vec<char_type>(stream_, internals_._lookup.back());
+            detail::input_vec(stream_, internals_._lookup.back());
         }
 
-        detail::input_vec<char_type>(stream_, internals_._dfa_alphabet);
-        stream_ >> internals_._features;
+        detail::input_vec(stream_, internals_._dfa_alphabet);
+        stream_ >> num_;
+        internals_._features = static_cast<id_type>(num_);
         stream_ >> num_;
         internals_._dfa.reserve(num_);
 
         for (std::size_t idx_ = 0; idx_ < num_; ++idx_)
         {
             internals_._dfa.emplace_back();
-            detail::input_vec<char_type>(stream_, internals_._dfa.back());
+            detail::input_vec(stream_, internals_._dfa.back());
         }
     }
 }
-- 
2.43.0


From 3cf7df46a701aec85a06752e11356ad2a185c2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:59 +0000
Subject: [PATCH 24/64] fix: refuse to load what is not a saved state machine

---
 include/lexertl/serialise.hpp | 130 +++++++++++++++++++++++++++-------
 1 file changed, 106 insertions(+), 24 deletions(-)

diff --git a/include/lexertl/serialise.hpp b/include/lexertl/serialise.hpp
index 3f82334..00319ba 100644
--- a/include/lexertl/serialise.hpp
+++ b/include/lexertl/serialise.hpp
@@ -6,6 +6,8 @@
 #ifndef LEXERTL_SERIALISE_HPP
 #define LEXERTL_SERIALISE_HPP
 
+#include "enum_operator.hpp"
+#include "enums.hpp"
 #include "internals.hpp"
 #include "runtime_error.hpp"
 #include "state_machine.hpp"
@@ -51,21 +53,103 @@ namespace lexertl
             stream_ << '\n';
         }
 
-        template<class stream, typename id_type>
-        void input_vec(stream& stream_, std::vector<id_type>& vec_)
+        template<class stream>
+        std::size_t input_num(stream& stream_)
         {
             std::size_t num_ = 0;
 
-            stream_>> num_;
-            vec_.reserve(num_);
+            if (!(stream_ >> num_))
+                throw runtime_error("Number expected in lexertl::load().");
+
+            return num_;
+        }
+
+        template<typename id_type, class stream>
+        id_type input_id(stream& stream_)
+        {
+            const std::size_t num_ = input_num(stream_);
+
+            if (num_ > static_cast<id_type>(~0))
+                throw runtime_error("Number too big in lexertl::load().");
+
+            return static_cast<id_type>(num_);
+        }
+
+        template<class stream, typename id_type>
+        void input_vec(stream& stream_, std::vector<id_type>& vec_)
+        {
+            const std::size_t num_ = input_num(stream_);
 
             for (std::size_t idx_ = 0; idx_ < num_; ++idx_)
             {
-                std::size_t id_ = 0;
+                vec_.push_back(input_id<id_type>(stream_));
+            }
+        }
+
+        // Is every index within the vector that it is used for?
+        template<typename id_type>
+        bool valid(const basic_internals<id_type>& internals_)
+        {
+            const auto npos_ = static_cast<id_type>(~0);
+            const std::size_t states_ = internals_._dfa.size();
+            const std::size_t features_ = *feature_bit::bol |
+                *feature_bit::eol | *feature_bit::skip | *feature_bit::again |
+                *feature_bit::multi_state | *feature_bit::recursive |
+                *feature_bit::advance;
+
+            if (internals_._lookup.size() != states_ ||
+                internals_._dfa_alphabet.size() != states_ ||
+                internals_._features > features_)
+                return false;
+
+            for (std::size_t idx_ = 0; idx_ < states_; ++idx_)
+            {
+                const std::size_t alphabet_ = internals_._dfa_alphabet[idx_];
+                const auto& dfa_ = internals_._dfa[idx_];
+
+                if (alphabet_ < *state_index::transitions ||
+                    dfa_.size() < alphabet_ * 2 || dfa_.size() % alphabet_ != 0)
+                    return false;
+
+                if (internals_._lookup[idx_].size() != 256)
+                    return false;
+
+                for (const id_type column_ : internals_._lookup[idx_])
+                {
+                    if (column_ < *state_index::dead_state ||
+                        column_ >= alphabet_)
+                        return false;
+                }
+
+                const std::size_t rows_ = dfa_.size() / alphabet_;
+
+                if (dfa_.front() >= rows_)
+                    return false;
 
-                stream_ >> id_;
-                vec_.push_back(static_cast<id_type>(id_));
+                for (std::size_t row_ = 1; row_ < rows_; ++row_)
+                {
+                    auto ptr_ = dfa_.cbegin() + row_ * alphabet_;
+                    const id_type push_ = ptr_[*state_index::push_dfa];
+
+                    // The next state is popped
+                    if (ptr_[*state_index::next_dfa] >= states_ &&
+                        !(ptr_[*state_index::end_state] & *state_bit::pop_dfa))
+                        return false;
+
+                    if (push_ >= states_ && push_ != npos_)
+                        return false;
+
+                    // $ and the transitions
+                    for (std::size_t col_ = *state_index::eol;
+                        col_ < alphabet_; ++col_)
+                    {
+                        if (ptr_[col_] >= rows_)
+                            return false;
+                    }
+                }
             }
+
+            return true;
         }
     }
 
@@ -102,28 +186,23 @@ namespace lexertl
     void load(stream& stream_, basic_state_machine<char_type, id_type>& sm_)
     {
         using internals = detail::basic_internals<id_type>;
-        internals& internals_ = sm_.data();
+        internals internals_;
         std::size_t num_ = 0;
 
-        internals_.clear();
         // Version
-        stream_ >> num_;
-        // sizeof(char_type)
-        stream_ >> num_;
+        if (detail::input_num(stream_) != 1)
+            throw runtime_error("Version mismatch in lexertl::load().");
 
-        if (num_ != sizeof(char_type))
+        // sizeof(char_type)
+        if (detail::input_num(stream_) != sizeof(char_type))
             throw runtime_error("char_type mismatch in lexertl::load().");
 
         // sizeof(id_type)
-        stream_ >> num_;
-
-        if (num_ != sizeof(id_type))
+        if (detail::input_num(stream_) != sizeof(id_type))
             throw runtime_error("id_type mismatch in lexertl::load().");
 
-        stream_ >> num_;
-        internals_._eoi = static_cast<id_type>(num_);
-        stream_ >> num_;
-        internals_._lookup.reserve(num_);
+        internals_._eoi = detail::input_id<id_type>(stream_);
+        num_ = detail::input_num(stream_);
 
         for (std::size_t idx_ = 0; idx_ < num_; ++idx_)
         {
@@ -132,16 +211,19 @@ namespace lexertl
         }
 
         detail::input_vec(stream_, internals_._dfa_alphabet);
-        stream_ >> num_;
-        internals_._features = static_cast<id_type>(num_);
-        stream_ >> num_;
-        internals_._dfa.reserve(num_);
+        internals_._features = detail::input_id<id_type>(stream_);
+        num_ = detail::input_num(stream_);
 
         for (std::size_t idx_ = 0; idx_ < num_; ++idx_)
         {
             internals_._dfa.emplace_back();
             detail::input_vec(stream_, internals_._dfa.back());
         }
+
+        if (!detail::valid(internals_))
+            throw runtime_error("Invalid state machine in lexertl::load().");
+
+        sm_.data().swap(internals_);
     }
 }
 
-- 
2.43.0


From 11f647d68e3638003a9e176651c0db2cc2faa4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:22 +0000
Subject: [PATCH 25/64] fix: generated code for one state lexers with a stack,
 and for an empty stack

---
 include/lexertl/generate_cpp.hpp  | 6 +++++-
 include/lexertl/match_results.hpp | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index b545822..5e0bd0f 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -205,7 +205,8 @@ namespace lexertl
                 os_ << ";\n";
             }
 
-            if (internals_._dfa.size() > 1)
+            if (internals_._dfa.size() > 1 ||
+                internals_._features & *feature_bit::recursive)
             {
                 os_ << "    id_type start_state_ = results_.state;\n";
             }
@@ -595,6 +596,9 @@ namespace lexertl
             {
                 os_ << "        if (pop_)\n";
                 os_ << "        {\n";
+                os_ << "            if (results_.stack.empty())\n";
+                os_ << "                throw lexertl::runtime_error(\"Stack "
+                    "underflow in " << name_ << "().\");\n\n";
                 os_ << "            start_state_ =  results_."
                     "stack.top().first;\n";
                 os_ << "            results_.stack.pop();\n";
diff --git a/include/lexertl/match_results.hpp b/include/lexertl/match_results.hpp
index 50e519a..20a66e1 100644
--- a/include/lexertl/match_results.hpp
+++ b/include/lexertl/match_results.hpp
@@ -9,6 +9,7 @@
 #include "char_traits.hpp"
 #include "enum_operator.hpp"
 #include "enums.hpp"
+#include "runtime_error.hpp"
 
 #include <cstdint>
 #include <iterator>
-- 
2.43.0


From 2a35fdccf9203edf99f2e1cacd7b9520e7a71984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:22 +0000
Subject: [PATCH 26/64] fix: let $ match before a carriage return in generated
 code, too

---
 include/lexertl/generate_cpp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index 5e0bd0f..10b8e0d 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -287,7 +287,8 @@ namespace lexertl
                 }
 
                 os_ << ";\n\n";
-                os_ << "        if (EOL_state_ && *curr_ == '\\n')\n";
+                os_ << "        if (EOL_state_ && (*curr_ == '\\r' || "
+                    "*curr_ == '\\n'))\n";
                 os_ << "        {\n";
                 os_ << "            ptr_ = ";
 
-- 
2.43.0


From 2cd9738da0c5b297a0baa29e915d98ce3ff127ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:40 +0000
Subject: [PATCH 27/64] fix: $ in generated code must not match before a last
 character that fails

---
 include/lexertl/generate_cpp.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index 10b8e0d..8f32ade 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -951,7 +951,7 @@ namespace lexertl
             std::ostream& os_, const std::false_type&)
         {
             output_tabs(additional_tabs_, os_);
-            os_ << "        const char_type prev_char_ = *curr_++;\n";
+            os_ << "        const char_type prev_char_ = *curr_;\n";
             output_tabs(additional_tabs_, os_);
             os_ << "        const ";
 
@@ -1032,6 +1032,8 @@ namespace lexertl
             }
 
             os_ << ";\n";
+            output_tabs(additional_tabs_, os_);
+            os_ << "        ++curr_;\n";
         }
 
         template<typename id_type>
@@ -1048,7 +1050,7 @@ namespace lexertl
             output_tabs(additional_tabs_, os_);
             os_ << "        const std::size_t shift_[] = {0, 8, 16};\n";
             output_tabs(additional_tabs_, os_);
-            os_ << "        char_type prev_char_ = *curr_++;\n\n";
+            os_ << "        const char_type prev_char_ = *curr_;\n\n";
 
             if (features_ & *feature_bit::bol)
             {
@@ -1121,7 +1123,9 @@ namespace lexertl
 
             os_ << ";\n";
             output_tabs(additional_tabs_, os_);
-            os_ << "        }\n";
+            os_ << "        }\n\n";
+            output_tabs(additional_tabs_, os_);
+            os_ << "        ++curr_;\n";
         }
 
         static void output_quit(std::ostream&, const std::false_type&)
-- 
2.43.0


From 3ba502999e83d8f2c244130fe7bf383406e9fc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:40 +0000
Subject: [PATCH 28/64] fix: no ^ state is a null pointer in generated code

---
 include/lexertl/generate_cpp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index 8f32ade..d793b6a 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -865,7 +865,7 @@ namespace lexertl
             {
                 bool zero_ = *ptr_ == 0;
 
-                if (first_)
+                if (first_ && !zero_)
                 {
                     // We want numbers regardless of id_type.
                     os_ << dfa_name_ << " + 0x" << std::hex <<
-- 
2.43.0


From f9a213f0def533d05c84bd2ae18640b07eb69053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:40 +0000
Subject: [PATCH 29/64] fix: name the tables of more than ten lexer states
 consistently in generated code

---
 include/lexertl/generate_cpp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index d793b6a..5b1836b 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -807,7 +807,7 @@ namespace lexertl
 
                     ss_ << dfa_;
                     dfa_name_ += ss_.str();
-                    os_ << dfa_;
+                    os_ << ss_.str();
                 }
 
                 dfa_name_ += '_';
@@ -842,7 +842,7 @@ namespace lexertl
                     os_ << "id_type";
                 }
 
-                os_ << "* dfas_[] = {dfa0_";
+                os_ << "* dfas_[] = {dfa0_" << std::dec;
 
                 for (std::size_t col_ = 1; col_ < dfas_; ++col_)
                 {
-- 
2.43.0


From 2d2f77e9e1cc24230dfb05ac008af0cf2342e00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:48 +0000
Subject: [PATCH 30/64] fix: the $ state is a pointer in generated code with
 pointers

---
 include/lexertl/generate_cpp.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index 5b1836b..3796fd4 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -890,6 +890,14 @@ namespace lexertl
                     os_ << ", ";
                     zero_ = *ptr_ == 0;
 
+                    if (id_index_ == *state_index::eol && !zero_)
+                    {
+                        // We want numbers regardless of id_type.
+                        os_ << dfa_name_ << " + 0x" << std::hex <<
+                            static_cast<std::size_t>(*ptr_) * dfa_alphabet_;
+                        continue;
+                    }
+
                     if (!zero_)
                     {
                         os_ << "reinterpret_cast<const void*>(";
-- 
2.43.0


From 5c6fd2f293d37537bdb2d67473a3b93a811795bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:37 +0000
Subject: [PATCH 31/64] fix: replace() advances its output iterator

---
 include/lexertl/replace.hpp | 44 ++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/include/lexertl/replace.hpp b/include/lexertl/replace.hpp
index 7655f38..688c958 100644
--- a/include/lexertl/replace.hpp
+++ b/include/lexertl/replace.hpp
@@ -31,13 +31,13 @@ namespace lexertl
 
         while (results_.id != 0)
         {
-            std::copy(last_, results_.first, out_);
-            std::copy(fmt_.cbegin(), fmt_.cend(), out_);
+            out_ = std::copy(last_, results_.first, out_);
+            out_ = std::copy(fmt_.cbegin(), fmt_.cend(), out_);
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
@@ -57,18 +57,18 @@ namespace lexertl
         {
             auto iter_ = fmt_.find(results_.id);
 
-            std::copy(last_, results_.first, out_);
+            out_ = std::copy(last_, results_.first, out_);
 
             if (iter_ == fmt_.cend())
-                std::copy(results_.first, results_.second, out_);
+                out_ = std::copy(results_.first, results_.second, out_);
             else
-                std::copy(iter_->second.cbegin(), iter_->second.cend(), out_);
+                out_ = std::copy(iter_->second.cbegin(), iter_->second.cend(), out_);
 
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
@@ -90,22 +90,22 @@ namespace lexertl
         {
             auto iter_ = fmt_.find(results_.id);
 
-            std::copy(last_, results_.first, out_);
+            out_ = std::copy(last_, results_.first, out_);
 
             if (iter_ == fmt_.cend())
-                std::copy(results_.first, results_.second, out_);
+                out_ = std::copy(results_.first, results_.second, out_);
             else
             {
                 const auto str_ = iter_->second(results_.first, results_.second);
 
-                std::copy(str_.cbegin(), str_.cend(), out_);
+                out_ = std::copy(str_.cbegin(), str_.cend(), out_);
             }
 
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
@@ -129,13 +129,13 @@ namespace lexertl
 
         while (results_.id != 0)
         {
-            std::copy(last_, results_.first, out_);
-            std::copy(fmt_, end_fmt_, out_);
+            out_ = std::copy(last_, results_.first, out_);
+            out_ = std::copy(fmt_, end_fmt_, out_);
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
@@ -153,10 +153,10 @@ namespace lexertl
         {
             auto iter_ = fmt_.find(results_.id);
 
-            std::copy(last_, results_.first, out_);
+            out_ = std::copy(last_, results_.first, out_);
 
             if (iter_ == fmt_.cend())
-                std::copy(results_.first, results_.second, out_);
+                out_ = std::copy(results_.first, results_.second, out_);
             else
             {
                 const char_type* end_fmt_ = [end_ = iter_->second]() mutable
@@ -167,14 +167,14 @@ namespace lexertl
                         return end_;
                     }();
 
-                std::copy(iter_->second, end_fmt_, out_);
+                out_ = std::copy(iter_->second, end_fmt_, out_);
             }
 
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
@@ -193,10 +193,10 @@ namespace lexertl
         {
             auto iter_ = fmt_.find(results_.id);
 
-            std::copy(last_, results_.first, out_);
+            out_ = std::copy(last_, results_.first, out_);
 
             if (iter_ == fmt_.cend())
-                std::copy(results_.first, results_.second, out_);
+                out_ = std::copy(results_.first, results_.second, out_);
             else
             {
                 const char_type* str_ =
@@ -209,14 +209,14 @@ namespace lexertl
                         return str_;
                     }();
 
-                std::copy(str_, end_str_, out_);
+                out_ = std::copy(str_, end_str_, out_);
             }
 
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
-- 
2.43.0


From 1b17ff0a9c1d9cf906a86a2e985bd29b7fc4d241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:37 +0000
Subject: [PATCH 32/64] fix: replace() keeps text that an unfinished token ends
 with

---
 include/lexertl/replace.hpp | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/lexertl/replace.hpp b/include/lexertl/replace.hpp
index 688c958..4c67111 100644
--- a/include/lexertl/replace.hpp
+++ b/include/lexertl/replace.hpp
@@ -37,7 +37,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        out_ = std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.eoi, out_);
         return out_;
     }
 
@@ -68,7 +68,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        out_ = std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.eoi, out_);
         return out_;
     }
 
@@ -105,7 +105,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        out_ = std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.eoi, out_);
         return out_;
     }
 
@@ -135,7 +135,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        out_ = std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.eoi, out_);
         return out_;
     }
 
@@ -174,7 +174,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        out_ = std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.eoi, out_);
         return out_;
     }
 
@@ -216,7 +216,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        out_ = std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.eoi, out_);
         return out_;
     }
 
@@ -244,7 +244,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -279,7 +279,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -319,7 +319,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -352,7 +352,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -385,7 +385,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -419,7 +419,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -451,7 +451,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -491,7 +491,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -532,7 +532,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -564,7 +564,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -603,7 +603,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -643,7 +643,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 }
-- 
2.43.0


From fbb0e93affcd0c539ca410f47f60fdfb29ec4250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 33/64] fix: replace() works with strings of any traits and
 allocator

---
 include/lexertl/replace.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/lexertl/replace.hpp b/include/lexertl/replace.hpp
index 4c67111..fe86729 100644
--- a/include/lexertl/replace.hpp
+++ b/include/lexertl/replace.hpp
@@ -239,7 +239,7 @@ namespace lexertl
         while (results_.id != 0)
         {
             ret_.append(last_, results_.first);
-            ret_.append(fmt_);
+            ret_.append(fmt_.cbegin(), fmt_.cend());
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
@@ -273,7 +273,7 @@ namespace lexertl
             if (iter_ == fmt_.cend())
                 ret_.append(results_.first, results_.second);
             else
-                ret_.append(iter_->second);
+                ret_.append(iter_->second.cbegin(), iter_->second.cend());
 
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
@@ -313,7 +313,11 @@ namespace lexertl
             if (iter_ == fmt_.cend())
                 ret_.append(results_.first, results_.second);
             else
-                ret_.append(iter_->second(results_.first, results_.second));
+            {
+                const auto str_ = iter_->second(results_.first, results_.second);
+
+                ret_.append(str_.cbegin(), str_.cend());
+            }
 
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
@@ -429,7 +433,7 @@ namespace lexertl
             const basic_state_machine<char_type, id_type>& sm_,
             const std::basic_string<char_type, straits, salloc>& fmt_)
     {
-        std::basic_string<char_type> ret_;
+        std::basic_string<char_type, straits, salloc> ret_;
         const char_type* end_s_ = [s_]() mutable
             {
                 for (; *s_; ++s_)
@@ -462,7 +466,7 @@ namespace lexertl
             const std::map<id_type,
                 std::basic_string<char_type, straits, salloc>>& fmt_)
     {
-        std::basic_string<char_type> ret_;
+        std::basic_string<char_type, straits, salloc> ret_;
         const char_type* end_s_ = [s_]() mutable
             {
                 for (; *s_; ++s_)
@@ -503,7 +507,7 @@ namespace lexertl
                 std::basic_string<char_type, straits, salloc>(*)
             (const char_type*, const char_type*)>& fmt_)
     {
-        std::basic_string<char_type> ret_;
+        std::basic_string<char_type, straits, salloc> ret_;
         const char_type* end_s_ = [s_]() mutable
             {
                 for (; *s_; ++s_)
-- 
2.43.0


From 0ba51abe80595b5491af594624c2c0ffef3085bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 34/64] fix: stream_shared_iterator moves overlapping parts of
 its buffer

---
 include/lexertl/stream_shared_iterator.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/lexertl/stream_shared_iterator.hpp b/include/lexertl/stream_shared_iterator.hpp
index b91e5d5..c3a9421 100644
--- a/include/lexertl/stream_shared_iterator.hpp
+++ b/include/lexertl/stream_shared_iterator.hpp
@@ -9,6 +9,7 @@
 
 #include "runtime_error.hpp"
 
+#include <algorithm>
 #include <istream>
 #include <iterator>
 #include <vector>
@@ -199,15 +200,14 @@ namespace lexertl
                 }
                 else
                 {
-                    // Some systems have memcpy in namespace std
-                    using namespace std;
-                    const size_t start_ = _buffer.size() - lowest_;
-                    const size_t len_ = _buffer.size() - start_;
+                    const std::size_t start_ = _buffer.size() - lowest_;
+                    const std::size_t len_ = _buffer.size() - start_;
 
-                    memcpy(&_buffer.front(), &_buffer[lowest_], start_ *
-                        sizeof(char_type));
+                    // The ranges can overlap
+                    std::copy(_buffer.begin() + lowest_, _buffer.end(),
+                        _buffer.begin());
                     _stream.read(&_buffer.front() + start_, len_);
-                    read_ = static_cast<size_t>(_stream.gcount());
+                    read_ = static_cast<std::size_t>(_stream.gcount());
                     subtract(lowest_);
 
                     if (read_)
-- 
2.43.0


From 15936c7a7262cd03467903e973075b8dd0deaad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:40 +0000
Subject: [PATCH 35/64] fix: stream_shared_iterator assignment keeps the
 bookkeeping of the shared buffer right

---
 include/lexertl/stream_shared_iterator.hpp | 63 ++++++++++------------
 1 file changed, 29 insertions(+), 34 deletions(-)

diff --git a/include/lexertl/stream_shared_iterator.hpp b/include/lexertl/stream_shared_iterator.hpp
index c3a9421..0e8f437 100644
--- a/include/lexertl/stream_shared_iterator.hpp
+++ b/include/lexertl/stream_shared_iterator.hpp
@@ -58,17 +58,7 @@ namespace lexertl
 
         ~basic_stream_shared_iterator()
         {
-            if (_shared)
-            {
-                --_shared->_ref_count;
-                _shared->erase(this);
-
-                if (_shared->_ref_count == 0)
-                {
-                    delete _shared;
-                    _shared = nullptr;
-                }
-            }
+            release();
         }
 
         basic_stream_shared_iterator& operator =
@@ -76,37 +66,27 @@ namespace lexertl
         {
             if (this != &rhs_)
             {
-                _master = false;
-                _index = rhs_._master ? rhs_._shared->lowest() : rhs_._index;
+                const std::size_t index_ = rhs_._master ?
+                    rhs_._shared->lowest() : rhs_._index;
+                const bool live_ = rhs_._master || rhs_._live;
 
-                if (!_live && !rhs_._live)
+                if (!_live || !live_ || _shared != rhs_._shared)
                 {
+                    // Take part in the new stream before leaving the old one
+                    // as they can be the same.
                     if (rhs_._shared)
-                    {
                         ++rhs_._shared->_ref_count;
-                    }
-                }
-                else if (!_live && rhs_._live)
-                {
-                    rhs_._shared->_clients.push_back(this);
 
-                    if (!_shared)
-                    {
-                        ++rhs_._shared->_ref_count;
-                    }
-                }
-                else if (_live && !rhs_._live)
-                {
-                    _shared->erase(this);
+                    release();
+                    _shared = rhs_._shared;
 
-                    if (!rhs_._shared)
-                    {
-                        --_shared->_ref_count;
-                    }
+                    if (live_)
+                        _shared->_clients.push_back(this);
                 }
 
-                _live = rhs_._live;
-                _shared = rhs_._shared;
+                _master = false;
+                _live = live_;
+                _index = index_;
             }
 
             return *this;
@@ -302,6 +282,21 @@ namespace lexertl
         std::size_t _index = shared::npos();
         shared* _shared = nullptr;
 
+        void release()
+        {
+            if (_shared)
+            {
+                --_shared->_ref_count;
+                _shared->erase(this);
+
+                if (_shared->_ref_count == 0)
+                {
+                    delete _shared;
+                    _shared = nullptr;
+                }
+            }
+        }
+
         void check_master()
         {
             if (!_shared)
-- 
2.43.0


From 38b165259ca4f1ad8c6fa397fd2df0cea0fda620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:54 +0000
Subject: [PATCH 36/64] fix: stream_shared_iterator knows an empty stream and
 its own position before use

---
 include/lexertl/stream_shared_iterator.hpp | 23 ++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/lexertl/stream_shared_iterator.hpp b/include/lexertl/stream_shared_iterator.hpp
index 0e8f437..1db1546 100644
--- a/include/lexertl/stream_shared_iterator.hpp
+++ b/include/lexertl/stream_shared_iterator.hpp
@@ -41,7 +41,7 @@ namespace lexertl
         }
 
         basic_stream_shared_iterator(const basic_stream_shared_iterator& rhs_) :
-            _index(rhs_._master ? rhs_._shared->lowest() : rhs_._index),
+            _index(rhs_.position()),
             _shared(rhs_._shared)
         {
             if (_shared)
@@ -66,8 +66,7 @@ namespace lexertl
         {
             if (this != &rhs_)
             {
-                const std::size_t index_ = rhs_._master ?
-                    rhs_._shared->lowest() : rhs_._index;
+                const std::size_t index_ = rhs_.position();
                 const bool live_ = rhs_._master || rhs_._live;
 
                 if (!_live || !live_ || _shared != rhs_._shared)
@@ -95,10 +94,13 @@ namespace lexertl
         friend bool operator ==(const basic_stream_shared_iterator& lhs_,
             const basic_stream_shared_iterator& rhs_)
         {
-            return lhs_._index == rhs_._index &&
+            const std::size_t lhs_index_ = lhs_.position();
+            const std::size_t rhs_index_ = rhs_.position();
+
+            return lhs_index_ == rhs_index_ &&
                 (lhs_._shared == rhs_._shared ||
-                    (lhs_._index == shared::npos() ||
-                        rhs_._index == shared::npos()) &&
+                    (lhs_index_ == shared::npos() ||
+                        rhs_index_ == shared::npos()) &&
                     (!lhs_._shared || !rhs_._shared));
         }
 
@@ -282,6 +284,15 @@ namespace lexertl
         std::size_t _index = shared::npos();
         shared* _shared = nullptr;
 
+        std::size_t position() const
+        {
+            if (!_master)
+                return _index;
+
+            // An empty stream has no characters to be at
+            return _shared->_len == 0 ? shared::npos() : _shared->lowest();
+        }
+
         void release()
         {
             if (_shared)
-- 
2.43.0


From a56c1c4fac58264af97dde9c8ec872c41408e449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 37/64] fix: UTF-8 that is overlong, a surrogate or beyond
 U+10FFFF is invalid

---
 include/lexertl/utf_iterators.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/lexertl/utf_iterators.hpp b/include/lexertl/utf_iterators.hpp
index 1ec4ae2..f4c7294 100644
--- a/include/lexertl/utf_iterators.hpp
+++ b/include/lexertl/utf_iterators.hpp
@@ -175,6 +175,11 @@ namespace lexertl
             if ((*_end & 0xc0) != 0x80)
                 invalid_utf8();
 
+            // Overlong sequences and surrogates
+            if ((ch_ == 0xe0 && (*_end & 0xff) < 0xa0) ||
+                (ch_ == 0xed && (*_end & 0xff) > 0x9f))
+                invalid_utf8();
+
             ch_ = (ch_ << 12 & 0xffff) | ((*_end & 0xff) << 6 & 0xfff);
             ++_end;
 
@@ -199,6 +204,11 @@ namespace lexertl
             if ((*_end & 0xc0) != 0x80)
                 invalid_utf8();
 
+            // Overlong sequences and values beyond 0x10ffff
+            if ((ch_ == 0xf0 && (*_end & 0xff) < 0x90) ||
+                (ch_ == 0xf4 && (*_end & 0xff) > 0x8f))
+                invalid_utf8();
+
             ch_ = (ch_ << 18 & 0x1fffff) | ((*_end & 0xff) << 12 & 0x3ffff);
             ++_end;
 
@@ -228,13 +238,15 @@ namespace lexertl
             if (ch_ < 0x80)
                 return 1;
 
-            if ((ch_ & 0xe0) == 0xc0)
+            // 0xc0 and 0xc1 can only start overlong sequences
+            if ((ch_ & 0xe0) == 0xc0 && ch_ > 0xc1)
                 return 2;
 
             if ((ch_ & 0xf0) == 0xe0)
                 return 3;
 
-            if ((ch_ & 0xf8) == 0xf0)
+            // 0xf5 to 0xf7 can only start values beyond 0x10ffff
+            if ((ch_ & 0xf8) == 0xf0 && ch_ < 0xf5)
                 return 4;
 
             // Invalid UTF-8
-- 
2.43.0


From cfb90adca602eb5b2688734cee86c88ac234fba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 38/64] fix: UTF output iterators within a character are not
 equal

---
 include/lexertl/utf_iterators.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/lexertl/utf_iterators.hpp b/include/lexertl/utf_iterators.hpp
index f4c7294..61759e7 100644
--- a/include/lexertl/utf_iterators.hpp
+++ b/include/lexertl/utf_iterators.hpp
@@ -295,13 +295,13 @@ namespace lexertl
         friend bool operator ==(const basic_utf8_out_iterator& lhs_,
             const basic_utf8_out_iterator& rhs_)
         {
-            return lhs_._it == rhs_._it;
+            return lhs_._it == rhs_._it && lhs_._index == rhs_._index;
         }
 
         friend bool operator !=(const basic_utf8_out_iterator& lhs_,
             const basic_utf8_out_iterator& rhs_)
         {
-            return lhs_._it != rhs_._it;
+            return !(lhs_ == rhs_);
         }
 
         basic_utf8_out_iterator& operator ++()
@@ -341,13 +341,14 @@ namespace lexertl
 
         void next()
         {
+            _index = 0;
+
             if (_it == _eoi)
                 return;
 
             const std::size_t ch_ = *_it;
 
             _count = len(ch_);
-            _index = 0;
 
             switch (_count)
             {
@@ -556,13 +557,13 @@ namespace lexertl
         friend bool operator ==(const basic_utf16_out_iterator& lhs_,
             const basic_utf16_out_iterator& rhs_)
         {
-            return lhs_._it == rhs_._it;
+            return lhs_._it == rhs_._it && lhs_._index == rhs_._index;
         }
 
         friend bool operator !=(const basic_utf16_out_iterator& lhs_,
             const basic_utf16_out_iterator& rhs_)
         {
-            return lhs_._it != rhs_._it;
+            return !(lhs_ == rhs_);
         }
 
         basic_utf16_out_iterator& operator ++()
@@ -602,13 +603,14 @@ namespace lexertl
 
         void next()
         {
+            _index = 0;
+
             if (_it == _eoi)
                 return;
 
             const std::size_t ch_ = *_it;
 
             _count = len(ch_);
-            _index = 0;
 
             switch (_count)
             {
-- 
2.43.0


From c7edc568200b0b0e94618368c7989527eb189610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:12 +0000
Subject: [PATCH 39/64] fix: memory_file unmaps all of the file whatever the
 character type

---
 include/lexertl/memory_file.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/lexertl/memory_file.hpp b/include/lexertl/memory_file.hpp
index d1c7768..a9f8b51 100644
--- a/include/lexertl/memory_file.hpp
+++ b/include/lexertl/memory_file.hpp
@@ -93,7 +93,8 @@ namespace lexertl
                     }
                     else
                     {
-                        _size = sbuf_.st_size / sizeof(char_type);
+                        _bytes = sbuf_.st_size;
+                        _size = _bytes / sizeof(char_type);
                     }
                 }
             }
@@ -117,7 +118,8 @@ namespace lexertl
 #ifdef _WIN32
                 ::UnmapViewOfFile(_data);
 #else
-                ::munmap(const_cast<char_type*>(_data), _size);
+                ::munmap(const_cast<char_type*>(_data), _bytes);
+                _bytes = 0;
 #endif
                 _data = nullptr;
                 _size = 0;
@@ -148,6 +150,7 @@ namespace lexertl
         HANDLE _fh = nullptr;
         HANDLE _fmh = nullptr;
 #else
+        std::size_t _bytes = 0;
         int _fh = 0;
 #endif
     };
-- 
2.43.0


From fb4d9b91b9d808c78d6ff40b0b2780131f5ee919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:12 +0000
Subject: [PATCH 40/64] fix: memory_file closes every descriptor it opened

---
 include/lexertl/memory_file.hpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/lexertl/memory_file.hpp b/include/lexertl/memory_file.hpp
index a9f8b51..4faad3f 100644
--- a/include/lexertl/memory_file.hpp
+++ b/include/lexertl/memory_file.hpp
@@ -46,10 +46,7 @@ namespace lexertl
 
         void open(const char* pathname_)
         {
-            if (_data)
-            {
-                close();
-            }
+            close();
 
 #ifdef _WIN32
             _fh = ::CreateFileA(pathname_, GENERIC_READ, FILE_SHARE_READ,
@@ -136,10 +133,10 @@ namespace lexertl
 
             _fh = nullptr;
 #else
-            if (_fh)
+            if (_fh > -1)
                 ::close(_fh);
 
-            _fh = 0;
+            _fh = -1;
 #endif
         }
 
@@ -151,7 +148,7 @@ namespace lexertl
         HANDLE _fmh = nullptr;
 #else
         std::size_t _bytes = 0;
-        int _fh = 0;
+        int _fh = -1;
 #endif
     };
 
-- 
2.43.0


From a48236f60e9bcb9cd42a429a502cf37dafbb578a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 41/64] fix: reverse() exchanges the features of ^ and dollar

---
 include/lexertl/rules.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index 4f7af92..b20fe7f 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -391,6 +391,16 @@ namespace lexertl
                 }
             }
 
+            // ^ and $ change places
+            for (auto& features_ : _features)
+            {
+                const id_type anchors_ = *feature_bit::bol | *feature_bit::eol;
+                const id_type found_ = features_ & anchors_;
+
+                if (found_ != 0 && found_ != anchors_)
+                    features_ ^= anchors_;
+            }
+
             for (auto& pair_ : _macro_map)
             {
                 reverse(pair_.second);
-- 
2.43.0


From 8e1dbbcf27910d9507dc9686ca8445eeaf7f51f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:29 +0000
Subject: [PATCH 42/64] fix: subview() with iterators that are not pointers

---
 include/lexertl/match_results.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/match_results.hpp b/include/lexertl/match_results.hpp
index 20a66e1..90e686f 100644
--- a/include/lexertl/match_results.hpp
+++ b/include/lexertl/match_results.hpp
@@ -75,7 +75,8 @@ namespace lexertl
         string_view subview(const std::size_t soffset_,
             const std::size_t eoffset_) const
         {
-            return string_view(first + soffset_,
+            // &* in case we are using string iterators
+            return string_view(&*first + soffset_,
                 length() - soffset_ - eoffset_);
         }
 
-- 
2.43.0


From 6e75c9424b125e346366bd82baf486cf1a4b20b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:43 +0000
Subject: [PATCH 43/64] fix: lookup() pops without the multi_state feature

---
 include/lexertl/lookup.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/lexertl/lookup.hpp b/include/lexertl/lookup.hpp
index 2df4374..ed5ae64 100644
--- a/include/lexertl/lookup.hpp
+++ b/include/lexertl/lookup.hpp
@@ -301,6 +301,16 @@ namespace lexertl
                 }
             }
 
+            void return_state(const id_type, const std::false_type&) const
+            {
+                // The only state there is
+            }
+
+            void return_state(const id_type state_, const std::true_type&)
+            {
+                _multi_state_state._start_state = state_;
+            }
+
             template<typename results>
             void pop(results&, const std::false_type&) const
             {
@@ -316,8 +326,9 @@ namespace lexertl
                         throw runtime_error("Stack underflow in "
                             "lookup_state::pop().");
 
-                    _multi_state_state._start_state =
-                        results_.stack.top().first;
+                    return_state(results_.stack.top().first,
+                        std::integral_constant<bool,
+                        (flags & +feature_bit::multi_state) != 0>());
                     results_.stack.pop();
                 }
                 else if (_recursive_state._push_dfa != results::npos())
-- 
2.43.0


From 04db674447ef3eecca8f8aa023e41e52fda83a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:39 +0000
Subject: [PATCH 44/64] fix: refuse more charsets than id_type can number

---
 include/lexertl/parser/parser.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/lexertl/parser/parser.hpp b/include/lexertl/parser/parser.hpp
index 34b79fa..3f3ace3 100644
--- a/include/lexertl/parser/parser.hpp
+++ b/include/lexertl/parser/parser.hpp
@@ -747,16 +747,19 @@ namespace lexertl::detail
             // Converted to id_type below.
             std::size_t id_ = sm_traits::npos();
 
-            if (static_cast<id_type>(id_) < id_)
-            {
-                throw runtime_error("id_type is not large enough "
-                    "to hold all ids.");
-            }
-
             if (auto iter_ = _charset_map.find(charset_);
                 iter_ == _charset_map.end())
             {
                 id_ = _charset_map.size();
+
+                // The topmost values are bol_token(), eol_token()
+                // and null_token().
+                if (id_ >= eol_token())
+                {
+                    throw runtime_error("id_type is not large enough "
+                        "to hold all ids.");
+                }
+
                 _charset_map.insert(charset_pair(charset_,
                     static_cast<id_type>(id_)));
             }
-- 
2.43.0


From d74a527f9c122d331f6d31819de0b8c459cac91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:27 +0000
Subject: [PATCH 45/64] fix: number rules independently of id_type when looking
 for ones that cannot match

---
 include/lexertl/generator.hpp            | 16 ++++++++--------
 include/lexertl/parser/parser.hpp        |  2 +-
 include/lexertl/parser/tree/end_node.hpp |  6 +++---
 include/lexertl/parser/tree/node.hpp     |  2 +-
 4 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index fb96934..e00dca2 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -51,8 +51,8 @@ namespace lexertl
             internals internals_;
             sm temp_sm_;
             node_ptr_vector node_ptr_vector_;
-            std::set<id_type> used_ids_;
-            id_type unique_id_ = 0;
+            std::set<std::size_t> used_ids_;
+            std::size_t unique_id_ = 0;
 
             internals_._eoi = rules_.eoi();
             internals_.add_states(size_);
@@ -104,7 +104,7 @@ namespace lexertl
         static observer_ptr<node> build_tree(const rules& rules_,
             const std::size_t dfa_, node_ptr_vector& node_ptr_vector_,
             charset_map& charset_map_, id_type& cr_id_, id_type& nl_id_,
-            id_type& unique_id_)
+            std::size_t& unique_id_)
         {
             parser parser_(rules_.locale(), node_ptr_vector_, charset_map_,
                 rules_.eoi());
@@ -188,7 +188,7 @@ namespace lexertl
         static void build_dfa(const charset_map& charset_map_,
             const observer_ptr<node> root_, internals& internals_, sm& sm_,
             const id_type dfa_index_, id_type& cr_id_, id_type& nl_id_,
-            const std::size_t flags_, std::set<id_type>& used_ids_)
+            const std::size_t flags_, std::set<std::size_t>& used_ids_)
         {
             // partitioned charset list
             charset_list charset_list_;
@@ -495,11 +495,11 @@ namespace lexertl
         }
 
         static void check_suppressed(const rules& rules_,
-            const id_type unique_id_, std::set<id_type>& used_ids_)
+            const std::size_t unique_id_, std::set<std::size_t>& used_ids_)
         {
             if (!(rules_.flags() & *regex_flags::allow_suppressed_rules))
             {
-                for (id_type id_ = 0; id_ < unique_id_; ++id_)
+                for (std::size_t id_ = 0; id_ < unique_id_; ++id_)
                 {
                     if (used_ids_.find(id_ + 1) == used_ids_.end())
                     {
@@ -821,7 +821,7 @@ namespace lexertl
             node_set_vector& seen_sets_, node_vector_vector& seen_vectors_,
             size_t_vector& hash_vector_, const id_type size_,
             id_type_vector& dfa_, const std::size_t flags_,
-            std::set<id_type>& used_ids_)
+            std::set<std::size_t>& used_ids_)
         {
             bool end_state_ = false;
             id_type id_ = 0;
@@ -897,7 +897,7 @@ namespace lexertl
             id_type& push_dfa_, bool& pop_dfa_, node_set& set_ptr_,
             node_vector& vector_ptr_, std::size_t& hash_,
             greedy_repeat& greedy_, const std::size_t flags_,
-            std::set<id_type>& used_ids_)
+            std::set<std::size_t>& used_ids_)
         {
             if (node_->end_state())
             {
diff --git a/include/lexertl/parser/parser.hpp b/include/lexertl/parser/parser.hpp
index 3f3ace3..b5a6d7d 100644
--- a/include/lexertl/parser/parser.hpp
+++ b/include/lexertl/parser/parser.hpp
@@ -91,7 +91,7 @@ namespace lexertl::detail
         }
 
         observer_ptr<node> parse(const token_vector& regex_, const id_type id_,
-            const id_type user_id_, const id_type unique_id_,
+            const id_type user_id_, const std::size_t unique_id_,
             const id_type next_dfa_, const id_type push_dfa_,
             const bool pop_dfa_, id_type& cr_id_, id_type& nl_id_,
             const bool seen_bol_)
diff --git a/include/lexertl/parser/tree/end_node.hpp b/include/lexertl/parser/tree/end_node.hpp
index aa02515..97b2476 100644
--- a/include/lexertl/parser/tree/end_node.hpp
+++ b/include/lexertl/parser/tree/end_node.hpp
@@ -24,7 +24,7 @@ namespace lexertl::detail
         using node_vector = typename node::node_vector;
 
         basic_end_node(const id_type id_,
-            const id_type user_id_, const id_type unique_id_,
+            const id_type user_id_, const std::size_t unique_id_,
             const id_type next_dfa_, const id_type push_dfa_,
             const bool pop_dfa_, const greedy_repeat greedy_) :
             node(false),
@@ -85,7 +85,7 @@ namespace lexertl::detail
             return _user_id;
         }
 
-        id_type unique_id() const override
+        std::size_t unique_id() const override
         {
             return _unique_id;
         }
@@ -108,7 +108,7 @@ namespace lexertl::detail
     private:
         id_type _id;
         id_type _user_id;
-        id_type _unique_id;
+        std::size_t _unique_id;
         id_type _next_dfa;
         id_type _push_dfa;
         bool _pop_dfa;
diff --git a/include/lexertl/parser/tree/node.hpp b/include/lexertl/parser/tree/node.hpp
index ae68c1f..ec8ad1c 100644
--- a/include/lexertl/parser/tree/node.hpp
+++ b/include/lexertl/parser/tree/node.hpp
@@ -147,7 +147,7 @@ namespace lexertl::detail
 #endif
         }
 
-        virtual id_type unique_id() const
+        virtual std::size_t unique_id() const
         {
             throw runtime_error("Internal error node::unique_id().");
 #ifdef __SUNPRO_CC
-- 
2.43.0


From cd77c50638879742bb47957141916f52515e97d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:03 +0000
Subject: [PATCH 46/64] fix: push_state() refuses a state before adding it

---
 include/lexertl/rules.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index b20fe7f..a26dd40 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -197,6 +197,14 @@ namespace lexertl
         {
             validate(name_);
 
+            if (_statemap.size() >= npos() &&
+                _statemap.find(name_) == _statemap.end())
+            {
+                // Overflow
+                throw runtime_error("The id_type you have chosen cannot hold "
+                    "this many lexer start states.");
+            }
+
             if (_statemap.insert(string_id_type_pair(name_,
                 static_cast<id_type>(_statemap.size()))).second)
             {
@@ -219,13 +227,6 @@ namespace lexertl
                 return _statemap.find(name_)->second;
             }
 
-            if (_next_dfas.size() > npos())
-            {
-                // Overflow
-                throw runtime_error("The id_type you have chosen cannot hold "
-                    "this many lexer start states.");
-            }
-
             // Initial is not stored, so no need to - 1.
             return static_cast<id_type>(_lexer_state_names.size());
         }
-- 
2.43.0


From 17fa861d05c6233788382a9593415aba7171b417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:07 +0000
Subject: [PATCH 47/64] fix: compile debug::dump() of rules

---
 include/lexertl/parser/tokeniser/re_token.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/lexertl/parser/tokeniser/re_token.hpp b/include/lexertl/parser/tokeniser/re_token.hpp
index deacf28..a41c7de 100644
--- a/include/lexertl/parser/tokeniser/re_token.hpp
+++ b/include/lexertl/parser/tokeniser/re_token.hpp
@@ -54,6 +54,13 @@ namespace lexertl::detail
             _str.swap(rhs_._str);
         }
 
+        friend bool operator ==(const basic_re_token& lhs_,
+            const basic_re_token& rhs_)
+        {
+            return lhs_._type == rhs_._type && lhs_._extra == rhs_._extra &&
+                lhs_._str == rhs_._str;
+        }
+
         char precedence(const token_type type_) const
         {
             // Moved in here for Solaris compiler.
-- 
2.43.0


From 3b1117d1326144a51d3431385eca6b3bd8174dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:41 +0000
Subject: [PATCH 48/64] fix: escape -, ^ and ] where they stand in a dumped
 charset

---
 include/lexertl/debug.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/lexertl/debug.hpp b/include/lexertl/debug.hpp
index 7872e95..bb100ff 100644
--- a/include/lexertl/debug.hpp
+++ b/include/lexertl/debug.hpp
@@ -445,10 +445,10 @@ namespace lexertl
             ostream& stream_)
         {
             string_token token_ = in_token_;
-            bool negated_ = false;
+            const bool brackets_ = token_._ranges.size() > 1 ||
+                token_._ranges.front().first != token_._ranges.front().second;
 
-            if (token_._ranges.size() > 1 ||
-                token_._ranges.front().first != token_._ranges.front().second)
+            if (brackets_)
             {
                 open_bracket(stream_);
             }
@@ -481,7 +481,6 @@ namespace lexertl
             {
                 token_.negate();
                 negated(stream_);
-                negated_ = true;
             }
 
             string chars_;
@@ -491,7 +490,7 @@ namespace lexertl
                 if (range_.first == static_cast<char_type>('-') ||
                     range_.first == static_cast<char_type>('^') ||
                     (range_.first == static_cast<char_type>(']') &&
-                    range_.first != range_.second))
+                    brackets_))
                 {
                     stream_ << static_cast<char_type>('\\');
                 }
@@ -510,7 +509,7 @@ namespace lexertl
                         range_.second == static_cast<char_type>('^') ||
                         range_.second == static_cast<char_type>(']'))
                     {
-                        stream_ << static_cast<char_type>('\\');
+                        chars_ += static_cast<char_type>('\\');
                     }
 
                     chars_ += string_token::escape_char(range_.second);
@@ -519,8 +518,7 @@ namespace lexertl
                 stream_ << chars_;
             }
 
-            if (token_._ranges.size() > 1 || negated_ ||
-                token_._ranges.front().first != token_._ranges.front().second)
+            if (brackets_)
             {
                 close_bracket(stream_);
             }
-- 
2.43.0


From 2bf452a3a0e713974fab32cd156f97890b536f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:41 +0000
Subject: [PATCH 49/64] fix: escape $ and < in dumped rules

---
 include/lexertl/debug.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/lexertl/debug.hpp b/include/lexertl/debug.hpp
index bb100ff..e4e7b00 100644
--- a/include/lexertl/debug.hpp
+++ b/include/lexertl/debug.hpp
@@ -470,6 +470,8 @@ namespace lexertl
                 case static_cast<char_type>(']'):
                 case static_cast<char_type>('.'):
                 case static_cast<char_type>('/'):
+                case static_cast<char_type>('$'):
+                case static_cast<char_type>('<'):
                     stream_ << static_cast<char_type>('\\');
                     break;
                 default:
-- 
2.43.0


From 07af16dba8a0faf86a8f4ead8561edc93034ba95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:41 +0000
Subject: [PATCH 50/64] fix: dump the state that a rule returns to

---
 include/lexertl/debug.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexertl/debug.hpp b/include/lexertl/debug.hpp
index e4e7b00..7c86b41 100644
--- a/include/lexertl/debug.hpp
+++ b/include/lexertl/debug.hpp
@@ -104,7 +104,7 @@ namespace lexertl
 
                     if (push_state_ != rules_.npos())
                     {
-                        if (push_state_ && push_state_ != dfa_)
+                        if (push_state_ != state_)
                         {
                             Begin(stream_);
                             stream_ << rules_.state(push_state_);
-- 
2.43.0


From f8fc0bedd95d69984ef8030d1ca0f76bfa834b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:41 +0000
Subject: [PATCH 51/64] fix: keep digits apart from the numeric escapes in
 dumps

---
 include/lexertl/debug.hpp | 60 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 56 insertions(+), 4 deletions(-)

diff --git a/include/lexertl/debug.hpp b/include/lexertl/debug.hpp
index 7c86b41..c3f433e 100644
--- a/include/lexertl/debug.hpp
+++ b/include/lexertl/debug.hpp
@@ -387,7 +387,18 @@ namespace lexertl
                 stream_ << static_cast<char_type>('|');
                 break;
             case lexertl::detail::token_type::CHARSET:
-                dump_charset(token_._str, stream_);
+                // Digits may follow
+                if (is_number(token_._str))
+                {
+                    open_bracket(stream_);
+                    dump_charset(token_._str, stream_);
+                    close_bracket(stream_);
+                }
+                else
+                {
+                    dump_charset(token_._str, stream_);
+                }
+
                 break;
             case lexertl::detail::token_type::BOL:
                 stream_ << static_cast<char_type>('^');
@@ -441,6 +452,46 @@ namespace lexertl
             }
         }
 
+        // \0 and \x take all the digits that follow
+        static bool is_number(const string& escape_)
+        {
+            return escape_.size() > 1 &&
+                (escape_[1] == static_cast<char_type>('0') ||
+                escape_[1] == static_cast<char_type>('x'));
+        }
+
+        static bool is_number(const string_token& token_)
+        {
+            return token_._ranges.size() == 1 &&
+                token_._ranges.front().first ==
+                token_._ranges.front().second &&
+                is_number(string_token::escape_char
+                (token_._ranges.front().first));
+        }
+
+        // number_ is true if ch_ follows a numeric escape
+        static string escape_char(const typename string_token::
+            index_type ch_, bool& number_)
+        {
+            string out_ = string_token::escape_char(ch_);
+
+            if (number_ && ((ch_ >= '0' && ch_ <= '9') ||
+                (ch_ >= 'A' && ch_ <= 'F') || (ch_ >= 'a' && ch_ <= 'f')))
+            {
+                stringstream ss_;
+
+                ss_ << std::hex;
+                stream_num(static_cast<std::size_t>(ch_), ss_);
+                out_ = static_cast<char_type>('\\');
+                out_ += static_cast<char_type>('x');
+                out_ += ss_.str();
+            }
+            else
+                number_ = is_number(out_);
+
+            return out_;
+        }
+
         static void dump_charset(const string_token& in_token_,
             ostream& stream_)
         {
@@ -486,6 +537,7 @@ namespace lexertl
             }
 
             string chars_;
+            bool number_ = false;
 
             for (const auto& range_ : token_._ranges)
             {
@@ -497,14 +549,14 @@ namespace lexertl
                     stream_ << static_cast<char_type>('\\');
                 }
 
-                chars_ = string_token::escape_char
-                (range_.first);
+                chars_ = escape_char(range_.first, number_);
 
                 if (range_.first != range_.second)
                 {
                     if (range_.first + 1 < range_.second)
                     {
                         chars_ += static_cast<char_type>('-');
+                        number_ = false;
                     }
 
                     if (range_.second == static_cast<char_type>('-') ||
@@ -514,7 +566,7 @@ namespace lexertl
                         chars_ += static_cast<char_type>('\\');
                     }
 
-                    chars_ += string_token::escape_char(range_.second);
+                    chars_ += escape_char(range_.second, number_);
                 }
 
                 stream_ << chars_;
-- 
2.43.0


From 859584655f51bfa04dfc2ad218b9d9ed3233189e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:55 +0000
Subject: [PATCH 52/64] fix: dump rules when there is an empty macro

---
 include/lexertl/debug.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/debug.hpp b/include/lexertl/debug.hpp
index c3f433e..86ff53d 100644
--- a/include/lexertl/debug.hpp
+++ b/include/lexertl/debug.hpp
@@ -262,7 +262,8 @@ namespace lexertl
                     {
                         auto macro_iter_ = macros_.find(macro_.second);
 
-                        if (macro_iter_ != macros_.cend())
+                        // An empty macro is found everywhere
+                        if (macro_iter_ != macros_.cend() && macro_.first > 0)
                         {
                             auto iter_ = std::search(regex_.begin(),
                                 regex_.end(), macro_iter_->second.begin(),
-- 
2.43.0


From 79879a60809c1d49cad9c30fa936a64afc891a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:46 +0000
Subject: [PATCH 53/64] fix: dump rules that use macros with ^ or $

---
 include/lexertl/debug.hpp | 126 ++++++++++++++++++++++++++------------
 1 file changed, 87 insertions(+), 39 deletions(-)

diff --git a/include/lexertl/debug.hpp b/include/lexertl/debug.hpp
index 86ff53d..006dbd9 100644
--- a/include/lexertl/debug.hpp
+++ b/include/lexertl/debug.hpp
@@ -20,6 +20,7 @@
 #include <ostream>
 #include <sstream>
 #include <string>
+#include <vector>
 
 namespace lexertl
 {
@@ -49,14 +50,18 @@ namespace lexertl
             output_states(rules_, stream_);
             preprocess_macros(macros_, macro_sizes_);
             insert_macros(all_regexes_, macro_sizes_, macros_);
-            macro_sizes_.clear();
-            postprocess_macros(macros_);
+            insert_macros(macros_, macro_sizes_);
+            postprocess_macros(macros_, macro_sizes_);
 
             perc_perc(stream_);
             stream_ << std::endl;
 
-            for (const auto& pair_ : macros_)
+            // Macros only refer to shorter ones
+            for (auto size_iter_ = macro_sizes_.crbegin();
+                size_iter_ != macro_sizes_.crend(); ++size_iter_)
             {
+                const auto& pair_ = *macros_.find(size_iter_->second);
+
                 stream_ << pair_.first << static_cast<char_type>(' ');
 
                 for (const auto& token_ : pair_.second)
@@ -202,6 +207,7 @@ namespace lexertl
         using string_token = typename dfa_state::string_token;
         using stringstream = std::basic_stringstream<char_type>;
         using token = detail::basic_re_token<char_type, char_type>;
+        using token_vector = std::vector<token>;
         using token_vector_vector_vector =
             typename rules::token_vector_vector_vector;
 
@@ -259,50 +265,92 @@ namespace lexertl
                 for (auto& regex_ : regexes_)
                 {
                     for (const auto& macro_ : macro_sizes_)
-                    {
-                        auto macro_iter_ = macros_.find(macro_.second);
+                        insert_macro(regex_, macro_.second,
+                            macros_.find(macro_.second)->second);
+                }
+            }
+        }
 
-                        // An empty macro is found everywhere
-                        if (macro_iter_ != macros_.cend() && macro_.first > 0)
-                        {
-                            auto iter_ = std::search(regex_.begin(),
-                                regex_.end(), macro_iter_->second.begin(),
-                                macro_iter_->second.end());
-
-                            while (iter_ != regex_.end())
-                            {
-                                token token_(detail::token_type::MACRO);
-
-                                token_._extra = static_cast<char_type>('{') +
-                                    macro_.second +
-                                    static_cast<char_type>('}');
-                                *iter_ = token_;
-
-                                if (macro_.first > 1)
-                                {
-                                    ++iter_;
-                                    regex_.erase(iter_,
-                                        iter_ + (macro_.first - 1));
-                                }
-
-                                iter_ = std::search(regex_.begin(),
-                                    regex_.end(), macro_iter_->second.begin(),
-                                    macro_iter_->second.end());
-                            }
-                        }
-                    }
+        // From the longest to the shortest, so that the macros that are
+        // inserted are still complete.
+        static void insert_macros(macro_map& macros_,
+            const macro_size_map& macro_sizes_)
+        {
+            for (const auto& regex_ : macro_sizes_)
+            {
+                for (auto iter_ = macro_sizes_.upper_bound(regex_.first);
+                    iter_ != macro_sizes_.end(); ++iter_)
+                {
+                    insert_macro(macros_[regex_.second], iter_->second,
+                        macros_[iter_->second]);
                 }
             }
         }
 
-        static void postprocess_macros(macro_map& macros_)
+        static void insert_macro(token_vector& regex_, const string& name_,
+            const token_vector& macro_)
         {
-            for (auto& pair_ : macros_)
+            // An empty macro is found everywhere
+            if (macro_.empty())
+                return;
+
+            // Skip over BEGIN
+            for (std::size_t idx_ = 1;
+                idx_ + macro_.size() < regex_.size(); ++idx_)
             {
-                if (pair_.second.size() > 1)
+                auto iter_ = regex_.begin() + idx_;
+                const token_vector tokens_ = expand(macro_, idx_ == 1,
+                    idx_ + macro_.size() + 1 == regex_.size());
+
+                if (std::equal(tokens_.begin(), tokens_.end(), iter_))
                 {
-                    pair_.second.erase(pair_.second.begin());
-                    pair_.second.pop_back();
+                    token token_(detail::token_type::MACRO);
+
+                    token_._extra = static_cast<char_type>('{') +
+                        name_ + static_cast<char_type>('}');
+                    *iter_ = token_;
+                    ++iter_;
+                    regex_.erase(iter_, iter_ + (macro_.size() - 1));
+                }
+            }
+        }
+
+        // The tokens of a macro when it is used in a regex.
+        // See basic_rules::process_macro().
+        static token_vector expand(const token_vector& macro_,
+            const bool first_, const bool last_)
+        {
+            const std::size_t offset_ = macro_.size() > 1 ? 1 : 0;
+            token_vector ret_ = macro_;
+            token& front_ = *(ret_.begin() + offset_);
+            token& back_ = *(ret_.end() - 1 - offset_);
+
+            if (front_._type == detail::token_type::BOL && !first_)
+            {
+                front_._type = detail::token_type::CHARSET;
+                front_._str.insert(static_cast<char_type>('^'));
+            }
+
+            if (back_._type == detail::token_type::EOL && !last_)
+            {
+                back_._type = detail::token_type::CHARSET;
+                back_._str.insert(static_cast<char_type>('$'));
+            }
+
+            return ret_;
+        }
+
+        static void postprocess_macros(macro_map& macros_,
+            const macro_size_map& macro_sizes_)
+        {
+            for (const auto& pair_ : macro_sizes_)
+            {
+                if (pair_.first > 1)
+                {
+                    auto& tokens_ = macros_[pair_.second];
+
+                    tokens_.erase(tokens_.begin());
+                    tokens_.pop_back();
                 }
             }
         }
-- 
2.43.0


From 7466c0176f9a3f42cd49f6911310605797993946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:46 +0000
Subject: [PATCH 54/64] fix: end lines in dumps to streams of char32_t

---
 include/lexertl/debug.hpp | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/include/lexertl/debug.hpp b/include/lexertl/debug.hpp
index 006dbd9..d46f060 100644
--- a/include/lexertl/debug.hpp
+++ b/include/lexertl/debug.hpp
@@ -54,7 +54,7 @@ namespace lexertl
             postprocess_macros(macros_, macro_sizes_);
 
             perc_perc(stream_);
-            stream_ << std::endl;
+            endl(stream_);
 
             // Macros only refer to shorter ones
             for (auto size_iter_ = macro_sizes_.crbegin();
@@ -69,11 +69,11 @@ namespace lexertl
                     dump_token(token_, stream_);
                 }
 
-                stream_ << std::endl;
+                endl(stream_);
             }
 
             perc_perc(stream_);
-            stream_ << std::endl;
+            endl(stream_);
 
             for (std::size_t state_ = 0, states_ = all_ids_.size();
                 state_ < states_; ++state_)
@@ -143,13 +143,13 @@ namespace lexertl
 
                     stream_ << static_cast<char_type>(' ') <<
                         static_cast<char_type>('}');
-                    stream_ << std::endl;
+                    endl(stream_);
                     ++ids_iter_;
                 }
             }
 
             perc_perc(stream_);
-            stream_ << std::endl;
+            endl(stream_);
         }
 
         static void dump(const sm& sm_, rules& rules_, ostream& stream_)
@@ -175,8 +175,9 @@ namespace lexertl
                 dfa_ < dfas_; ++dfa_)
             {
                 lexer_state(stream_);
-                stream_ << rules_.state(static_cast<id_type>(dfa_)) <<
-                    std::endl << std::endl;
+                stream_ << rules_.state(static_cast<id_type>(dfa_));
+                endl(stream_);
+                endl(stream_);
 
                 dump_ex(csm_._sm_vector[dfa_], stream_);
             }
@@ -189,7 +190,8 @@ namespace lexertl
             {
                 lexer_state(stream_);
                  stream_num<std::size_t>(dfa_, stream_);
-                stream_ << std::endl << std::endl;
+                endl(stream_);
+                endl(stream_);
 
                 dump_ex(csm_._sm_vector[dfa_], stream_);
             }
@@ -227,7 +229,7 @@ namespace lexertl
                         rules_.state(static_cast<id_type>(i_));
                 }
 
-                stream_ << std::endl;
+                endl(stream_);
             }
         }
 
@@ -367,7 +369,7 @@ namespace lexertl
 
                 state(stream_);
                 stream_num(i_, stream_);
-                stream_ << std::endl;
+                endl(stream_);
 
                 if (state_._end_state)
                 {
@@ -393,14 +395,14 @@ namespace lexertl
                     dfa(stream_);
                     stream_num(static_cast<std::size_t>(state_._next_dfa),
                         stream_);
-                    stream_ << std::endl;
+                    endl(stream_);
                 }
 
                 if (i_ == 0 && bol_index_ != char_state_machine::npos())
                 {
                     bol(stream_);
                     stream_num(static_cast<std::size_t>(bol_index_), stream_);
-                    stream_ << std::endl;
+                    endl(stream_);
                 }
 
                 if (state_._eol_index != char_state_machine::npos())
@@ -408,13 +410,13 @@ namespace lexertl
                     eol(stream_);
                     stream_num(static_cast<std::size_t>(state_._eol_index),
                         stream_);
-                    stream_ << std::endl;
+                    endl(stream_);
                 }
 
                 for (const auto& tran_ : state_._transitions)
                     dump_transition(tran_, stream_);
 
-                stream_ << std::endl;
+                endl(stream_);
             }
         }
 
@@ -425,7 +427,7 @@ namespace lexertl
             dump_charset(tran_.second, stream_);
             goes_to(stream_);
             stream_num(static_cast<std::size_t>(tran_.first), stream_);
-            stream_ << std::endl;
+            endl(stream_);
         }
 
         static void dump_token(const token& token_, ostream& stream_)
@@ -627,6 +629,13 @@ namespace lexertl
             }
         }
 
+        // std::endl requires a facet that not all streams of char32_t have.
+        static void endl(ostream& stream_)
+        {
+            stream_ << static_cast<char_type>('\n');
+            stream_.flush();
+        }
+
         static void perc_perc(std::ostream& stream_)
         {
             stream_ << "%%";
-- 
2.43.0


From 698fc4f4a82b227b75d9ec4ade2c3e425441d8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:30 +0000
Subject: [PATCH 55/64] fix: stream_num() heeds std::hex for char32_t

---
 include/lexertl/stream_num.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/lexertl/stream_num.hpp b/include/lexertl/stream_num.hpp
index 4dc4c81..6d6247a 100644
--- a/include/lexertl/stream_num.hpp
+++ b/include/lexertl/stream_num.hpp
@@ -32,6 +32,7 @@ namespace lexertl
         std::stringstream css_;
         std::string count_;
 
+        css_.flags(ss_.flags());
         css_ << num_;
         count_ = css_.str();
 
-- 
2.43.0


From a9b4b7269da93881de4858d61075d1c2189810e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:24 +0000
Subject: [PATCH 56/64] fix: split alternatives inside redundant brackets too

---
 include/lexertl/rules.hpp | 43 ++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index a26dd40..1885d7c 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -958,28 +958,16 @@ namespace lexertl
                 case detail::token_type::OR:
                     if (!parens_)
                     {
-                        auto& new_tokens_ = ret_.emplace_back();
-
-                        new_tokens_.emplace_back();
-                        new_tokens_.insert(new_tokens_.end(),
-                            tokens_.begin() + start_,
-                            tokens_.begin() + end_);
-                        new_tokens_.emplace_back(detail::token_type::END);
+                        append_split(tokens_.begin() + start_,
+                            tokens_.begin() + end_, ret_);
                         start_ = end_ + 1;
                     }
 
                     break;
                 case detail::token_type::END:
-                {
-                    auto& new_tokens_ = ret_.emplace_back();
-
-                    new_tokens_.emplace_back();
-                    new_tokens_.insert(new_tokens_.end(),
-                        tokens_.begin() + start_,
-                        tokens_.begin() + end_);
-                    new_tokens_.emplace_back(detail::token_type::END);
+                    append_split(tokens_.begin() + start_,
+                        tokens_.begin() + end_, ret_);
                     break;
-                }
                 default:
                     break;
                 }
@@ -990,6 +978,29 @@ namespace lexertl
             return ret_;
         }
 
+        void append_split(typename token_vector::const_iterator iter_,
+            typename token_vector::const_iterator end_,
+            token_vector_vector& ret_)
+        {
+            token_vector tokens_(1);
+
+            tokens_.insert(tokens_.end(), iter_, end_);
+            tokens_.emplace_back(detail::token_type::END);
+
+            const std::size_t size_ = tokens_.size();
+
+            strip_parens(tokens_);
+
+            if (tokens_.size() == size_)
+                ret_.push_back(std::move(tokens_));
+            else
+            {
+                // There can be another | inside the brackets
+                for (auto& new_tokens_ : split(tokens_))
+                    ret_.push_back(std::move(new_tokens_));
+            }
+        }
+
         void reverse(token_vector& vector_) const
         {
             token_vector new_vector_(vector_.size(), token());
-- 
2.43.0


From e605e3562ac3e9e9691d09d1b560759351528b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 57/64] fix: escape characters in dot dumps twice, and all of
 them

---
 include/lexertl/dot.hpp | 85 +++++------------------------------------
 1 file changed, 10 insertions(+), 75 deletions(-)

diff --git a/include/lexertl/dot.hpp b/include/lexertl/dot.hpp
index 4e54763..2f5221e 100644
--- a/include/lexertl/dot.hpp
+++ b/include/lexertl/dot.hpp
@@ -70,9 +70,9 @@ namespace lexertl
         {
             stringstream namestream_;
 
-            namestream_ << 'L';
+            text("L", namestream_);
             stream_num(dfa_id_, namestream_);
-            namestream_ << "_S";
+            text("_S", namestream_);
             stream_num(state_id_, namestream_);
             return namestream_.str();
         }
@@ -80,85 +80,20 @@ namespace lexertl
         // Escape control characters twice. This is necessary when
         // expressing character sets attached as to DOT nodes as
         // labels.
-        static string double_escape_char(const id_type ch_)
+        static string double_escape_char
+        (const typename string_token::index_type ch_)
         {
-            stringstream out_;
+            string out_;
 
-            switch (ch_)
+            for (const char_type c_ : string_token::escape_char(ch_))
             {
-            case '\0':
-                out_ << '\\';
-                out_ << '\\';
-                out_ << '0';
-                break;
-            case '\a':
-                out_ << '\\';
-                out_ << '\\';
-                out_ << 'a';
-                break;
-            case '\b':
-                out_ << '\\';
-                out_ << '\\';
-                out_ << 'b';
-                break;
-            case '\f':
-                out_ << '\\';
-                out_ << '\\';
-                out_ << 'f';
-                break;
-            case '\n':
-                out_ << '\\';
-                out_ << '\\';
-                out_ << 'n';
-                break;
-            case '\r':
-                out_ << '\\';
-                out_ << '\\';
-                out_ << 'r';
-                break;
-            case '\t':
-                out_ << '\\';
-                out_ << '\\';
-                out_ << 't';
-                break;
-            case '\v':
-                out_ << '\\';
-                out_ << '\\';
-                out_ << 'v';
-                break;
-            case '\\':
-                out_ << '\\';
-                out_ << '\\';
-                break;
-            case '"':
-                out_ << '\\';
-                out_ << '\\';
-                out_ << '"';
-                break;
-            case '\'':
-                out_ << '\\';
-                out_ << '\\';
-                out_ << '\'';
-                break;
-            default:
-            {
-                if (ch_ < 32 || ch_ > 126)
-                {
-                    out_ << '\\';
-                    out_ << 'x';
-                    out_ << std::hex;
-                    stream_num(static_cast<std::size_t>(ch_), out_);
-                }
-                else
-                {
-                    out_ << char_type(ch_);
-                }
+                if (c_ == '\\')
+                    out_ += c_;
 
-                break;
-            }
+                out_ += c_;
             }
 
-            return out_.str();
+            return out_;
         }
 
         // Internal function actually performing the work of dumping the
-- 
2.43.0


From 05c69dfe7ee092ea8b594737b243af2cec46572b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 58/64] fix: dot dumps of machines of wide characters

---
 include/lexertl/dot.hpp | 83 ++++++++++++++++++++++++++++-------------
 1 file changed, 57 insertions(+), 26 deletions(-)

diff --git a/include/lexertl/dot.hpp b/include/lexertl/dot.hpp
index 2f5221e..338eb12 100644
--- a/include/lexertl/dot.hpp
+++ b/include/lexertl/dot.hpp
@@ -104,7 +104,7 @@ namespace lexertl
         {
             const std::size_t states_ = dfa_._states.size();
 
-            stream_ << std::endl;
+            endl(stream_);
 
             for (id_type i_ = 0; i_ < states_; ++i_)
             {
@@ -113,33 +113,39 @@ namespace lexertl
 
                 if (i_ == 0)
                 {
-                    const char* name_ = rules_.state(dfa_id_);
+                    const char_type* name_ = rules_.state(dfa_id_);
 
-                    stream_ << "    " << name <<
-                        " [shape = circle, xlabel=\"";
+                    text("    ", stream_);
+                    stream_ << name;
+                    text(" [shape = circle, xlabel=\"", stream_);
 
                     if (name_)
                         stream_ << name_;
                     else
-                        stream_ << dfa_id_;
+                        stream_num(dfa_id_, stream_);
 
-                    stream_ << "\"];" << std::endl;
+                    text("\"];", stream_);
+                    endl(stream_);
                 }
                 else if (state_._end_state)
                 {
-                    stream_ << "    " << name <<
-                        " [shape = doublecircle, xlabel=\"id = ";
+                    text("    ", stream_);
+                    stream_ << name;
+                    text(" [shape = doublecircle, xlabel=\"id = ", stream_);
                     stream_num(static_cast<std::size_t>(state_._id), stream_);
-                    stream_ << "\"];" << std::endl;
+                    text("\"];", stream_);
+                    endl(stream_);
                 }
                 else
                 {
-                    stream_ << "    " << name << " [shape = circle];" <<
-                        std::endl;
+                    text("    ", stream_);
+                    stream_ << name;
+                    text(" [shape = circle];", stream_);
+                    endl(stream_);
                 }
             }
 
-            stream_ << std::endl;
+            endl(stream_);
 
             for (id_type i_ = 0; i_ < states_; ++i_)
             {
@@ -152,9 +158,13 @@ namespace lexertl
                 for (; iter_ != end_; ++iter_)
                 {
                     const string dst_name = node_name(dfa_id_, iter_->first);
-                    stream_ << "    " << src_name << " -> " << dst_name <<
-                        R"( [label = <<TABLE BORDER="0" )"
-                        R"(CELLBORDER="0"><TR><TD>)";
+
+                    text("    ", stream_);
+                    stream_ << src_name;
+                    text(" -> ", stream_);
+                    stream_ << dst_name;
+                    text(R"( [label = <<TABLE BORDER="0" )"
+                        R"(CELLBORDER="0"><TR><TD>)", stream_);
 
                     string_token token_ = iter_->second;
 
@@ -168,13 +178,19 @@ namespace lexertl
 
                     dump_ranges(token_, stream_);
                     close_bracket(stream_);
-                    stream_ << "</TD></TR></TABLE>>];" << std::endl;
+                    text("</TD></TR></TABLE>>];", stream_);
+                    endl(stream_);
                 }
 
                 if (dfas_ > 1 && state_._end_state) {
                     const string dst_name = node_name(state_._next_dfa, 0);
-                    stream_ << "    " << src_name << " -> " << dst_name
-                        << " [style = \"dashed\"];" << std::endl;
+
+                    text("    ", stream_);
+                    stream_ << src_name;
+                    text(" -> ", stream_);
+                    stream_ << dst_name;
+                    text(" [style = \"dashed\"];", stream_);
+                    endl(stream_);
                 }
             }
         }
@@ -188,7 +204,7 @@ namespace lexertl
                 if (range.first == '^' ||
                     range.first == ']')
                 {
-                    stream_ << R"(\\)";
+                    text(R"(\\)", stream_);
                 }
 
                 chars_ = double_escape_char(range.first);
@@ -203,7 +219,7 @@ namespace lexertl
                     if (range.second == '^' ||
                         range.second == ']')
                     {
-                        stream_ << R"(\\)";
+                        text(R"(\\)", stream_);
                     }
 
                     chars_ += double_escape_char(range.second);
@@ -215,30 +231,45 @@ namespace lexertl
 
         static void header(ostream& stream_)
         {
-            stream_ << "digraph DFAs {" << std::endl;
-            stream_ << "    rankdir = LR;" << std::endl;
+            text("digraph DFAs {", stream_);
+            endl(stream_);
+            text("    rankdir = LR;", stream_);
+            endl(stream_);
         }
 
         static void trailer(ostream& stream_)
         {
-            stream_ << "}" << std::endl;
+            text("}", stream_);
+            endl(stream_);
         }
 
         static void open_bracket(ostream& stream_)
         {
-            stream_ << "[";
+            text("[", stream_);
         }
 
         static void negated(ostream& stream_)
         {
-            stream_ << "^";
+            text("^", stream_);
         }
 
         static void close_bracket(ostream& stream_)
         {
-            stream_ << "]";
+            text("]", stream_);
         }
 
+        // Streams of char32_t do not always have the facets to convert char.
+        static void text(const char* str_, ostream& stream_)
+        {
+            for (; *str_; ++str_)
+                stream_ << static_cast<char_type>(*str_);
+        }
+
+        static void endl(ostream& stream_)
+        {
+            stream_ << static_cast<char_type>('\n');
+            stream_.flush();
+        }
     };
 
     using dot = basic_dot<basic_state_machine<char>, char>;
-- 
2.43.0


From 00ba225254f75e60f199b5f119628f64a6b339a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:15 +0000
Subject: [PATCH 59/64] fix: no edge to a state that does not exist for rules
 that pop in dot dumps

---
 include/lexertl/dot.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/dot.hpp b/include/lexertl/dot.hpp
index 338eb12..b75dc42 100644
--- a/include/lexertl/dot.hpp
+++ b/include/lexertl/dot.hpp
@@ -182,7 +182,10 @@ namespace lexertl
                     endl(stream_);
                 }
 
-                if (dfas_ > 1 && state_._end_state) {
+                // The state after a pop is not known
+                if (dfas_ > 1 && state_._end_state &&
+                    state_._push_pop_dfa != dfa_state::push_pop_dfa::pop_dfa)
+                {
                     const string dst_name = node_name(state_._next_dfa, 0);
 
                     text("    ", stream_);
-- 
2.43.0


From 232d6c6827bdb91e4b3817360585cce4a6335187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:15 +0000
Subject: [PATCH 60/64] fix: escape <, > and & in dot dumps

---
 include/lexertl/dot.hpp | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/include/lexertl/dot.hpp b/include/lexertl/dot.hpp
index b75dc42..3ebf01b 100644
--- a/include/lexertl/dot.hpp
+++ b/include/lexertl/dot.hpp
@@ -87,15 +87,39 @@ namespace lexertl
 
             for (const char_type c_ : string_token::escape_char(ch_))
             {
-                if (c_ == '\\')
+                // Labels are HTML
+                switch (c_)
+                {
+                case '<':
+                    out_ += html("&lt;");
+                    break;
+                case '>':
+                    out_ += html("&gt;");
+                    break;
+                case '&':
+                    out_ += html("&amp;");
+                    break;
+                case '\\':
                     out_ += c_;
-
-                out_ += c_;
+                    out_ += c_;
+                    break;
+                default:
+                    out_ += c_;
+                    break;
+                }
             }
 
             return out_;
         }
 
+        static string html(const char* str_)
+        {
+            stringstream out_;
+
+            text(str_, out_);
+            return out_.str();
+        }
+
         // Internal function actually performing the work of dumping the
         // state machine in DOT.
         static void dump_ex(id_type dfa_id_,
-- 
2.43.0


From 2aaeb97fd7f3f533a20944a529a594e8ab43a804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:15 +0000
Subject: [PATCH 61/64] fix: escape -, ^ and ] where they stand in dot dumps

---
 include/lexertl/dot.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/lexertl/dot.hpp b/include/lexertl/dot.hpp
index 3ebf01b..a4e171a 100644
--- a/include/lexertl/dot.hpp
+++ b/include/lexertl/dot.hpp
@@ -228,7 +228,7 @@ namespace lexertl
 
             for (const auto& range : token_._ranges)
             {
-                if (range.first == '^' ||
+                if (range.first == '-' || range.first == '^' ||
                     range.first == ']')
                 {
                     text(R"(\\)", stream_);
@@ -243,10 +243,10 @@ namespace lexertl
                         chars_ += '-';
                     }
 
-                    if (range.second == '^' ||
+                    if (range.second == '-' || range.second == '^' ||
                         range.second == ']')
                     {
-                        text(R"(\\)", stream_);
+                        chars_ += html(R"(\\)");
                     }
 
                     chars_ += double_escape_char(range.second);
-- 
2.43.0


From 9677420720fd0768c0c7a430c073a32ffd088b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:15 +0000
Subject: [PATCH 62/64] fix: keep digits apart from the numeric escapes in dot
 dumps

---
 include/lexertl/dot.hpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/lexertl/dot.hpp b/include/lexertl/dot.hpp
index a4e171a..85e6eb1 100644
--- a/include/lexertl/dot.hpp
+++ b/include/lexertl/dot.hpp
@@ -81,11 +81,26 @@ namespace lexertl
         // expressing character sets attached as to DOT nodes as
         // labels.
         static string double_escape_char
-        (const typename string_token::index_type ch_)
+        (const typename string_token::index_type ch_, bool& number_)
         {
+            string escape_ = string_token::escape_char(ch_);
             string out_;
 
-            for (const char_type c_ : string_token::escape_char(ch_))
+            // \0 and \x take all the digits that follow
+            if (number_ && ((ch_ >= '0' && ch_ <= '9') ||
+                (ch_ >= 'A' && ch_ <= 'F') || (ch_ >= 'a' && ch_ <= 'f')))
+            {
+                stringstream ss_;
+
+                ss_ << std::hex;
+                stream_num(static_cast<std::size_t>(ch_), ss_);
+                escape_ = html(R"(\x)") + ss_.str();
+            }
+
+            number_ = escape_.size() > 1 &&
+                (escape_[1] == '0' || escape_[1] == 'x');
+
+            for (const char_type c_ : escape_)
             {
                 // Labels are HTML
                 switch (c_)
@@ -225,6 +240,7 @@ namespace lexertl
         static void dump_ranges(const string_token& token_, ostream& stream_)
         {
             string chars_;
+            bool number_ = false;
 
             for (const auto& range : token_._ranges)
             {
@@ -234,13 +250,14 @@ namespace lexertl
                     text(R"(\\)", stream_);
                 }
 
-                chars_ = double_escape_char(range.first);
+                chars_ = double_escape_char(range.first, number_);
 
                 if (range.first != range.second)
                 {
                     if (range.first + 1 < range.second)
                     {
                         chars_ += '-';
+                        number_ = false;
                     }
 
                     if (range.second == '-' || range.second == '^' ||
@@ -249,7 +266,7 @@ namespace lexertl
                         chars_ += html(R"(\\)");
                     }
 
-                    chars_ += double_escape_char(range.second);
+                    chars_ += double_escape_char(range.second, number_);
                 }
 
                 stream_ << chars_;
-- 
2.43.0


From 184e1cea4ce00e3d253c3ef6808f8cd6d8d3518e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:15 +0000
Subject: [PATCH 63/64] fix: show that the first state matches in dot dumps

---
 include/lexertl/dot.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/dot.hpp b/include/lexertl/dot.hpp
index 85e6eb1..b4df309 100644
--- a/include/lexertl/dot.hpp
+++ b/include/lexertl/dot.hpp
@@ -156,13 +156,22 @@ namespace lexertl
 
                     text("    ", stream_);
                     stream_ << name;
-                    text(" [shape = circle, xlabel=\"", stream_);
+                    text(state_._end_state ?
+                        " [shape = doublecircle, xlabel=\"" :
+                        " [shape = circle, xlabel=\"", stream_);
 
                     if (name_)
                         stream_ << name_;
                     else
                         stream_num(dfa_id_, stream_);
 
+                    if (state_._end_state)
+                    {
+                        text(", id = ", stream_);
+                        stream_num(static_cast<std::size_t>(state_._id),
+                            stream_);
+                    }
+
                     text("\"];", stream_);
                     endl(stream_);
                 }
-- 
2.43.0


From 95000ae887e6fc97626893bec4fb7bb9db43510e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:41 +0000
Subject: [PATCH 64/64] fix: write 8 bit numbers as numbers in dumps

---
 include/lexertl/stream_num.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/lexertl/stream_num.hpp b/include/lexertl/stream_num.hpp
index 6d6247a..f676b73 100644
--- a/include/lexertl/stream_num.hpp
+++ b/include/lexertl/stream_num.hpp
@@ -15,13 +15,15 @@ namespace lexertl
     template<typename T>
     void stream_num(const T num_, std::ostream& ss_)
     {
-        ss_ << num_;
+        // Promoted as an 8 bit number would be a character
+        ss_ << +num_;
     }
 
     template<typename T>
     void stream_num(const T num_, std::wostream& ss_)
     {
-        ss_ << num_;
+        // Promoted as an 8 bit number would be a character
+        ss_ << +num_;
     }
 
     // MSVC doesn't support streaming integers etc to
@@ -33,7 +35,7 @@ namespace lexertl
         std::string count_;
 
         css_.flags(ss_.flags());
-        css_ << num_;
+        css_ << +num_;
         count_ = css_.str();
 
         for (char c_ : count_)
-- 
2.43.0

