From a416615528dfd738720aecf453193427328ead5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:49 +0000
Subject: [PATCH 01/30] fix: do not index the charset mapping with anchor
 tokens when pruning EOL clashes

---
 include/lexertl/generator.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index 0de20b0..23bb056 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -312,7 +312,7 @@ namespace lexertl
                         prune_NL(iter_, end_, followpos_, cr_id_, nl_id_,
                             set_mapping_);
                     }
-                    else
+                    else if (is_charset(node_))
                     {
                         prune_eol(iter_, end_, followpos_, cr_id_, nl_id_,
                             set_mapping_);
@@ -321,6 +321,15 @@ namespace lexertl
             }
         }
 
+        // Only charset tokens are indexes into set_mapping_.
+        static bool is_charset(observer_ptr<const node> node_)
+        {
+            return !node_->end_state() &&
+                node_->token() != parser::bol_token() &&
+                node_->token() != parser::eol_token() &&
+                node_->token() != node::null_token();
+        }
+
         static void prune_NL(typename node_vector::iterator& iter_,
             typename node_vector::iterator& end_,
             node_vector& followpos_,
@@ -336,7 +345,7 @@ namespace lexertl
             {
                 node* node_ = *nl_iter_;
 
-                if (node_->end_state())
+                if (!is_charset(node_))
                 {
                     ++nl_iter_;
                     continue;
@@ -351,7 +360,7 @@ namespace lexertl
 
                     for (auto cr_node_ : cr_followpos_)
                     {
-                        if (cr_node_->end_state())
+                        if (!is_charset(cr_node_))
                             continue;
 
                         if (const auto& nl_set_ =
@@ -431,7 +440,7 @@ namespace lexertl
 
                 for (auto cr_node_ : cr_followpos_)
                 {
-                    if (cr_node_->end_state())
+                    if (!is_charset(cr_node_))
                         continue;
 
                     const auto& cr_set_ = set_mapping_[cr_node_->token()];
-- 
2.43.0


From 72143d8b300959655099af11e92b297c2cab4c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:38 +0000
Subject: [PATCH 02/30] fix: give each state its own copy of the EOL state when
 adding CR/NL transitions

---
 include/lexertl/generator.hpp | 107 +++++++++++++++-------------------
 1 file changed, 48 insertions(+), 59 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index 23bb056..3b1c808 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -18,6 +18,7 @@
 #include "runtime_error.hpp"
 #include "state_machine.hpp"
 
+#include <algorithm>
 #include <list>
 #include <memory>
 #include <set>
@@ -615,32 +616,26 @@ namespace lexertl
             {
                 observer_ptr<id_type> ptr_ = &dfa_.front() +
                     eol_ * dfa_alphabet_;
-                const id_type eol_state_ = ptr_[*state_index::eol];
                 const id_type cr_state_ =
                     ptr_[cr_id_ + *state_index::transitions];
                 const id_type nl_state_ =
                     ptr_[nl_id_ + *state_index::transitions];
 
-                if (cr_state_)
-                {
-                    ptr_[*state_index::transitions + cr_id_] = 0;
-                    ptr_ = &dfa_.front() + eol_state_ * dfa_alphabet_;
+                if (!cr_state_ && !nl_state_)
+                    continue;
 
-                    if (ptr_[*state_index::transitions + cr_id_] == 0)
-                    {
-                        ptr_[*state_index::transitions + cr_id_] = cr_state_;
-                    }
-                }
+                ptr_[*state_index::transitions + cr_id_] = 0;
+                ptr_[*state_index::transitions + nl_id_] = 0;
+                ptr_ = copy_eol_state(eol_, dfa_, dfa_alphabet_);
 
-                if (nl_state_)
+                if (ptr_[*state_index::transitions + cr_id_] == 0)
                 {
-                    ptr_[*state_index::transitions + nl_id_] = 0;
-                    ptr_ = &dfa_.front() + eol_state_ * dfa_alphabet_;
+                    ptr_[*state_index::transitions + cr_id_] = cr_state_;
+                }
 
-                    if (ptr_[*state_index::transitions + nl_id_] == 0)
-                    {
-                        ptr_[*state_index::transitions + nl_id_] = nl_state_;
-                    }
+                if (ptr_[*state_index::transitions + nl_id_] == 0)
+                {
+                    ptr_[*state_index::transitions + nl_id_] = nl_state_;
                 }
             }
         }
@@ -651,17 +646,15 @@ namespace lexertl
             typename internals::id_type_vector& dfa_,
             const std::size_t dfa_alphabet_, const std::true_type&)
         {
-            std::size_t i_ = 0;
-
             for (const auto& eol_ : eol_set_)
             {
                 observer_ptr<id_type> ptr_ = &dfa_.front() +
                     eol_ * dfa_alphabet_;
-                const id_type eol_state_ = ptr_[*state_index::eol];
                 id_type cr_state_ = 0;
                 id_type nl_state_ = 0;
 
-                for (; i_ < (sm_traits::char_24_bit ? 2 : 1); ++i_)
+                for (std::size_t i_ = 0;
+                    i_ < (sm_traits::char_24_bit ? 2 : 1); ++i_)
                 {
                     ptr_ = &dfa_.front() +
                         ptr_[*state_index::transitions + zero_id_] *
@@ -669,57 +662,53 @@ namespace lexertl
                 }
 
                 cr_state_ = ptr_[*state_index::transitions + cr_id_];
+                nl_state_ = ptr_[*state_index::transitions + nl_id_];
 
-                if (cr_state_)
-                {
-                    ptr_ = &dfa_.front() + eol_state_ * dfa_alphabet_;
+                if (!cr_state_ && !nl_state_)
+                    continue;
 
-                    if (ptr_[*state_index::transitions + zero_id_] != 0)
-                        continue;
+                ptr_ = copy_eol_state(eol_, dfa_, dfa_alphabet_);
 
-                    ptr_[*state_index::transitions + zero_id_] =
-                        static_cast<id_type>(dfa_.size() / dfa_alphabet_);
-                    dfa_.resize(dfa_.size() + dfa_alphabet_, 0);
-
-                    for (i_ = 0; i_ < (sm_traits::char_24_bit ? 1 : 0); ++i_)
-                    {
-                        ptr_ = &dfa_.front() + dfa_.size() - dfa_alphabet_;
-                        ptr_[*state_index::transitions + zero_id_] =
-                            static_cast<id_type>(dfa_.size() / dfa_alphabet_);
-                        dfa_.resize(dfa_.size() + dfa_alphabet_, 0);
-                    }
-
-                    ptr_ = &dfa_.front() + dfa_.size() - dfa_alphabet_;
-                    ptr_[*state_index::transitions + cr_id_] = cr_state_;
-                }
+                if (ptr_[*state_index::transitions + zero_id_] != 0)
+                    continue;
 
-                nl_state_ = ptr_[*state_index::transitions + nl_id_];
+                ptr_[*state_index::transitions + zero_id_] =
+                    static_cast<id_type>(dfa_.size() / dfa_alphabet_);
+                dfa_.resize(dfa_.size() + dfa_alphabet_, 0);
 
-                if (nl_state_)
+                for (std::size_t i_ = 0;
+                    i_ < (sm_traits::char_24_bit ? 1 : 0); ++i_)
                 {
-                    ptr_ = &dfa_.front() + eol_state_ * dfa_alphabet_;
-
-                    if (ptr_[*state_index::transitions + zero_id_] != 0)
-                        continue;
-
+                    ptr_ = &dfa_.front() + dfa_.size() - dfa_alphabet_;
                     ptr_[*state_index::transitions + zero_id_] =
                         static_cast<id_type>(dfa_.size() / dfa_alphabet_);
                     dfa_.resize(dfa_.size() + dfa_alphabet_, 0);
-
-                    for (i_ = 0; i_ < (sm_traits::char_24_bit ? 1 : 0); ++i_)
-                    {
-                        ptr_ = &dfa_.front() + dfa_.size() - dfa_alphabet_;
-                        ptr_[*state_index::transitions + zero_id_] =
-                            static_cast<id_type>(dfa_.size() / dfa_alphabet_);
-                        dfa_.resize(dfa_.size() + dfa_alphabet_, 0);
-                    }
-
-                    ptr_ = &dfa_.front() + dfa_.size() - dfa_alphabet_;
-                    ptr_[*state_index::transitions + nl_id_] = nl_state_;
                 }
+
+                ptr_ = &dfa_.front() + dfa_.size() - dfa_alphabet_;
+                ptr_[*state_index::transitions + cr_id_] = cr_state_;
+                ptr_[*state_index::transitions + nl_id_] = nl_state_;
             }
         }
 
+        // The EOL successor can be shared by several states, so any state
+        // that adds CR or NL transitions to it needs a copy of its own.
+        static observer_ptr<id_type> copy_eol_state(const id_type state_,
+            typename internals::id_type_vector& dfa_,
+            const std::size_t dfa_alphabet_)
+        {
+            const std::size_t src_ = dfa_alphabet_ *
+                dfa_[state_ * dfa_alphabet_ + *state_index::eol];
+            const std::size_t dest_ = dfa_.size();
+
+            dfa_.resize(dest_ + dfa_alphabet_, 0);
+            std::copy(dfa_.begin() + src_,
+                dfa_.begin() + src_ + dfa_alphabet_, dfa_.begin() + dest_);
+            dfa_[state_ * dfa_alphabet_ + *state_index::eol] =
+                static_cast<id_type>(dest_ / dfa_alphabet_);
+            return &dfa_.front() + dest_;
+        }
+
         // char_state_machine version
         static void append_dfa(const charset_list& charset_list_,
             const internals& internals_, sm& sm_, const id_type dfa_index_,
-- 
2.43.0


From e0d03642e57bf99cc64e72de63cb04f8db6f000e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:38 +0000
Subject: [PATCH 03/30] fix: do not prune an unrelated node after pruning a CR
 NL clash

---
 include/lexertl/generator.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index 3b1c808..dc98d3b 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -358,6 +358,7 @@ namespace lexertl
                 {
                     const auto& cr_followpos_ =
                         node_->followpos();
+                    bool erased_ = false;
 
                     for (auto cr_node_ : cr_followpos_)
                     {
@@ -384,16 +385,19 @@ namespace lexertl
                             {
                                 // This might be suppressing additional paths
                                 // but we should be erroring out anyway.
-                                nl_iter_ = followpos_.erase(nl_iter_);
-                                end_ = followpos_.end();
-                                continue;
+                                erased_ = true;
+                                break;
                             }
                         }
                     }
-                }
 
-                if (nl_iter_ == end_)
-                    break;
+                    if (erased_)
+                    {
+                        nl_iter_ = followpos_.erase(nl_iter_);
+                        end_ = followpos_.end();
+                        continue;
+                    }
+                }
 
                 if (const auto& nl_set_ =
                     set_mapping_[node_->token()];
-- 
2.43.0


From 8c32f97340f5dd69e493b047e904eeb513b41c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:08 +0000
Subject: [PATCH 04/30] fix: keep ids and stack actions when minimising a
 char_state_machine

---
 include/lexertl/state_machine.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/state_machine.hpp b/include/lexertl/state_machine.hpp
index 1c1ffa5..4f65901 100644
--- a/include/lexertl/state_machine.hpp
+++ b/include/lexertl/state_machine.hpp
@@ -473,9 +473,11 @@ namespace lexertl
                     }
 
                     new_ptr_->_end_state = ptr_->_end_state;
-                    new_ptr_->_id = ptr_->_end_state;
+                    new_ptr_->_push_pop_dfa = ptr_->_push_pop_dfa;
+                    new_ptr_->_id = ptr_->_id;
                     new_ptr_->_user_id = ptr_->_user_id;
                     new_ptr_->_next_dfa = ptr_->_next_dfa;
+                    new_ptr_->_push_dfa = ptr_->_push_dfa;
 
                     if (ptr_->_eol_index != npos())
                     {
-- 
2.43.0


From 1d543f3e14cfa57a03938a62ff91fa07e541b684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:30 +0000
Subject: [PATCH 05/30] fix: advance the output iterator in replace()

---
 include/lexertl/replace.hpp | 44 ++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/include/lexertl/replace.hpp b/include/lexertl/replace.hpp
index 7655f38..688c958 100644
--- a/include/lexertl/replace.hpp
+++ b/include/lexertl/replace.hpp
@@ -31,13 +31,13 @@ namespace lexertl
 
         while (results_.id != 0)
         {
-            std::copy(last_, results_.first, out_);
-            std::copy(fmt_.cbegin(), fmt_.cend(), out_);
+            out_ = std::copy(last_, results_.first, out_);
+            out_ = std::copy(fmt_.cbegin(), fmt_.cend(), out_);
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
@@ -57,18 +57,18 @@ namespace lexertl
         {
             auto iter_ = fmt_.find(results_.id);
 
-            std::copy(last_, results_.first, out_);
+            out_ = std::copy(last_, results_.first, out_);
 
             if (iter_ == fmt_.cend())
-                std::copy(results_.first, results_.second, out_);
+                out_ = std::copy(results_.first, results_.second, out_);
             else
-                std::copy(iter_->second.cbegin(), iter_->second.cend(), out_);
+                out_ = std::copy(iter_->second.cbegin(), iter_->second.cend(), out_);
 
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
@@ -90,22 +90,22 @@ namespace lexertl
         {
             auto iter_ = fmt_.find(results_.id);
 
-            std::copy(last_, results_.first, out_);
+            out_ = std::copy(last_, results_.first, out_);
 
             if (iter_ == fmt_.cend())
-                std::copy(results_.first, results_.second, out_);
+                out_ = std::copy(results_.first, results_.second, out_);
             else
             {
                 const auto str_ = iter_->second(results_.first, results_.second);
 
-                std::copy(str_.cbegin(), str_.cend(), out_);
+                out_ = std::copy(str_.cbegin(), str_.cend(), out_);
             }
 
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
@@ -129,13 +129,13 @@ namespace lexertl
 
         while (results_.id != 0)
         {
-            std::copy(last_, results_.first, out_);
-            std::copy(fmt_, end_fmt_, out_);
+            out_ = std::copy(last_, results_.first, out_);
+            out_ = std::copy(fmt_, end_fmt_, out_);
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
@@ -153,10 +153,10 @@ namespace lexertl
         {
             auto iter_ = fmt_.find(results_.id);
 
-            std::copy(last_, results_.first, out_);
+            out_ = std::copy(last_, results_.first, out_);
 
             if (iter_ == fmt_.cend())
-                std::copy(results_.first, results_.second, out_);
+                out_ = std::copy(results_.first, results_.second, out_);
             else
             {
                 const char_type* end_fmt_ = [end_ = iter_->second]() mutable
@@ -167,14 +167,14 @@ namespace lexertl
                         return end_;
                     }();
 
-                std::copy(iter_->second, end_fmt_, out_);
+                out_ = std::copy(iter_->second, end_fmt_, out_);
             }
 
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
@@ -193,10 +193,10 @@ namespace lexertl
         {
             auto iter_ = fmt_.find(results_.id);
 
-            std::copy(last_, results_.first, out_);
+            out_ = std::copy(last_, results_.first, out_);
 
             if (iter_ == fmt_.cend())
-                std::copy(results_.first, results_.second, out_);
+                out_ = std::copy(results_.first, results_.second, out_);
             else
             {
                 const char_type* str_ =
@@ -209,14 +209,14 @@ namespace lexertl
                         return str_;
                     }();
 
-                std::copy(str_, end_str_, out_);
+                out_ = std::copy(str_, end_str_, out_);
             }
 
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
-- 
2.43.0


From 179b0659b04bfd11b5353d4101d311b4971c061e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 06/30] fix: keep id-less text at the end of input in replace()

---
 include/lexertl/replace.hpp | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/lexertl/replace.hpp b/include/lexertl/replace.hpp
index 688c958..4c67111 100644
--- a/include/lexertl/replace.hpp
+++ b/include/lexertl/replace.hpp
@@ -37,7 +37,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        out_ = std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.eoi, out_);
         return out_;
     }
 
@@ -68,7 +68,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        out_ = std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.eoi, out_);
         return out_;
     }
 
@@ -105,7 +105,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        out_ = std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.eoi, out_);
         return out_;
     }
 
@@ -135,7 +135,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        out_ = std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.eoi, out_);
         return out_;
     }
 
@@ -174,7 +174,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        out_ = std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.eoi, out_);
         return out_;
     }
 
@@ -216,7 +216,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        out_ = std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.eoi, out_);
         return out_;
     }
 
@@ -244,7 +244,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -279,7 +279,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -319,7 +319,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -352,7 +352,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -385,7 +385,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -419,7 +419,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -451,7 +451,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -491,7 +491,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -532,7 +532,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -564,7 +564,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -603,7 +603,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -643,7 +643,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 }
-- 
2.43.0


From dbe88c56087ef63cf7c4153bd5063e7fef5fa188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:31 +0000
Subject: [PATCH 07/30] fix: make match_results::subview() usable with string
 iterators

---
 include/lexertl/match_results.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexertl/match_results.hpp b/include/lexertl/match_results.hpp
index 50e519a..4ec59c8 100644
--- a/include/lexertl/match_results.hpp
+++ b/include/lexertl/match_results.hpp
@@ -74,7 +74,7 @@ namespace lexertl
         string_view subview(const std::size_t soffset_,
             const std::size_t eoffset_) const
         {
-            return string_view(first + soffset_,
+            return string_view(&*first + soffset_,
                 length() - soffset_ - eoffset_);
         }
 
-- 
2.43.0


From 1106104d0cb8a63d6f10b03759a2789cb9039b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 08/30] fix: save and load state machines with 8 bit ids or
 wide characters

---
 include/lexertl/serialise.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/lexertl/serialise.hpp b/include/lexertl/serialise.hpp
index 10ebb17..bfd23e1 100644
--- a/include/lexertl/serialise.hpp
+++ b/include/lexertl/serialise.hpp
@@ -21,15 +21,16 @@ namespace lexertl
         template<typename char_type, typename id_type, class stream>
         void output_vec(const std::vector<id_type>& vec_, stream& stream_)
         {
-            std::basic_ostringstream<char_type> ss_;
-            std::basic_string<char_type> str_;
+            using stream_char_type = typename stream::char_type;
+            std::basic_ostringstream<stream_char_type> ss_;
+            std::basic_string<stream_char_type> str_;
             std::size_t line_len_ = 0;
 
             stream_ << vec_.size() << '\n';
 
             for (const id_type l_ : vec_)
             {
-                ss_ << l_;
+                ss_ << static_cast<std::size_t>(l_);
                 str_ = ss_.str();
 
                 if (line_len_ + str_.size() + 1 > 80)
@@ -43,7 +44,7 @@ namespace lexertl
                     line_len_ += str_.size() + 1;
                 }
 
-                ss_.str("");
+                ss_.str(std::basic_string<stream_char_type>());
             }
 
             stream_ << '\n';
@@ -78,7 +79,7 @@ namespace lexertl
         stream_ << 1 << '\n';
         stream_ << sizeof(char_type) << '\n';
         stream_ << sizeof(id_type) << '\n';
-        stream_ << internals_._eoi << '\n';
+        stream_ << static_cast<std::size_t>(internals_._eoi) << '\n';
         stream_ << internals_._lookup.size() << '\n';
 
         for (const auto& vec_ : internals_._lookup)
@@ -87,7 +88,7 @@ namespace lexertl
         }
 
         detail::output_vec<char_type>(internals_._dfa_alphabet, stream_);
-        stream_ << internals_._features << '\n';
+        stream_ << static_cast<std::size_t>(internals_._features) << '\n';
         stream_ << internals_._dfa.size() << '\n';
 
         for (const auto& vec_ : internals_._dfa)
@@ -118,7 +119,8 @@ namespace lexertl
         if (num_ != sizeof(id_type))
             throw runtime_error("id_type mismatch in lexertl::load().");
 
-        stream_ >> internals_._eoi;
+        stream_ >> num_;
+        internals_._eoi = static_cast<id_type>(num_);
         stream_ >> num_;
         internals_._lookup.reserve(num_);
 
@@ -129,7 +131,8 @@ namespace lexertl
         }
 
         detail::input_vec<char_type>(stream_, internals_._dfa_alphabet);
-        stream_ >> internals_._features;
+        stream_ >> num_;
+        internals_._features = static_cast<id_type>(num_);
         stream_ >> num_;
         internals_._dfa.reserve(num_);
 
-- 
2.43.0


From bac886b3e9776c4a5a3be58f9b8d9f9c51e7a960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 09/30] fix: check the row count before a char state machine is
 filled

---
 include/lexertl/generator.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index dc98d3b..4b1e06b 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -84,14 +84,6 @@ namespace lexertl
                     check_zero_len(rules_, root_);
                     build_dfa(charset_map_, root_, internals_, temp_sm_, index_,
                         cr_id_, nl_id_, rules_.flags(), used_ids_);
-
-                    if (internals_._dfa[index_].size() /
-                        internals_._dfa_alphabet[index_] >= sm_traits::npos())
-                    {
-                        // Overflow
-                        throw runtime_error("The id_type you have chosen "
-                            "cannot hold this many DFA rows.");
-                    }
                 }
             }
 
@@ -284,6 +276,13 @@ namespace lexertl
                 }
             }
 
+            if (dfa_.size() / dfa_alphabet_ >= sm_traits::npos())
+            {
+                // Overflow
+                throw runtime_error("The id_type you have chosen "
+                    "cannot hold this many DFA rows.");
+            }
+
             fix_clashes(eol_set_, cr_id_, nl_id_, zero_id_, dfa_, dfa_alphabet_,
                 compressed());
             append_dfa(charset_list_, internals_, sm_, dfa_index_, lookup());
-- 
2.43.0


From 1cc3283ab68ab69951b0a86264616b92d83b0580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:02 +0000
Subject: [PATCH 10/30] fix: a rejected macro leaves no entry behind, a macro
 using itself is an unknown macro

---
 include/lexertl/rules.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index b0a5749..75d286c 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -251,12 +251,11 @@ namespace lexertl
 
             if (iter_ == _macro_map.end())
             {
-                auto pair_ =
-                    _macro_map.insert(macro_pair(name_, token_vector()));
                 auto tokens_vec_ = tokenise(regex_, npos(), name_);
 
                 // There can only be one token_vector for a macro
-                pair_.first->second = std::move(tokens_vec_.back());
+                _macro_map.insert(macro_pair(name_,
+                    std::move(tokens_vec_.back())));
             }
             else
             {
-- 
2.43.0


From 59ae03d24445b67ed96c8769c6450e07dc092509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:57 +0000
Subject: [PATCH 11/30] fix: planes between the first and the last of a wide
 charset range

---
 include/lexertl/parser/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexertl/parser/parser.hpp b/include/lexertl/parser/parser.hpp
index 127f0e9..ded1a8e 100644
--- a/include/lexertl/parser/parser.hpp
+++ b/include/lexertl/parser/parser.hpp
@@ -558,7 +558,7 @@ namespace lexertl::detail
 
                 if (second_msb_ > first_msb_ + 1)
                 {
-                    insert_range(first_mid_ + 1, second_mid_ - 1,
+                    insert_range(first_msb_ + 1, second_msb_ - 1,
                         0, 0xff,
                         0, 0xff, data_);
                 }
-- 
2.43.0


From 4e5a6c35cb29141a9fd192221809093e270e27aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:15 +0000
Subject: [PATCH 12/30] fix: wide ignore case maps reversed pairs to the other
 character

---
 .../parser/tokeniser/re_tokeniser_helper.hpp   | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
index c6b9b77..8b06ba0 100644
--- a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
+++ b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
@@ -267,14 +267,15 @@ namespace lexertl::detail
                     }
                     else
                     {
-                        const index_type first_ = ptr_->to.second +
+                        // Mapping runs in reverse
+                        const index_type second_ = ptr_->to.first -
                             (range_.first - ptr_->from.first);
 
-                        out_.insert(range(first_,
-                            range_.second > ptr_->from.second ?
-                            ptr_->to.first :
-                            static_cast<index_type>(ptr_->to.second +
-                                (range_.second - ptr_->from.first))));
+                        out_.insert(range(range_.second > ptr_->from.second ?
+                            ptr_->to.second :
+                            static_cast<index_type>(ptr_->to.first -
+                                (range_.second - ptr_->from.first)),
+                            second_));
                     }
                 }
                 else if (range_.second >= ptr_->from.first &&
@@ -289,10 +290,11 @@ namespace lexertl::detail
                     }
                     else
                     {
-                        const index_type second_ = ptr_->to.second +
+                        // Mapping runs in reverse
+                        const index_type first_ = ptr_->to.first -
                             (range_.second - ptr_->from.first);
 
-                        out_.insert(range(ptr_->to.second, second_));
+                        out_.insert(range(first_, ptr_->to.first));
                     }
                 }
                 // Either range fully encompasses from range or not at all.
-- 
2.43.0


From 46c3c459f3a146e60df4005e9551152e24b69680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:15 +0000
Subject: [PATCH 13/30] fix: \p{Co}, \p{Cs} and \p{Lo} hold whole ranges, not
 their end points

---
 gen_unicode_hpp/main.cpp                     | 14 ++++++-
 include/lexertl/parser/tokeniser/unicode.hpp | 40 ++++++++++----------
 2 files changed, 32 insertions(+), 22 deletions(-)

diff --git a/gen_unicode_hpp/main.cpp b/gen_unicode_hpp/main.cpp
index e35bfaa..8e3f68e 100644
--- a/gen_unicode_hpp/main.cpp
+++ b/gen_unicode_hpp/main.cpp
@@ -16,8 +16,10 @@ void lex_unicode_data(lexertl::memory_file& mf_, std::ostream& os_,
 	const char* start_ = mf_.data();
 	const char* end_ = start_ + mf_.size();
 	lexertl::cmatch results_(start_, end_);
-	enum { eNumber = 1, eName };
+	enum { eNumber = 1, eLast, eName };
 
+	bool last_ = false;
+	std::size_t first_ = 0;
 	std::size_t num_ = 0;
 	using string_token = lexertl::basic_string_token<std::size_t>;
 	using map = std::map<std::string, string_token>;
@@ -28,6 +30,7 @@ void lex_unicode_data(lexertl::memory_file& mf_, std::ostream& os_,
 	rules_.push_state("FINISH");
 
 	rules_.push("INITIAL", "^[A-F0-9]+", eNumber, "LONG_NAME");
+	rules_.push("LONG_NAME", ";<[^;]+, Last>;", eLast, "SHORT_NAME");
 	rules_.push("LONG_NAME", ";[^;]+;", lexertl::rules::skip(), "SHORT_NAME");
 	rules_.push("SHORT_NAME", "[A-Z][a-z]?", eName, "FINISH");
 	rules_.push("FINISH", ".*\n", lexertl::rules::skip(), "INITIAL");
@@ -41,15 +44,22 @@ void lex_unicode_data(lexertl::memory_file& mf_, std::ostream& os_,
 		{
 			std::stringstream ss_;
 
+			first_ = num_;
 			ss_ << results_.str();
 			ss_ >> std::hex >> num_;
 		}
+		else if (results_.id == eLast)
+		{
+			// All of the characters since the "First" entry
+			last_ = true;
+		}
 		else if (results_.id == eName)
 		{
 			const std::string name_ = results_.str();
 
 			map_[name_].insert(lexertl::basic_string_token<std::size_t>::range
-			(num_, num_));
+			(last_ ? first_ : num_, num_));
+			last_ = false;
 		}
 	} while (results_.id != 0);
 
diff --git a/include/lexertl/parser/tokeniser/unicode.hpp b/include/lexertl/parser/tokeniser/unicode.hpp
index 00e1d41..853def4 100644
--- a/include/lexertl/parser/tokeniser/unicode.hpp
+++ b/include/lexertl/parser/tokeniser/unicode.hpp
@@ -54,12 +54,12 @@
 
     static const char* Co()
     {
-        return "[\\xe000\\xf8ff\\xf0000\\xffffd\\x100000\\x10fffd]";
+        return "[\\xe000-\\xf8ff\\xf0000-\\xffffd\\x100000-\\x10fffd]";
     }
 
     static const char* Cs()
     {
-        return "[\\xd800\\xdb7f\\xdb80\\xdbff\\xdc00\\xdfff]";
+        return "[\\xd800-\\xdfff]";
     }
 
     static const char* Ll()
@@ -217,8 +217,8 @@
             "\\x2da8-\\x2dae\\x2db0-\\x2db6\\x2db8-\\x2dbe\\x2dc0-\\x2dc6"
             "\\x2dc8-\\x2dce\\x2dd0-\\x2dd6\\x2dd8-\\x2dde\\x3006\\x303c"
             "\\x3041-\\x3096\\x309f\\x30a1-\\x30fa\\x30ff\\x3105-\\x312f"
-            "\\x3131-\\x318e\\x31a0-\\x31bf\\x31f0-\\x31ff\\x3400\\x4dbf\\x4e00"
-            "\\x9fff-\\xa014\\xa016-\\xa48c\\xa4d0-\\xa4f7\\xa500-\\xa60b"
+            "\\x3131-\\x318e\\x31a0-\\x31bf\\x31f0-\\x31ff\\x3400-\\x4dbf"
+            "\\x4e00-\\xa014\\xa016-\\xa48c\\xa4d0-\\xa4f7\\xa500-\\xa60b"
             "\\xa610-\\xa61f\\xa62a\\xa62b\\xa66e\\xa6a0-\\xa6e5\\xa78f\\xa7f7"
             "\\xa7fb-\\xa801\\xa803-\\xa805\\xa807-\\xa80a\\xa80c-\\xa822"
             "\\xa840-\\xa873\\xa882-\\xa8b3\\xa8f2-\\xa8f7\\xa8fb\\xa8fd\\xa8fe"
@@ -228,7 +228,7 @@
             "\\xaa7a\\xaa7e-\\xaaaf\\xaab1\\xaab5\\xaab6\\xaab9-\\xaabd\\xaac0"
             "\\xaac2\\xaadb\\xaadc\\xaae0-\\xaaea\\xaaf2\\xab01-\\xab06"
             "\\xab09-\\xab0e\\xab11-\\xab16\\xab20-\\xab26\\xab28-\\xab2e"
-            "\\xabc0-\\xabe2\\xac00\\xd7a3\\xd7b0-\\xd7c6\\xd7cb-\\xd7fb"
+            "\\xabc0-\\xabe2\\xac00-\\xd7a3\\xd7b0-\\xd7c6\\xd7cb-\\xd7fb"
             "\\xf900-\\xfa6d\\xfa70-\\xfad9\\xfb1d\\xfb1f-\\xfb28"
             "\\xfb2a-\\xfb36\\xfb38-\\xfb3c\\xfb3e\\xfb40\\xfb41\\xfb43\\xfb44"
             "\\xfb46-\\xfbb1\\xfbd3-\\xfd3d\\xfd50-\\xfd8f\\xfd92-\\xfdc7"
@@ -281,26 +281,26 @@
             "\\x14400-\\x14646\\x16100-\\x1611d\\x16800-\\x16a38"
             "\\x16a40-\\x16a5e\\x16a70-\\x16abe\\x16ad0-\\x16aed"
             "\\x16b00-\\x16b2f\\x16b63-\\x16b77\\x16b7d-\\x16b8f"
-            "\\x16d43-\\x16d6a\\x16f00-\\x16f4a\\x16f50\\x17000"
-            "\\x187ff-\\x18cd5\\x18cff\\x18d00\\x18d1e\\x18d80-\\x18df2"
-            "\\x1b000-\\x1b122\\x1b132\\x1b150-\\x1b152\\x1b155"
-            "\\x1b164-\\x1b167\\x1b170-\\x1b2fb\\x1bc00-\\x1bc6a"
-            "\\x1bc70-\\x1bc7c\\x1bc80-\\x1bc88\\x1bc90-\\x1bc99\\x1df0a"
-            "\\x1e100-\\x1e12c\\x1e14e\\x1e290-\\x1e2ad\\x1e2c0-\\x1e2eb"
-            "\\x1e4d0-\\x1e4ea\\x1e5d0-\\x1e5ed\\x1e5f0\\x1e6c0-\\x1e6de"
-            "\\x1e6e0-\\x1e6e2\\x1e6e4\\x1e6e5\\x1e6e7-\\x1e6ed"
-            "\\x1e6f0-\\x1e6f4\\x1e6fe\\x1e7e0-\\x1e7e6\\x1e7e8-\\x1e7eb"
-            "\\x1e7ed\\x1e7ee\\x1e7f0-\\x1e7fe\\x1e800-\\x1e8c4"
-            "\\x1ee00-\\x1ee03\\x1ee05-\\x1ee1f\\x1ee21\\x1ee22\\x1ee24\\x1ee27"
+            "\\x16d43-\\x16d6a\\x16f00-\\x16f4a\\x16f50\\x17000-\\x18cd5"
+            "\\x18cff-\\x18d1e\\x18d80-\\x18df2\\x1b000-\\x1b122\\x1b132"
+            "\\x1b150-\\x1b152\\x1b155\\x1b164-\\x1b167\\x1b170-\\x1b2fb"
+            "\\x1bc00-\\x1bc6a\\x1bc70-\\x1bc7c\\x1bc80-\\x1bc88"
+            "\\x1bc90-\\x1bc99\\x1df0a\\x1e100-\\x1e12c\\x1e14e"
+            "\\x1e290-\\x1e2ad\\x1e2c0-\\x1e2eb\\x1e4d0-\\x1e4ea"
+            "\\x1e5d0-\\x1e5ed\\x1e5f0\\x1e6c0-\\x1e6de\\x1e6e0-\\x1e6e2"
+            "\\x1e6e4\\x1e6e5\\x1e6e7-\\x1e6ed\\x1e6f0-\\x1e6f4\\x1e6fe"
+            "\\x1e7e0-\\x1e7e6\\x1e7e8-\\x1e7eb\\x1e7ed\\x1e7ee"
+            "\\x1e7f0-\\x1e7fe\\x1e800-\\x1e8c4\\x1ee00-\\x1ee03"
+            "\\x1ee05-\\x1ee1f\\x1ee21\\x1ee22\\x1ee24\\x1ee27"
             "\\x1ee29-\\x1ee32\\x1ee34-\\x1ee37\\x1ee39\\x1ee3b\\x1ee42\\x1ee47"
             "\\x1ee49\\x1ee4b\\x1ee4d-\\x1ee4f\\x1ee51\\x1ee52\\x1ee54\\x1ee57"
             "\\x1ee59\\x1ee5b\\x1ee5d\\x1ee5f\\x1ee61\\x1ee62\\x1ee64"
             "\\x1ee67-\\x1ee6a\\x1ee6c-\\x1ee72\\x1ee74-\\x1ee77"
             "\\x1ee79-\\x1ee7c\\x1ee7e\\x1ee80-\\x1ee89\\x1ee8b-\\x1ee9b"
-            "\\x1eea1-\\x1eea3\\x1eea5-\\x1eea9\\x1eeab-\\x1eebb\\x20000"
-            "\\x2a6df\\x2a700\\x2b73f\\x2b740\\x2b81d\\x2b820\\x2cead\\x2ceb0"
-            "\\x2ebe0\\x2ebf0\\x2ee5d\\x2f800-\\x2fa1d\\x30000\\x3134a\\x31350"
-            "\\x323af\\x323b0\\x33479]";
+            "\\x1eea1-\\x1eea3\\x1eea5-\\x1eea9\\x1eeab-\\x1eebb"
+            "\\x20000-\\x2a6df\\x2a700-\\x2b81d\\x2b820-\\x2cead"
+            "\\x2ceb0-\\x2ebe0\\x2ebf0-\\x2ee5d\\x2f800-\\x2fa1d"
+            "\\x30000-\\x3134a\\x31350-\\x33479]";
     }
 
     static const char* Lt()
-- 
2.43.0


From dc4243ffcb7d0a0e58eb0539ea22261a390d06e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:32 +0000
Subject: [PATCH 14/30] fix: reversing rules swaps the anchor features

---
 include/lexertl/rules.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index 75d286c..352ac87 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -396,6 +396,18 @@ namespace lexertl
             {
                 reverse(pair_.second);
             }
+
+            // Anchors have changed ends
+            for (auto& features_ : _features)
+            {
+                const bool bol_ = (features_ & *feature_bit::bol) != 0;
+                const bool eol_ = (features_ & *feature_bit::eol) != 0;
+
+                if (bol_ != eol_)
+                {
+                    features_ ^= *feature_bit::bol | *feature_bit::eol;
+                }
+            }
         }
 
         const string_id_type_map& statemap() const
-- 
2.43.0


From 7b86530a5a5548c84d2e4549ff1b923b70c6e90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:24 +0000
Subject: [PATCH 15/30] fix: alternatives without an anchor match at the
 beginning of a line

---
 include/lexertl/generator.hpp     | 7 +++++++
 include/lexertl/parser/parser.hpp | 3 ++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index 4b1e06b..5220c1a 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -248,6 +248,13 @@ namespace lexertl
 
                 for (auto& equivset_ : equiv_list_)
                 {
+                    // BOL can only be seen at the very start
+                    if (index_ && equivset_->_index_vector.front() ==
+                        parser::bol_token())
+                    {
+                        continue;
+                    }
+
                     prune_eol_clashes(equivset_->_followpos, cr_id_, nl_id_,
                         set_mapping_);
 
diff --git a/include/lexertl/parser/parser.hpp b/include/lexertl/parser/parser.hpp
index ded1a8e..892def1 100644
--- a/include/lexertl/parser/parser.hpp
+++ b/include/lexertl/parser/parser.hpp
@@ -935,12 +935,13 @@ namespace lexertl::detail
             const auto& first_ = root_->firstpos();
             bool found_ = false;
 
+            // Any alternative without BOL needs to be able to skip it
             for (observer_ptr<const node> node_ : first_)
             {
                 found_ = !node_->end_state() && node_->token() ==
                     bol_token();
 
-                if (found_) break;
+                if (!found_) break;
             }
 
             if (!found_)
-- 
2.43.0


From 56f5011418bfe77614c67fe8102a44a2353cb820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:07 +0000
Subject: [PATCH 16/30] fix: look for '^' in the first alternative when pushing
 to named states

---
 include/lexertl/rules.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index 352ac87..1e02b26 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -1213,7 +1213,7 @@ namespace lexertl
 
                 narrow(regex_.c_str(), ss_);
 
-                if (tokens_vec_.back()[1]._type == detail::token_type::BOL)
+                if (tokens_vec_.front()[1]._type == detail::token_type::BOL)
                 {
                     _features[curr_] |= *feature_bit::bol;
                 }
-- 
2.43.0


From 8b95fd9b1b7ae96e452bfbdb48e8b37f7614af03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:28 +0000
Subject: [PATCH 17/30] fix: stream_shared_iterator moves overlapping buffer
 contents with memmove

---
 include/lexertl/stream_shared_iterator.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/lexertl/stream_shared_iterator.hpp b/include/lexertl/stream_shared_iterator.hpp
index b91e5d5..a404510 100644
--- a/include/lexertl/stream_shared_iterator.hpp
+++ b/include/lexertl/stream_shared_iterator.hpp
@@ -9,6 +9,8 @@
 
 #include "runtime_error.hpp"
 
+#include <algorithm>
+#include <cstring>
 #include <istream>
 #include <iterator>
 #include <vector>
@@ -199,13 +201,14 @@ namespace lexertl
                 }
                 else
                 {
-                    // Some systems have memcpy in namespace std
+                    // Some systems have memmove in namespace std
                     using namespace std;
                     const size_t start_ = _buffer.size() - lowest_;
                     const size_t len_ = _buffer.size() - start_;
 
-                    memcpy(&_buffer.front(), &_buffer[lowest_], start_ *
-                        sizeof(char_type));
+                    // The ranges overlap unless lowest_ >= start_
+                    memmove(&_buffer.front(), &_buffer.front() + lowest_,
+                        start_ * sizeof(char_type));
                     _stream.read(&_buffer.front() + start_, len_);
                     read_ = static_cast<size_t>(_stream.gcount());
                     subtract(lowest_);
-- 
2.43.0


From 833a862881803c019b39f43ea018d7ed06e60363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:05 +0000
Subject: [PATCH 18/30] fix: assigning stream_shared_iterators keeps reference
 counts and clients right across streams

---
 include/lexertl/stream_shared_iterator.hpp | 63 ++++++++++------------
 1 file changed, 28 insertions(+), 35 deletions(-)

diff --git a/include/lexertl/stream_shared_iterator.hpp b/include/lexertl/stream_shared_iterator.hpp
index a404510..4082372 100644
--- a/include/lexertl/stream_shared_iterator.hpp
+++ b/include/lexertl/stream_shared_iterator.hpp
@@ -59,17 +59,7 @@ namespace lexertl
 
         ~basic_stream_shared_iterator()
         {
-            if (_shared)
-            {
-                --_shared->_ref_count;
-                _shared->erase(this);
-
-                if (_shared->_ref_count == 0)
-                {
-                    delete _shared;
-                    _shared = nullptr;
-                }
-            }
+            release();
         }
 
         basic_stream_shared_iterator& operator =
@@ -77,37 +67,26 @@ namespace lexertl
         {
             if (this != &rhs_)
             {
-                _master = false;
-                _index = rhs_._master ? rhs_._shared->lowest() : rhs_._index;
+                const std::size_t index_ =
+                    rhs_._master ? rhs_._shared->lowest() : rhs_._index;
 
-                if (!_live && !rhs_._live)
-                {
-                    if (rhs_._shared)
-                    {
-                        ++rhs_._shared->_ref_count;
-                    }
-                }
-                else if (!_live && rhs_._live)
+                if (_shared != rhs_._shared)
                 {
-                    rhs_._shared->_clients.push_back(this);
+                    release();
+                    _shared = rhs_._shared;
 
-                    if (!_shared)
-                    {
-                        ++rhs_._shared->_ref_count;
-                    }
+                    if (_shared)
+                        ++_shared->_ref_count;
                 }
-                else if (_live && !rhs_._live)
-                {
+                else if (_shared)
                     _shared->erase(this);
 
-                    if (!rhs_._shared)
-                    {
-                        --_shared->_ref_count;
-                    }
-                }
+                _master = false;
+                _index = index_;
+                _live = rhs_._live || rhs_._master;
 
-                _live = rhs_._live;
-                _shared = rhs_._shared;
+                if (_live)
+                    _shared->_clients.push_back(this);
             }
 
             return *this;
@@ -305,6 +284,20 @@ namespace lexertl
         std::size_t _index = shared::npos();
         shared* _shared = nullptr;
 
+        void release()
+        {
+            if (_shared)
+            {
+                --_shared->_ref_count;
+                _shared->erase(this);
+
+                if (_shared->_ref_count == 0)
+                    delete _shared;
+
+                _shared = nullptr;
+            }
+        }
+
         void check_master()
         {
             if (!_shared)
-- 
2.43.0


From a438ddcdceacc4bc43bd3d33a3c2e6b69230f0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:07 +0000
Subject: [PATCH 19/30] fix: memory_file releases every descriptor and the
 whole mapping

---
 include/lexertl/memory_file.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/lexertl/memory_file.hpp b/include/lexertl/memory_file.hpp
index d1c7768..8be7eeb 100644
--- a/include/lexertl/memory_file.hpp
+++ b/include/lexertl/memory_file.hpp
@@ -46,10 +46,7 @@ namespace lexertl
 
         void open(const char* pathname_)
         {
-            if (_data)
-            {
-                close();
-            }
+            close();
 
 #ifdef _WIN32
             _fh = ::CreateFileA(pathname_, GENERIC_READ, FILE_SHARE_READ,
@@ -93,7 +90,8 @@ namespace lexertl
                     }
                     else
                     {
-                        _size = sbuf_.st_size / sizeof(char_type);
+                        _len = sbuf_.st_size;
+                        _size = _len / sizeof(char_type);
                     }
                 }
             }
@@ -117,7 +115,8 @@ namespace lexertl
 #ifdef _WIN32
                 ::UnmapViewOfFile(_data);
 #else
-                ::munmap(const_cast<char_type*>(_data), _size);
+                ::munmap(const_cast<char_type*>(_data), _len);
+                _len = 0;
 #endif
                 _data = nullptr;
                 _size = 0;
@@ -134,10 +133,10 @@ namespace lexertl
 
             _fh = nullptr;
 #else
-            if (_fh)
+            if (_fh > -1)
                 ::close(_fh);
 
-            _fh = 0;
+            _fh = -1;
 #endif
         }
 
@@ -148,7 +147,8 @@ namespace lexertl
         HANDLE _fh = nullptr;
         HANDLE _fmh = nullptr;
 #else
-        int _fh = 0;
+        std::size_t _len = 0;
+        int _fh = -1;
 #endif
     };
 
-- 
2.43.0


From 25b78ddaa7bbf7e6d433ee1cdb9430a19e446a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:47 +0000
Subject: [PATCH 20/30] fix: generated code pops the state stack in single
 state lexers and reports underflow

---
 include/lexertl/generate_cpp.hpp  | 13 +++++++++++--
 include/lexertl/match_results.hpp |  1 +
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index b545822..ee4a0ca 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -595,8 +595,17 @@ namespace lexertl
             {
                 os_ << "        if (pop_)\n";
                 os_ << "        {\n";
-                os_ << "            start_state_ =  results_."
-                    "stack.top().first;\n";
+                os_ << "            if (results_.stack.empty())\n";
+                os_ << "                throw lexertl::runtime_error("
+                    "\"Stack underflow in \"\n";
+                os_ << "                    \"" << name_ << "().\");\n\n";
+
+                if (internals_._dfa.size() > 1)
+                {
+                    os_ << "            start_state_ =  results_."
+                        "stack.top().first;\n";
+                }
+
                 os_ << "            results_.stack.pop();\n";
                 os_ << "        }\n";
                 os_ << "        else if (push_dfa_ != results_.npos())\n";
diff --git a/include/lexertl/match_results.hpp b/include/lexertl/match_results.hpp
index 4ec59c8..7d63f49 100644
--- a/include/lexertl/match_results.hpp
+++ b/include/lexertl/match_results.hpp
@@ -9,6 +9,7 @@
 #include "char_traits.hpp"
 #include "enum_operator.hpp"
 #include "enums.hpp"
+#include "runtime_error.hpp"
 
 #include <cstdint>
 #include <iterator>
-- 
2.43.0


From 6c8423f97cc701e5ba6cd5863762ea3b9577303b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:18 +0000
Subject: [PATCH 21/30] fix: generated names of the state machines are decimal
 throughout

---
 include/lexertl/generate_cpp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index ee4a0ca..e8b87a3 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -811,7 +811,7 @@ namespace lexertl
 
                     ss_ << dfa_;
                     dfa_name_ += ss_.str();
-                    os_ << dfa_;
+                    os_ << ss_.str();
                 }
 
                 dfa_name_ += '_';
@@ -846,7 +846,7 @@ namespace lexertl
                     os_ << "id_type";
                 }
 
-                os_ << "* dfas_[] = {dfa0_";
+                os_ << std::dec << "* dfas_[] = {dfa0_";
 
                 for (std::size_t col_ = 1; col_ < dfas_; ++col_)
                 {
-- 
2.43.0


From d3b333dc52a6f1e4e7c09c27df15ee898009c63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:54 +0000
Subject: [PATCH 22/30] fix: rows generated with pointers point at '$' states
 and leave a missing '^' state null

---
 include/lexertl/generate_cpp.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index e8b87a3..261471e 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -869,7 +869,7 @@ namespace lexertl
             {
                 bool zero_ = *ptr_ == 0;
 
-                if (first_)
+                if (first_ && !zero_)
                 {
                     // We want numbers regardless of id_type.
                     os_ << dfa_name_ << " + 0x" << std::hex <<
@@ -894,6 +894,14 @@ namespace lexertl
                     os_ << ", ";
                     zero_ = *ptr_ == 0;
 
+                    if (!zero_ && id_index_ == *state_index::eol)
+                    {
+                        // This is a row, the same as a transition
+                        os_ << dfa_name_ << " + 0x" << std::hex <<
+                            static_cast<std::size_t>(*ptr_) * dfa_alphabet_;
+                        continue;
+                    }
+
                     if (!zero_)
                     {
                         os_ << "reinterpret_cast<const void*>(";
-- 
2.43.0


From dee377ebcdcff9ada1274b5a960708088343c3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:27 +0000
Subject: [PATCH 23/30] fix: generated code treats '\r' as a line end and
 advances over matched characters only

---
 include/lexertl/generate_cpp.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index 261471e..43a8d78 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -286,7 +286,8 @@ namespace lexertl
                 }
 
                 os_ << ";\n\n";
-                os_ << "        if (EOL_state_ && *curr_ == '\\n')\n";
+                os_ << "        if (EOL_state_ && (*curr_ == '\\r' || "
+                    "*curr_ == '\\n'))\n";
                 os_ << "        {\n";
                 os_ << "            ptr_ = ";
 
@@ -963,7 +964,7 @@ namespace lexertl
             std::ostream& os_, const std::false_type&)
         {
             output_tabs(additional_tabs_, os_);
-            os_ << "        const char_type prev_char_ = *curr_++;\n";
+            os_ << "        const char_type prev_char_ = *curr_;\n";
             output_tabs(additional_tabs_, os_);
             os_ << "        const ";
 
@@ -1032,6 +1033,8 @@ namespace lexertl
             output_tabs(additional_tabs_, os_);
             os_ << "        }\n\n";
             output_tabs(additional_tabs_, os_);
+            os_ << "        ++curr_;\n";
+            output_tabs(additional_tabs_, os_);
             os_ << "        ptr_ = ";
 
             if (pointers_)
@@ -1060,7 +1063,7 @@ namespace lexertl
             output_tabs(additional_tabs_, os_);
             os_ << "        const std::size_t shift_[] = {0, 8, 16};\n";
             output_tabs(additional_tabs_, os_);
-            os_ << "        char_type prev_char_ = *curr_++;\n\n";
+            os_ << "        const char_type prev_char_ = *curr_;\n\n";
 
             if (features_ & *feature_bit::bol)
             {
@@ -1134,6 +1137,8 @@ namespace lexertl
             os_ << ";\n";
             output_tabs(additional_tabs_, os_);
             os_ << "        }\n";
+            output_tabs(additional_tabs_, os_);
+            os_ << "        ++curr_;\n";
         }
 
         static void output_quit(std::ostream&, const std::false_type&)
-- 
2.43.0


From ba8f4f5ef93c91bfb31da106e87c90535e5aa724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:26 +0000
Subject: [PATCH 24/30] fix: dumped character sets and uint8_t push states read
 back unambiguously

---
 include/lexertl/debug.hpp | 130 ++++++++++++++++++++++----------------
 1 file changed, 75 insertions(+), 55 deletions(-)

diff --git a/include/lexertl/debug.hpp b/include/lexertl/debug.hpp
index 7872e95..b70ab5a 100644
--- a/include/lexertl/debug.hpp
+++ b/include/lexertl/debug.hpp
@@ -328,7 +328,8 @@ namespace lexertl
                         dfa_state::push_pop_dfa::push_dfa)
                     {
                         push(stream_);
-                        stream_num(state_._push_dfa, stream_);
+                        stream_num(static_cast<std::size_t>(state_._push_dfa),
+                            stream_);
                     }
                     else if (state_._push_pop_dfa ==
                         dfa_state::push_pop_dfa::pop_dfa)
@@ -445,87 +446,106 @@ namespace lexertl
             ostream& stream_)
         {
             string_token token_ = in_token_;
-            bool negated_ = false;
-
-            if (token_._ranges.size() > 1 ||
-                token_._ranges.front().first != token_._ranges.front().second)
+            // A numeric escape outside of brackets would
+            // run into a digit that happens to follow it.
+            const bool brackets_ = token_._ranges.size() > 1 ||
+                token_._ranges.front().first !=
+                token_._ranges.front().second ||
+                numeric(token_._ranges.front().first);
+            bool numeric_ = false;
+
+            if (brackets_)
             {
                 open_bracket(stream_);
             }
-            else
-            {
-                const char_type c_ = token_._ranges.front().first;
-
-                switch (c_)
-                {
-                case static_cast<char_type>('|'):
-                case static_cast<char_type>('('):
-                case static_cast<char_type>(')'):
-                case static_cast<char_type>('?'):
-                case static_cast<char_type>('*'):
-                case static_cast<char_type>('+'):
-                case static_cast<char_type>('{'):
-                case static_cast<char_type>('}'):
-                case static_cast<char_type>('['):
-                case static_cast<char_type>(']'):
-                case static_cast<char_type>('.'):
-                case static_cast<char_type>('/'):
-                    stream_ << static_cast<char_type>('\\');
-                    break;
-                default:
-                    break;
-                }
-            }
 
             if (!token_.any() && token_.negatable())
             {
                 token_.negate();
                 negated(stream_);
-                negated_ = true;
             }
 
-            string chars_;
-
             for (const auto& range_ : token_._ranges)
             {
-                if (range_.first == static_cast<char_type>('-') ||
-                    range_.first == static_cast<char_type>('^') ||
-                    (range_.first == static_cast<char_type>(']') &&
-                    range_.first != range_.second))
-                {
-                    stream_ << static_cast<char_type>('\\');
-                }
-
-                chars_ = string_token::escape_char
-                (range_.first);
+                dump_char(range_.first, brackets_, numeric_, stream_);
 
                 if (range_.first != range_.second)
                 {
                     if (range_.first + 1 < range_.second)
                     {
-                        chars_ += static_cast<char_type>('-');
-                    }
-
-                    if (range_.second == static_cast<char_type>('-') ||
-                        range_.second == static_cast<char_type>('^') ||
-                        range_.second == static_cast<char_type>(']'))
-                    {
-                        stream_ << static_cast<char_type>('\\');
+                        stream_ << static_cast<char_type>('-');
+                        numeric_ = false;
                     }
 
-                    chars_ += string_token::escape_char(range_.second);
+                    dump_char(range_.second, brackets_, numeric_, stream_);
                 }
-
-                stream_ << chars_;
             }
 
-            if (token_._ranges.size() > 1 || negated_ ||
-                token_._ranges.front().first != token_._ranges.front().second)
+            if (brackets_)
             {
                 close_bracket(stream_);
             }
         }
 
+        // Is ch_ written as a numeric escape sequence?
+        static bool numeric(const typename string_token::index_type ch_)
+        {
+            const string chars_ = string_token::escape_char(ch_);
+
+            return chars_.size() > 1 &&
+                (chars_[1] == static_cast<char_type>('x') ||
+                chars_[1] == static_cast<char_type>('0'));
+        }
+
+        static void dump_char(const typename string_token::index_type ch_,
+            const bool brackets_, bool& numeric_, ostream& stream_)
+        {
+            if (numeric_ && ((ch_ >= '0' && ch_ <= '9') ||
+                (ch_ >= 'A' && ch_ <= 'F') || (ch_ >= 'a' && ch_ <= 'f')))
+            {
+                // Keep the digit out of the preceding escape sequence
+                const char* const digits_ = "0123456789abcdef";
+
+                stream_ << static_cast<char_type>('\\') <<
+                    static_cast<char_type>('x') <<
+                    static_cast<char_type>(digits_[ch_ / 16]) <<
+                    static_cast<char_type>(digits_[ch_ % 16]);
+                return;
+            }
+
+            switch (ch_)
+            {
+            case '-':
+            case '^':
+            case ']':
+                stream_ << static_cast<char_type>('\\');
+                break;
+            case '|':
+            case '(':
+            case ')':
+            case '?':
+            case '*':
+            case '+':
+            case '{':
+            case '}':
+            case '[':
+            case '.':
+            case '/':
+            case '$':
+                if (!brackets_)
+                {
+                    stream_ << static_cast<char_type>('\\');
+                }
+
+                break;
+            default:
+                break;
+            }
+
+            stream_ << string_token::escape_char(ch_);
+            numeric_ = numeric(ch_);
+        }
+
         static void perc_perc(std::ostream& stream_)
         {
             stream_ << "%%";
-- 
2.43.0


From 6e8c68101117e109d00a1a6dd4fd86ad3802252e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:10 +0000
Subject: [PATCH 25/30] fix: a {0,1} after another repeat operator is a syntax
 error, not a failed assertion

---
 include/lexertl/parser/tokeniser/re_token.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/lexertl/parser/tokeniser/re_token.hpp b/include/lexertl/parser/tokeniser/re_token.hpp
index 53a208b..deacf28 100644
--- a/include/lexertl/parser/tokeniser/re_token.hpp
+++ b/include/lexertl/parser/tokeniser/re_token.hpp
@@ -76,13 +76,13 @@ namespace lexertl::detail
                 /*MACRO*/  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>',
                 /*  (  */  ' ', '=', '<', '<', '<', '<', '<', ' ', ' ', '<', '<', '<', '<', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ',
                 /*  )  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>',
-                /*  ?  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
+                /*  ?  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* ??  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
-                /*  *  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
+                /*  *  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* *?  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
-                /*  +  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
+                /*  +  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* +?  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
-                /* n,m */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
+                /* n,m */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* n,m?*/  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* END */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' '
             };
-- 
2.43.0


From 83f4282d6a7abc0e530cc4b6db03edd81e978da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:38 +0000
Subject: [PATCH 26/30] fix: '$' in a wide lexer without a zero byte no longer
 reads past the charset map

---
 include/lexertl/parser/parser.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/lexertl/parser/parser.hpp b/include/lexertl/parser/parser.hpp
index 892def1..3f7dea1 100644
--- a/include/lexertl/parser/parser.hpp
+++ b/include/lexertl/parser/parser.hpp
@@ -407,6 +407,12 @@ namespace lexertl::detail
             const id_type temp_cr_id_ = lookup(cr_);
             const id_type temp_nl_id_ = lookup(nl_);
 
+            // The leading bytes of CR and NL, for build_dfa()
+            if constexpr (sm_traits::compressed)
+            {
+                lookup(string_token(0, 0));
+            }
+
             assert(handle_.top()->_type == token_type::EOL &&
                 handle_.size() == 1);
 
-- 
2.43.0


From db29f81972b9dbc1610f5a24a342f35be277b281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:05 +0000
Subject: [PATCH 27/30] fix: rows added for '$' count towards the limit of
 id_type

---
 include/lexertl/generator.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index 5220c1a..e864bdc 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -283,6 +283,9 @@ namespace lexertl
                 }
             }
 
+            fix_clashes(eol_set_, cr_id_, nl_id_, zero_id_, dfa_, dfa_alphabet_,
+                compressed());
+
             if (dfa_.size() / dfa_alphabet_ >= sm_traits::npos())
             {
                 // Overflow
@@ -290,8 +293,6 @@ namespace lexertl
                     "cannot hold this many DFA rows.");
             }
 
-            fix_clashes(eol_set_, cr_id_, nl_id_, zero_id_, dfa_, dfa_alphabet_,
-                compressed());
             append_dfa(charset_list_, internals_, sm_, dfa_index_, lookup());
         }
 
-- 
2.43.0


From 8888bc8c9ecd9e811fe76d705dd864b91c099972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:35 +0000
Subject: [PATCH 28/30] fix: rules beyond the range of id_type are still
 checked for being suppressed

---
 include/lexertl/generator.hpp            | 16 ++++++++--------
 include/lexertl/parser/parser.hpp        |  2 +-
 include/lexertl/parser/tree/end_node.hpp |  6 +++---
 include/lexertl/parser/tree/node.hpp     |  2 +-
 4 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index e864bdc..784a3e5 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -52,8 +52,8 @@ namespace lexertl
             internals internals_;
             sm temp_sm_;
             node_ptr_vector node_ptr_vector_;
-            std::set<id_type> used_ids_;
-            id_type unique_id_ = 0;
+            std::set<std::size_t> used_ids_;
+            std::size_t unique_id_ = 0;
 
             internals_._eoi = rules_.eoi();
             internals_.add_states(size_);
@@ -97,7 +97,7 @@ namespace lexertl
         static observer_ptr<node> build_tree(const rules& rules_,
             const std::size_t dfa_, node_ptr_vector& node_ptr_vector_,
             charset_map& charset_map_, id_type& cr_id_, id_type& nl_id_,
-            id_type& unique_id_)
+            std::size_t& unique_id_)
         {
             parser parser_(rules_.locale(), node_ptr_vector_, charset_map_,
                 rules_.eoi());
@@ -181,7 +181,7 @@ namespace lexertl
         static void build_dfa(const charset_map& charset_map_,
             const observer_ptr<node> root_, internals& internals_, sm& sm_,
             const id_type dfa_index_, id_type& cr_id_, id_type& nl_id_,
-            const std::size_t flags_, std::set<id_type>& used_ids_)
+            const std::size_t flags_, std::set<std::size_t>& used_ids_)
         {
             // partitioned charset list
             charset_list charset_list_;
@@ -582,11 +582,11 @@ namespace lexertl
         }
 
         static void check_suppressed(const rules& rules_,
-            const id_type unique_id_, std::set<id_type>& used_ids_)
+            const std::size_t unique_id_, std::set<std::size_t>& used_ids_)
         {
             if (!(rules_.flags() & *regex_flags::allow_suppressed_rules))
             {
-                for (id_type id_ = 0; id_ < unique_id_; ++id_)
+                for (std::size_t id_ = 0; id_ < unique_id_; ++id_)
                 {
                     if (used_ids_.find(id_ + 1) == used_ids_.end())
                     {
@@ -907,7 +907,7 @@ namespace lexertl
             node_set_vector& seen_sets_, node_vector_vector& seen_vectors_,
             size_t_vector& hash_vector_, const id_type size_,
             id_type_vector& dfa_, const std::size_t flags_,
-            std::set<id_type>& used_ids_)
+            std::set<std::size_t>& used_ids_)
         {
             bool end_state_ = false;
             id_type id_ = 0;
@@ -983,7 +983,7 @@ namespace lexertl
             id_type& push_dfa_, bool& pop_dfa_, node_set& set_ptr_,
             node_vector& vector_ptr_, std::size_t& hash_,
             greedy_repeat& greedy_, const std::size_t flags_,
-            std::set<id_type>& used_ids_)
+            std::set<std::size_t>& used_ids_)
         {
             if (node_->end_state())
             {
diff --git a/include/lexertl/parser/parser.hpp b/include/lexertl/parser/parser.hpp
index 3f7dea1..b91a77a 100644
--- a/include/lexertl/parser/parser.hpp
+++ b/include/lexertl/parser/parser.hpp
@@ -91,7 +91,7 @@ namespace lexertl::detail
         }
 
         observer_ptr<node> parse(const token_vector& regex_, const id_type id_,
-            const id_type user_id_, const id_type unique_id_,
+            const id_type user_id_, const std::size_t unique_id_,
             const id_type next_dfa_, const id_type push_dfa_,
             const bool pop_dfa_, id_type& cr_id_, id_type& nl_id_,
             const bool seen_bol_)
diff --git a/include/lexertl/parser/tree/end_node.hpp b/include/lexertl/parser/tree/end_node.hpp
index aa02515..97b2476 100644
--- a/include/lexertl/parser/tree/end_node.hpp
+++ b/include/lexertl/parser/tree/end_node.hpp
@@ -24,7 +24,7 @@ namespace lexertl::detail
         using node_vector = typename node::node_vector;
 
         basic_end_node(const id_type id_,
-            const id_type user_id_, const id_type unique_id_,
+            const id_type user_id_, const std::size_t unique_id_,
             const id_type next_dfa_, const id_type push_dfa_,
             const bool pop_dfa_, const greedy_repeat greedy_) :
             node(false),
@@ -85,7 +85,7 @@ namespace lexertl::detail
             return _user_id;
         }
 
-        id_type unique_id() const override
+        std::size_t unique_id() const override
         {
             return _unique_id;
         }
@@ -108,7 +108,7 @@ namespace lexertl::detail
     private:
         id_type _id;
         id_type _user_id;
-        id_type _unique_id;
+        std::size_t _unique_id;
         id_type _next_dfa;
         id_type _push_dfa;
         bool _pop_dfa;
diff --git a/include/lexertl/parser/tree/node.hpp b/include/lexertl/parser/tree/node.hpp
index ae68c1f..ec8ad1c 100644
--- a/include/lexertl/parser/tree/node.hpp
+++ b/include/lexertl/parser/tree/node.hpp
@@ -147,7 +147,7 @@ namespace lexertl::detail
 #endif
         }
 
-        virtual id_type unique_id() const
+        virtual std::size_t unique_id() const
         {
             throw runtime_error("Internal error node::unique_id().");
 #ifdef __SUNPRO_CC
-- 
2.43.0


From d07b6ffa46d76550bb050fd06e01e0ad6e339606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:23 +0000
Subject: [PATCH 29/30] fix: hexadecimal escapes too long for size_t are
 rejected

---
 include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
index 8b06ba0..37806d3 100644
--- a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
+++ b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
@@ -1323,9 +1323,11 @@ namespace lexertl::detail
             }
 
             std::size_t hex_ = 0;
+            bool overflow_ = false;
 
             do
             {
+                overflow_ |= hex_ > ~static_cast<std::size_t>(0) / 16;
                 hex_ *= 16;
 
                 if (ch_ >= '0' && ch_ <= '9')
@@ -1361,7 +1363,8 @@ namespace lexertl::detail
                 }
             } while (!eos_);
 
-            if (hex_ > static_cast<std::size_t>(char_traits::max_val()))
+            if (overflow_ ||
+                hex_ > static_cast<std::size_t>(char_traits::max_val()))
             {
                 std::ostringstream ss_;
 
-- 
2.43.0


From 133f2f65cd2be79cdd373f4ed2131de044594f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:23 +0000
Subject: [PATCH 30/30] fix: repeat counts too large for size_t are rejected

---
 .../lexertl/parser/tokeniser/re_tokeniser.hpp | 26 ++++++++++++++++---
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/lexertl/parser/tokeniser/re_tokeniser.hpp b/include/lexertl/parser/tokeniser/re_tokeniser.hpp
index ddc855b..46a36ab 100644
--- a/include/lexertl/parser/tokeniser/re_tokeniser.hpp
+++ b/include/lexertl/parser/tokeniser/re_tokeniser.hpp
@@ -544,6 +544,26 @@ namespace lexertl::detail
             }
         }
 
+        // Appends a decimal digit to a repeat count
+        static void append_digit(std::size_t& count_,
+            const rules_char_type ch_, const state& state_)
+        {
+            const std::size_t digit_ = static_cast<std::size_t>(ch_) - '0';
+
+            if (count_ > (~static_cast<std::size_t>(0) - digit_) / 10)
+            {
+                std::ostringstream ss_;
+
+                ss_ << "Repeat count too large preceding index " <<
+                    state_.index();
+                state_.error(ss_);
+                throw runtime_error(ss_.str());
+            }
+
+            count_ *= 10;
+            count_ += digit_;
+        }
+
         // SYNTAX:
         //   {n[,[n]]}
         // SEMANTIC RULES:
@@ -563,8 +583,7 @@ namespace lexertl::detail
 
             while (!eos_ && ch_ >= '0' && ch_ <= '9')
             {
-                min_ *= 10;
-                min_ += static_cast<std::size_t>(ch_) - '0';
+                append_digit(min_, ch_, state_);
                 token_._extra += ch_;
                 eos_ = state_.next(ch_);
             }
@@ -630,8 +649,7 @@ namespace lexertl::detail
 
                     do
                     {
-                        max_ *= 10;
-                        max_ += static_cast<std::size_t>(ch_) - '0';
+                        append_digit(max_, ch_, state_);
                         token_._extra += ch_;
                         eos_ = state_.next(ch_);
                     } while (!eos_ && ch_ >= '0' && ch_ <= '9');
-- 
2.43.0

