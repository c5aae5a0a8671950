From bdd5df9c1a748eada39657ab16125323701e0c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:20 +0000
Subject: [PATCH 1/7] fix: make sequenced index sort stable

When collating runs, the partial result holding earlier elements was merged
into the later carry, so equivalent elements could be reordered. Merge in the
documented (stable) direction.
---
 include/boost/multi_index/detail/seq_index_ops.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/boost/multi_index/detail/seq_index_ops.hpp b/include/boost/multi_index/detail/seq_index_ops.hpp
index b12cc32..4081a3d 100644
--- a/include/boost/multi_index/detail/seq_index_ops.hpp
+++ b/include/boost/multi_index/detail/seq_index_ops.hpp
@@ -160,7 +160,15 @@ void sequenced_index_sort(Node* header,Compare comp)
       impl_type::relink(carry.next(),header->next());
       std::size_t i=0;
       while(i<fill&&counter[i].next()!=static_cast<impl_pointer>(&counter[i])){
-        sequenced_index_collate<Node>(&carry,&counter[i++],comp);
+        /* counter[i] precedes carry in the original order: for the sake of
+         * stability the merge must be done in this direction.
+         */
+
+        sequenced_index_collate<Node>(&counter[i],&carry,comp);
+        impl_type::swap(
+          static_cast<impl_pointer>(&carry),
+          static_cast<impl_pointer>(&counter[i]));
+        ++i;
       }
       impl_type::swap(
         static_cast<impl_pointer>(&carry),
-- 
2.43.0


From b2dc2c23a6b530a207fb7ebcbd18e2d7ab25bb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:20 +0000
Subject: [PATCH 2/7] fix: pass arguments to random access index unique's
 predicate in documented order

unique(binary_pred) is specified to call binary_pred(*i,*(i-1)); the random
access index called it with the arguments swapped, unlike the sequenced index.
---
 include/boost/multi_index/detail/rnd_index_ops.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/multi_index/detail/rnd_index_ops.hpp b/include/boost/multi_index/detail/rnd_index_ops.hpp
index f5e76e4..6ed6745 100644
--- a/include/boost/multi_index/detail/rnd_index_ops.hpp
+++ b/include/boost/multi_index/detail/rnd_index_ops.hpp
@@ -64,8 +64,8 @@ Node* random_access_index_unique(
   if(first!=last){
     for(;++first!=last;){
       if(!binary_pred(
-           const_cast<const value_type&>(Node::from_impl(*res)->value()),
-           const_cast<const value_type&>(Node::from_impl(*first)->value()))){
+           const_cast<const value_type&>(Node::from_impl(*first)->value()),
+           const_cast<const value_type&>(Node::from_impl(*res)->value()))){
         ++res;
         if(first!=res){
           std::swap(*first,*res);
-- 
2.43.0


From 3a7fde2f3bd9b0b6eab4049a582986fc4d8939bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:06 +0000
Subject: [PATCH 3/7] fix: keep rolled-back element when modify's rollback
 restores it after an exception

The rethrow in modify_ was placed inside the inner try block guarding back_,
so the inner handler always erased the element (twice when the rollback did
not restore it). Rethrow after the inner handler instead.
---
 include/boost/multi_index_container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/multi_index_container.hpp b/include/boost/multi_index_container.hpp
index 8ac43fc..6a1d248 100644
--- a/include/boost/multi_index_container.hpp
+++ b/include/boost/multi_index_container.hpp
@@ -1077,13 +1077,13 @@ BOOST_MULTI_INDEX_PROTECTED_IF_MEMBER_TEMPLATE_FRIENDS:
       BOOST_TRY{
         back_(const_cast<value_type&>(x->value()));
         if(!super::check_rollback_(x))this->erase_(x);
-        BOOST_RETHROW;
       }
       BOOST_CATCH(...){
         this->erase_(x);
         BOOST_RETHROW;
       }
       BOOST_CATCH_END
+      BOOST_RETHROW;
     }
     BOOST_CATCH_END
 
-- 
2.43.0


From 467ed65c6e9762a028b221e8bc9219fd001fd111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:06 +0000
Subject: [PATCH 4/7] fix: rethrow exceptions in range splice of sequenced
 indices

external_splice swallowed any exception thrown while transferring a range and
then relinked a second time, corrupting the order of the index.
---
 include/boost/multi_index/sequenced_index.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/multi_index/sequenced_index.hpp b/include/boost/multi_index/sequenced_index.hpp
index 770a6ce..3ea6f5f 100644
--- a/include/boost/multi_index/sequenced_index.hpp
+++ b/include/boost/multi_index/sequenced_index.hpp
@@ -1110,6 +1110,7 @@ private:
       BOOST_CATCH(...){
         ++first_to_relink;
         relink(position.get_node(),first_to_relink.get_node(),header());
+        BOOST_RETHROW;
       }
       BOOST_CATCH_END
       ++first_to_relink;
-- 
2.43.0


From 6afa47a338cc04b08288a062c1e756c624479a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:45 +0000
Subject: [PATCH 5/7] fix: bucket and pointer arrays of a copied container use
 its own allocator

---
 include/boost/multi_index/hashed_index.hpp        | 4 ++--
 include/boost/multi_index/random_access_index.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/multi_index/hashed_index.hpp b/include/boost/multi_index/hashed_index.hpp
index 5100d3c..e9820b5 100644
--- a/include/boost/multi_index/hashed_index.hpp
+++ b/include/boost/multi_index/hashed_index.hpp
@@ -770,7 +770,7 @@ BOOST_MULTI_INDEX_PROTECTED_IF_MEMBER_TEMPLATE_FRIENDS:
     key(x.key),
     hash_(x.hash_),
     eq_(x.eq_),
-    buckets(x.get_allocator(),header()->impl(),x.buckets.size()),
+    buckets(get_allocator(),header()->impl(),x.buckets.size()),
     mlf(x.mlf),
     max_load(x.max_load)
 
@@ -791,7 +791,7 @@ BOOST_MULTI_INDEX_PROTECTED_IF_MEMBER_TEMPLATE_FRIENDS:
     key(x.key),
     hash_(x.hash_),
     eq_(x.eq_),
-    buckets(x.get_allocator(),header()->impl(),0),
+    buckets(get_allocator(),header()->impl(),0),
     mlf(1.0f)
 
 #if defined(BOOST_MULTI_INDEX_ENABLE_SAFE_MODE)
diff --git a/include/boost/multi_index/random_access_index.hpp b/include/boost/multi_index/random_access_index.hpp
index 96b4565..a8d0b8f 100644
--- a/include/boost/multi_index/random_access_index.hpp
+++ b/include/boost/multi_index/random_access_index.hpp
@@ -766,7 +766,7 @@ BOOST_MULTI_INDEX_PROTECTED_IF_MEMBER_TEMPLATE_FRIENDS:
 
   random_access_index(const random_access_index<SuperMeta,TagList>& x):
     super(x),
-    ptrs(x.get_allocator(),header()->impl(),x.size())
+    ptrs(get_allocator(),header()->impl(),x.size())
 
 #if defined(BOOST_MULTI_INDEX_ENABLE_SAFE_MODE)
     ,safe(*this)
@@ -780,7 +780,7 @@ BOOST_MULTI_INDEX_PROTECTED_IF_MEMBER_TEMPLATE_FRIENDS:
   random_access_index(
     const random_access_index<SuperMeta,TagList>& x,do_not_copy_elements_tag):
     super(x,do_not_copy_elements_tag()),
-    ptrs(x.get_allocator(),header()->impl(),0)
+    ptrs(get_allocator(),header()->impl(),0)
 
 #if defined(BOOST_MULTI_INDEX_ENABLE_SAFE_MODE)
     ,safe(*this)
-- 
2.43.0


From 6af66e4710dc38ab2a52468dd1d4c35e0a3e2e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:03 +0000
Subject: [PATCH 6/7] fix: whole splice from another index of the same
 container repositions the elements

---
 include/boost/multi_index/random_access_index.hpp | 1 +
 include/boost/multi_index/sequenced_index.hpp     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/boost/multi_index/random_access_index.hpp b/include/boost/multi_index/random_access_index.hpp
index a8d0b8f..6a7d9c1 100644
--- a/include/boost/multi_index/random_access_index.hpp
+++ b/include/boost/multi_index/random_access_index.hpp
@@ -536,6 +536,7 @@ public:
     if(x.end().get_node()==this->header()){ /* same container */
       BOOST_MULTI_INDEX_SAFE_MODE_ASSERT(
         position==end(),safe_mode::inside_range);
+      internal_splice(position,x.begin(),x.end());
     }
     else{
       external_splice(
diff --git a/include/boost/multi_index/sequenced_index.hpp b/include/boost/multi_index/sequenced_index.hpp
index 3ea6f5f..6f84388 100644
--- a/include/boost/multi_index/sequenced_index.hpp
+++ b/include/boost/multi_index/sequenced_index.hpp
@@ -487,6 +487,7 @@ public:
     if(x.end().get_node()==this->header()){ /* same container */
       BOOST_MULTI_INDEX_SAFE_MODE_ASSERT(
         position==end(),safe_mode::inside_range);
+      internal_splice(position,x.begin(),x.end());
     }
     else{
       external_splice(
-- 
2.43.0


From 2672c8cdd807a126ec10e9590d96018509ef531e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:31 +0000
Subject: [PATCH 7/7] fix: check the position of range insertions in safe mode

---
 include/boost/multi_index/random_access_index.hpp | 2 ++
 include/boost/multi_index/sequenced_index.hpp     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/boost/multi_index/random_access_index.hpp b/include/boost/multi_index/random_access_index.hpp
index 6a7d9c1..af865f1 100644
--- a/include/boost/multi_index/random_access_index.hpp
+++ b/include/boost/multi_index/random_access_index.hpp
@@ -1046,6 +1046,8 @@ private:
   void insert_iter(
     iterator position,InputIterator first,InputIterator last,mpl::true_)
   {
+    BOOST_MULTI_INDEX_CHECK_VALID_ITERATOR(position);
+    BOOST_MULTI_INDEX_CHECK_IS_OWNER(position,*this);
     BOOST_MULTI_INDEX_RND_INDEX_CHECK_INVARIANT;
     size_type s=0;
     BOOST_TRY{
diff --git a/include/boost/multi_index/sequenced_index.hpp b/include/boost/multi_index/sequenced_index.hpp
index 6f84388..f404e22 100644
--- a/include/boost/multi_index/sequenced_index.hpp
+++ b/include/boost/multi_index/sequenced_index.hpp
@@ -974,6 +974,8 @@ private:
   void insert_iter(
     iterator position,InputIterator first,InputIterator last,mpl::true_)
   {
+    BOOST_MULTI_INDEX_CHECK_VALID_ITERATOR(position);
+    BOOST_MULTI_INDEX_CHECK_IS_OWNER(position,*this);
     BOOST_MULTI_INDEX_SEQ_INDEX_CHECK_INVARIANT;
     for(;first!=last;++first){
       std::pair<final_node_type*,bool> p=
-- 
2.43.0

