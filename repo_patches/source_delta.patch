From d1e283e8ccf19954ecdc4abda295c361f2bf67bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:59 +0000
Subject: [PATCH 01/71] fix: do not drop a pending data receive when another
 sender uses the same tag

Data tags are allocated by each sender on its own, so two ranks can use the
same tag towards one receiver at the same time. The receiver keyed its pending
receives by tag alone and silently dropped the second one: that message was
never delivered and its epoch never terminated.
---
 src/vt/messaging/active.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/messaging/active.h b/src/vt/messaging/active.h
index 544dbb0..05900a8 100644
--- a/src/vt/messaging/active.h
+++ b/src/vt/messaging/active.h
@@ -326,7 +326,7 @@ struct ActiveMessenger : runtime::component::PollableComponent<ActiveMessenger>
   using EventRecordType      = event::AsyncEvent::EventRecordType;
   using SendFnType           = std::function<SendInfo(PtrLenPairType,NodeType,TagType)>;
   using UserSendFnType       = std::function<void(SendFnType)>;
-  using ContainerPendingType = std::unordered_map<TagType,PendingRecvType>;
+  using ContainerPendingType = std::unordered_multimap<TagType,PendingRecvType>;
   using ReadyHanTagType      = std::tuple<HandlerType, TagType>;
   using HandlerManagerType   = HandlerManager;
   using PendingSendType      = PendingSend;
-- 
2.43.0


From baf8bfa3f019c870570c04f3a51bb1ca13e160e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 02/71] fix: receive every chunk of a put payload larger than
 the maximum MPI send size

The sender splits such a payload into chunks, but the receiver only took the
first one: the handler saw a truncated payload and the left-over chunks stayed
in MPI, to be matched by a later receive.
---
 src/vt/messaging/active.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vt/messaging/active.cc b/src/vt/messaging/active.cc
index 8ed080b..e0ace8a 100644
--- a/src/vt/messaging/active.cc
+++ b/src/vt/messaging/active.cc
@@ -1105,8 +1105,12 @@ void ActiveMessenger::finishPendingActiveMsgAsyncRecv(InProgressIRecv* irecv) {
       envelopeSetPutPtrOnly(msg->env, put_ptr);
       put_finished = true;
     } else {
-      /*bool const put_delivered = */recvDataMsg(
-        1, put_tag, sender,
+      // The sender splits a payload larger than the maximum MPI send size
+      auto const put_size = envelopeGetPutSize(msg->env);
+      auto const max_per_send = theConfig()->vt_max_mpi_send_size;
+      auto const nchunks = (put_size + max_per_send - 1) / max_per_send;
+      recvDataDirect(
+        static_cast<int>(nchunks), put_tag, sender, put_size,
         [=](PtrLenPairType ptr, ActionType deleter){
           envelopeSetPutPtr(base->env, std::get<0>(ptr), std::get<1>(ptr));
           processActiveMsg(base, sender, true, deleter);
-- 
2.43.0


From 2982403a990b5b047452f1ab9ad122fad34447dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 03/71] fix: keep a received put payload until the sends that
 forward it complete

A put message that is broadcast is forwarded down the tree straight from the
received payload buffer, with asynchronous sends. The buffer was released as
soon as the local handler had run, so that a pending send read freed memory.
---
 src/vt/messaging/active.cc | 18 +++++++++++++++++-
 src/vt/messaging/active.h  |  2 ++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/vt/messaging/active.cc b/src/vt/messaging/active.cc
index e0ace8a..cffab93 100644
--- a/src/vt/messaging/active.cc
+++ b/src/vt/messaging/active.cc
@@ -272,6 +272,9 @@ EventType ActiveMessenger::sendMsgBytesWithPut(
       if (ret_tag != env_tag) {
         envelopeSetPutTag(msg->env, ret_tag);
       }
+      if (hold_put_buffer_ != nullptr) {
+        hold_put_buffer_(ret.getEvent());
+      }
     }
   }
 
@@ -1113,7 +1116,20 @@ void ActiveMessenger::finishPendingActiveMsgAsyncRecv(InProgressIRecv* irecv) {
         static_cast<int>(nchunks), put_tag, sender, put_size,
         [=](PtrLenPairType ptr, ActionType deleter){
           envelopeSetPutPtr(base->env, std::get<0>(ptr), std::get<1>(ptr));
-          processActiveMsg(base, sender, true, deleter);
+          // Forwarding a broadcast sends from this buffer: release it only when
+          // the handler has run and all of those sends have completed
+          auto users = std::make_shared<int>(1);
+          auto release = [=]{
+            if (--*users == 0) {
+              deleter();
+            }
+          };
+          hold_put_buffer_ = [=](EventType event) {
+            ++*users;
+            theEvent()->attachAction(event, release);
+          };
+          processActiveMsg(base, sender, true, release);
+          hold_put_buffer_ = nullptr;
         }
      );
     }
diff --git a/src/vt/messaging/active.h b/src/vt/messaging/active.h
index 05900a8..55d6e9d 100644
--- a/src/vt/messaging/active.h
+++ b/src/vt/messaging/active.h
@@ -1745,6 +1745,8 @@ private:
 # endif
 
   ContainerPendingType pending_recvs_                     = {};
+  // Set while a received put payload is forwarded: keeps its buffer for a send
+  std::function<void(EventType)> hold_put_buffer_         = nullptr;
   TagType cur_direct_buffer_tag_                          = starting_direct_buffer_tag;
   RequestHolder<InProgressIRecv> in_progress_active_msg_irecv;
   RequestHolder<InProgressDataIRecv> in_progress_data_irecv;
-- 
2.43.0


From 9c675c35daacfae227125ede06c236ebc32b12fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 04/71] fix: forward a broadcast put payload with a tag of the
 forwarding rank

The forwarding rank reused the data tag that the previous sender had chosen.
Data tags are only unique per sender, so that tag could belong to another
payload in flight between the same two ranks and the two were mixed up.
---
 src/vt/messaging/active.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vt/messaging/active.cc b/src/vt/messaging/active.cc
index cffab93..42b03c7 100644
--- a/src/vt/messaging/active.cc
+++ b/src/vt/messaging/active.cc
@@ -1116,6 +1116,9 @@ void ActiveMessenger::finishPendingActiveMsgAsyncRecv(InProgressIRecv* irecv) {
         static_cast<int>(nchunks), put_tag, sender, put_size,
         [=](PtrLenPairType ptr, ActionType deleter){
           envelopeSetPutPtr(base->env, std::get<0>(ptr), std::get<1>(ptr));
+          // The tag was allocated by the sender: when a broadcast is forwarded,
+          // this node must use one of its own
+          envelopeSetPutTag(base->env, no_tag);
           // Forwarding a broadcast sends from this buffer: release it only when
           // the handler has run and all of those sends have completed
           auto users = std::make_shared<int>(1);
-- 
2.43.0


From bf29047de0adabb4f43b6487285eb4cda4ddfdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:27 +0000
Subject: [PATCH 05/71] fix: handle the end of a rooted epoch once on a node
 that inquired about it

---
 src/vt/termination/termination.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/vt/termination/termination.cc b/src/vt/termination/termination.cc
index 197b705..4e9803c 100644
--- a/src/vt/termination/termination.cc
+++ b/src/vt/termination/termination.cc
@@ -649,6 +649,16 @@ void TerminationDetector::epochTerminated(EpochType const& epoch, CallFromEnum f
     epoch, isRooted(epoch), isDS(epoch), from == CallFromEnum::Root ? true : false
   );
 
+  // A node that inquired about a rooted (non-DS) epoch is told twice that it has
+  // terminated: by the reply and by the broadcast from the root. Only the first
+  // notification counts.
+  if (
+    from == CallFromEnum::NonRoot and isRooted(epoch) and not isDS(epoch) and
+    theEpoch()->getTerminatedWindow(epoch)->isTerminated(epoch)
+  ) {
+    return;
+  }
+
   // Clear all the successor epochs that are nested by this epoch (waiting on it
   // to complete)
   if (epoch != term::any_epoch_sentinel) {
-- 
2.43.0


From c6356ad3650a012a0856c76914dc938fa8e5d77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:38 +0000
Subject: [PATCH 06/71] fix: do not copy the insert hint of an interval set
 into another set

---
 src/vt/termination/interval/integral_set.h | 29 +++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/vt/termination/interval/integral_set.h b/src/vt/termination/interval/integral_set.h
index ff76a61..1d389a0 100644
--- a/src/vt/termination/interval/integral_set.h
+++ b/src/vt/termination/interval/integral_set.h
@@ -79,9 +79,32 @@ struct IntegralSetBase {
   using PositionType        = typename IntervalType::PositionEnum;
 
   IntegralSetBase() : hint_(set_.end()) { }
-  IntegralSetBase(IntegralSetBase const&) = default;
-  IntegralSetBase(IntegralSetBase&&) = default;
-  IntegralSetBase& operator=(IntegralSetBase const&) = default;
+
+  // The hint is an iterator into this instance's set, it can not be copied
+  IntegralSetBase(IntegralSetBase const& in)
+    : lb_(in.lb_),
+      ub_(in.ub_),
+      set_(in.set_),
+      hint_(set_.end()),
+      elms_(in.elms_)
+  { }
+  IntegralSetBase(IntegralSetBase&& in)
+    : lb_(in.lb_),
+      ub_(in.ub_),
+      set_(std::move(in.set_)),
+      hint_(set_.end()),
+      elms_(in.elms_)
+  {
+    in.clear();
+  }
+  IntegralSetBase& operator=(IntegralSetBase const& in) {
+    lb_ = in.lb_;
+    ub_ = in.ub_;
+    set_ = in.set_;
+    hint_ = set_.end();
+    elms_ = in.elms_;
+    return *this;
+  }
 
   explicit IntegralSetBase(DomainT base)
     : lb_(base),
-- 
2.43.0


From ebbef04b7ae512f4ac8230594e988efd2a394cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:38 +0000
Subject: [PATCH 07/71] fix: an interval set that is cleared has no elements

---
 src/vt/termination/interval/integral_set.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vt/termination/interval/integral_set.h b/src/vt/termination/interval/integral_set.h
index 1d389a0..a1daa20 100644
--- a/src/vt/termination/interval/integral_set.h
+++ b/src/vt/termination/interval/integral_set.h
@@ -252,6 +252,7 @@ struct IntegralSetBase {
   void clear() {
     set_.clear();
     lb_ = ub_ = 0;
+    elms_ = 0;
     hint_ = set_.end();
   }
 
-- 
2.43.0


From 9bec1e68a3db22978dd889ed4bc51a8016d71005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:57 +0000
Subject: [PATCH 08/71] fix: skip epochs that are in use when allocating the
 next epoch

---
 src/vt/epoch/epoch_window.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vt/epoch/epoch_window.cc b/src/vt/epoch/epoch_window.cc
index cefa98a..5fe933e 100644
--- a/src/vt/epoch/epoch_window.cc
+++ b/src/vt/epoch/epoch_window.cc
@@ -110,9 +110,8 @@ EpochType EpochWindow::allocateNewEpoch() {
   // be allocated
   do {
     EpochType next = EpochType{*next_epoch_};
+    (*next_epoch_)++;
     if (terminated_epochs_.contains(next)) {
-      (*next_epoch_)++;
-
       // Tell the system the epoch is now active
       activateEpoch(next);
       return next;
-- 
2.43.0


From c7ce4e1f93ffef8fb2a6d6882d868dae71903489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:57 +0000
Subject: [PATCH 09/71] fix: do not lose an epoch of the window with every
 rooted epoch

---
 src/vt/epoch/epoch_manip.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vt/epoch/epoch_manip.cc b/src/vt/epoch/epoch_manip.cc
index 0ce8109..70834a7 100644
--- a/src/vt/epoch/epoch_manip.cc
+++ b/src/vt/epoch/epoch_manip.cc
@@ -104,8 +104,7 @@ EpochType EpochManip::getNextRootedEpoch(
   eEpochCategory const& category
 ) {
   auto const root_node = theContext()->getNode();
-  auto const arch_epoch = getNextRootedEpoch(category, root_node);
-  return getTerminatedWindow(arch_epoch)->allocateNewEpoch();
+  return getNextRootedEpoch(category, root_node);
 }
 
 EpochType EpochManip::getNextRootedEpoch(
-- 
2.43.0


From 580a4d91c8bad22350244dc3eddd94c2e6d60ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:22 +0000
Subject: [PATCH 10/71] fix: grow a pool allocation only into bytes that are
 not part of it

---
 src/vt/messaging/active.cc |  2 +-
 src/vt/pool/pool.cc        | 19 +++++++++++++++++--
 src/vt/pool/pool.h         | 12 ++++++++++++
 3 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/vt/messaging/active.cc b/src/vt/messaging/active.cc
index 42b03c7..c4511cf 100644
--- a/src/vt/messaging/active.cc
+++ b/src/vt/messaging/active.cc
@@ -238,7 +238,7 @@ EventType ActiveMessenger::sendMsgBytesWithPut(
     auto const& put_ptr = envelopeGetPutPtr(msg->env);
     auto const& put_size = envelopeGetPutSize(msg->env);
     bool const& memory_pool_active = thePool()->active_env();
-    auto const& rem_size = thePool()->remainingSize(reinterpret_cast<std::byte*>(msg));
+    auto const& rem_size = thePool()->growableSize(reinterpret_cast<std::byte*>(msg));
     /*
      * Directly pack if the pool is active (which means it may have
      * overallocated and the remaining size of the (envelope) buffer is
diff --git a/src/vt/pool/pool.cc b/src/vt/pool/pool.cc
index 97b45b3..e892bcd 100644
--- a/src/vt/pool/pool.cc
+++ b/src/vt/pool/pool.cc
@@ -218,6 +218,21 @@ Pool::SizeType Pool::remainingSize(
   #endif
 }
 
+Pool::SizeType Pool::growableSize(
+  [[maybe_unused]] std::byte* const buf
+) const {
+  #if vt_check_enabled(memory_pool)
+    auto const& actual_alloc_size = HeaderManagerType::getHeaderBytes(buf);
+    auto const& oversize = HeaderManagerType::getHeaderOversizeBytes(buf);
+
+    if (getPoolType(actual_alloc_size, oversize) != ePoolSize::Malloc) {
+      return remainingSize(buf) - oversize;
+    }
+  #endif
+
+  return 0;
+}
+
 Pool::SizeType Pool::allocatedSize(std::byte* const buf) const {
   return HeaderManagerType::getHeaderBytes(buf) + HeaderManagerType::getHeaderOversizeBytes(buf);
 }
@@ -225,8 +240,8 @@ Pool::SizeType Pool::allocatedSize(std::byte* const buf) const {
 bool
 Pool::tryGrowAllocation(std::byte* buf, size_t grow_amount) {
   // For non-pooled alloc, this condition will always be true
-  // since remainingSize(buf) would be 0
-  if ( remainingSize(buf) < grow_amount )
+  // since growableSize(buf) would be 0
+  if ( growableSize(buf) < grow_amount )
     return false;
 
   auto *header = reinterpret_cast<Header*>(HeaderManagerType::getHeaderPtr(buf));
diff --git a/src/vt/pool/pool.h b/src/vt/pool/pool.h
index 9556e51..8c45a5b 100644
--- a/src/vt/pool/pool.h
+++ b/src/vt/pool/pool.h
@@ -132,6 +132,18 @@ struct Pool : runtime::component::Component<Pool> {
    */
   SizeType remainingSize(std::byte* const buf) const;
 
+  /**
+   * \internal \brief Get how far a pool allocation can grow
+   *
+   * Unlike \c remainingSize, this does not count the oversize bytes, which
+   * already belong to the allocation.
+   *
+   * \param[in] buf the buffer allocated from the pool
+   *
+   * \return number of bytes of the block that the allocation does not use
+   */
+  SizeType growableSize(std::byte* const buf) const;
+
   /**
    * \internal \brief Get total allocated bytes for a pool allocation
    *
-- 
2.43.0


From 8e8ad6a043357918dd9ebc03424dda7cae1e7b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:34 +0000
Subject: [PATCH 11/71] fix: bit mask of a field that is as wide as the word

---
 src/vt/utils/bits/bits_packer.impl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vt/utils/bits/bits_packer.impl.h b/src/vt/utils/bits/bits_packer.impl.h
index 7329336..76f0701 100644
--- a/src/vt/utils/bits/bits_packer.impl.h
+++ b/src/vt/utils/bits/bits_packer.impl.h
@@ -50,7 +50,8 @@
 
 namespace vt { namespace utils {
 
-#define gen_bit_mask(len) ((static_cast<uint64_t>(1) << (len)) - 1)
+#define gen_bit_mask(len)                                             \
+  ((len) < 64 ? (static_cast<uint64_t>(1) << (len)) - 1 : ~static_cast<uint64_t>(0))
 
 using FieldType = BitPacker::FieldType;
 
-- 
2.43.0


From 3eeaa9b3e1c80b4926036a41421c66a960505c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:11 +0000
Subject: [PATCH 12/71] fix: truncate a segment to its field in words narrower
 than int

---
 src/vt/utils/bits/bits_packer.impl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vt/utils/bits/bits_packer.impl.h b/src/vt/utils/bits/bits_packer.impl.h
index 76f0701..4ce0261 100644
--- a/src/vt/utils/bits/bits_packer.impl.h
+++ b/src/vt/utils/bits/bits_packer.impl.h
@@ -124,7 +124,9 @@ BitPacker::setFieldDynamic(
   auto const nbits = (sizeof(BitField) * 8) - len;
   field = field & ~(gen_bit_mask(len) << start);
   auto seg = bit_cast<UnsignedBitField>(static_cast<BitField>(segment));
-  UnsignedBitField bits = ((seg << nbits) >> nbits) << start;
+  // the shift of a type narrower than int gives an int: drop the excess bits
+  auto const high = static_cast<UnsignedBitField>(seg << nbits);
+  UnsignedBitField bits = (high >> nbits) << start;
   field = field | bit_cast<BitField>( bits );
 }
 
-- 
2.43.0


From 7500ce2658672db5ba8188f5dd62d3fc4ca7fd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:36 +0000
Subject: [PATCH 13/71] fix: count the last, partial stride in the size of a
 group range

---
 src/vt/group/region/group_range.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/group/region/group_range.cc b/src/vt/group/region/group_range.cc
index e237868..4a6af31 100644
--- a/src/vt/group/region/group_range.cc
+++ b/src/vt/group/region/group_range.cc
@@ -63,7 +63,7 @@ Range::Range(
 }
 
 /*virtual*/ Range::SizeType Range::getSize() const {
-  return (hi_ - lo_) / stride_;
+  return hi_ > lo_ ? (hi_ - lo_ + stride_ - 1) / stride_ : 0;
 }
 
 /*virtual*/ void Range::sort() {
-- 
2.43.0


From 25f061ad0fbd9617f533b82efc2ad48adec4f22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:36 +0000
Subject: [PATCH 14/71] fix: membership in a group range counts strides from
 its lower bound

---
 src/vt/group/region/group_range.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/group/region/group_range.cc b/src/vt/group/region/group_range.cc
index 4a6af31..48eed41 100644
--- a/src/vt/group/region/group_range.cc
+++ b/src/vt/group/region/group_range.cc
@@ -76,7 +76,7 @@ Range::Range(
     // List must be sorted
     return std::binary_search(list_.begin(), list_.end(), node);
   } else {
-    return node >= lo_ && node < hi_ && node % stride_ == 0;
+    return node >= lo_ && node < hi_ && (node - lo_) % stride_ == 0;
   }
 }
 
-- 
2.43.0


From ba1703276c63b61115fab7ad2e724967ef425e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:36 +0000
Subject: [PATCH 15/71] fix: split a group range at one of its elements

---
 src/vt/group/region/group_range.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/group/region/group_range.cc b/src/vt/group/region/group_range.cc
index 48eed41..5b0d7b5 100644
--- a/src/vt/group/region/group_range.cc
+++ b/src/vt/group/region/group_range.cc
@@ -114,7 +114,7 @@ Range::Range(Range const& in_other, BoundType in_remove_extent)
 
 /*virtual*/ Range::SplitRegionType Range::split() const {
   auto const& size = getSize();
-  auto const& span = (hi_ - lo_) / 2;
+  BoundType const span = static_cast<BoundType>(size / 2) * stride_;
   vtAssert(
     size >= 2, "Size must be at least 2 to split"
   );
-- 
2.43.0


From 2be4bb199ec4a02ac4428ba417e50a23b4b65fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:36 +0000
Subject: [PATCH 16/71] fix: do not take the copy of an unsorted shallow group
 list as sorted

---
 src/vt/group/region/group_shallow_list.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/group/region/group_shallow_list.cc b/src/vt/group/region/group_shallow_list.cc
index a68b4a6..0e5f566 100644
--- a/src/vt/group/region/group_shallow_list.cc
+++ b/src/vt/group/region/group_shallow_list.cc
@@ -113,7 +113,7 @@ ShallowList::ShallowList(ListType const& in_list)
 }
 
 /*virtual*/ ShallowList::RegionUPtrType ShallowList::copy() const {
-  return std::make_unique<List>(bound_, size_, true);
+  return std::make_unique<List>(bound_, size_, false);
 }
 
 /*virtual*/ void ShallowList::splitN(int nsplits, ApplyFnType apply) const {
-- 
2.43.0


From d95c430c7a0d41d6c941a301224d570a97e5235b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:36 +0000
Subject: [PATCH 17/71] fix: count the children in the number of descendants of
 this node

---
 src/vt/collective/tree/tree.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/collective/tree/tree.cc b/src/vt/collective/tree/tree.cc
index 2f86909..eecccc8 100644
--- a/src/vt/collective/tree/tree.cc
+++ b/src/vt/collective/tree/tree.cc
@@ -106,7 +106,7 @@ std::size_t Tree::getNumDescendants(NodeType child) const {
 std::size_t Tree::getNumDescendants() const {
   auto total_size = 0;
   foreachChild([this,&total_size](NodeType child){
-    total_size += getNumDescendants(child);
+    total_size += getNumDescendants(child) + 1;
   });
   return total_size;
 }
-- 
2.43.0


From 3f2d6d06d49242183d6024954f6e8999672f06e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:36 +0000
Subject: [PATCH 18/71] fix: map negative indices of an unbounded collection to
 a node

---
 src/vt/topos/mapping/dense/unbounded_default.impl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vt/topos/mapping/dense/unbounded_default.impl.h b/src/vt/topos/mapping/dense/unbounded_default.impl.h
index ce9423e..a2180c2 100644
--- a/src/vt/topos/mapping/dense/unbounded_default.impl.h
+++ b/src/vt/topos/mapping/dense/unbounded_default.impl.h
@@ -54,7 +54,8 @@ NodeType UnboundedDefaultMap<IdxT>::map(IdxT* idx, int ndim, NodeType num_nodes)
   for (int i = 0; i < ndim; i++) {
     val ^= idx->get(i);
   }
-  return val % num_nodes;
+  auto const node = static_cast<NodeType>(val % num_nodes);
+  return node < 0 ? node + num_nodes : node;
 }
 
 template <typename IdxT>
-- 
2.43.0


From 9bfc759fc38d7fe418096d138158c4d695e88d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:14 +0000
Subject: [PATCH 19/71] fix: read the last character of a compressed document
 when it is alone in its chunk

---
 src/vt/utils/json/decompression_input_container.cc | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/vt/utils/json/decompression_input_container.cc b/src/vt/utils/json/decompression_input_container.cc
index 152c090..de871fc 100644
--- a/src/vt/utils/json/decompression_input_container.cc
+++ b/src/vt/utils/json/decompression_input_container.cc
@@ -62,11 +62,7 @@ bool DecompressionInputContainer::advance() const {
   if (cur_ + 1 == len_) {
     len_ = d_->read(output_buf_.get(), chunk_size_);
     cur_ = 0;
-    if (cur_ + 1 < len_) {
-      return true;
-    } else {
-      return false;
-    }
+    return len_ > 0;
   }
   if (cur_ + 1 < len_) {
     cur_++;
-- 
2.43.0


From 55c94f8664bf6461a45e3f0334382d2979878d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:52 +0000
Subject: [PATCH 20/71] fix: do not read past the last centroid when estimating
 a value above it

---
 src/vt/utils/adt/histogram_approx.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/utils/adt/histogram_approx.h b/src/vt/utils/adt/histogram_approx.h
index 2e801ce..126a8ac 100644
--- a/src/vt/utils/adt/histogram_approx.h
+++ b/src/vt/utils/adt/histogram_approx.h
@@ -338,7 +338,7 @@ struct HistogramApprox {
     std::size_t k = it - cs_.begin();
 
     // \c std::lower_bound doesn't quite do what we need (when p == p_k)
-    if (cs_[k].getValue() == p) {
+    if (k < cs_.size() and cs_[k].getValue() == p) {
       k++;
     }
 
-- 
2.43.0


From f036903ea541be3c7ecbf3737a75838fd83564a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:52 +0000
Subject: [PATCH 21/71] fix: keep the extreme values of a histogram that is
 merged in

---
 src/vt/utils/adt/histogram_approx.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vt/utils/adt/histogram_approx.h b/src/vt/utils/adt/histogram_approx.h
index 126a8ac..ac89f8a 100644
--- a/src/vt/utils/adt/histogram_approx.h
+++ b/src/vt/utils/adt/histogram_approx.h
@@ -407,6 +407,10 @@ struct HistogramApprox {
       add(c.getValue(), c.getCount());
     }
 
+    // The extreme values of the input may have been merged into a centroid
+    if (in_hist.min_ < min_) { min_ = in_hist.min_; }
+    if (in_hist.max_ > max_) { max_ = in_hist.max_; }
+
     // Pare the histogram down to the allowed size
     pareToNewMaxCentroids(cur_max_centroids);
   }
-- 
2.43.0


From 02743f1439b7782b947fc82120e943fa01027fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:33 +0000
Subject: [PATCH 22/71] fix: keep subphase load and communication data when an
 element returns to an earlier subphase

---
 src/vt/elm/elm_lb_data.cc | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/vt/elm/elm_lb_data.cc b/src/vt/elm/elm_lb_data.cc
index 4489e6b..719c0a3 100644
--- a/src/vt/elm/elm_lb_data.cc
+++ b/src/vt/elm/elm_lb_data.cc
@@ -104,16 +104,22 @@ void ElementLBData::addReadOnlySharedID(
 
 void ElementLBData::sendComm(elm::CommKey key, double bytes) {
   phase_comm_[cur_phase_][key].sendMsg(bytes);
-  subphase_comm_[cur_phase_].resize(cur_subphase_ + 1);
-  subphase_comm_[cur_phase_].at(cur_subphase_)[key].sendMsg(bytes);
+  auto& subphase_comm = subphase_comm_[cur_phase_];
+  if (subphase_comm.size() <= cur_subphase_) {
+    subphase_comm.resize(cur_subphase_ + 1);
+  }
+  subphase_comm.at(cur_subphase_)[key].sendMsg(bytes);
 }
 
 void ElementLBData::recvComm(
   elm::CommKey key, double bytes
 ) {
   phase_comm_[cur_phase_][key].receiveMsg(bytes);
-  subphase_comm_[cur_phase_].resize(cur_subphase_ + 1);
-  subphase_comm_[cur_phase_].at(cur_subphase_)[key].receiveMsg(bytes);
+  auto& subphase_comm = subphase_comm_[cur_phase_];
+  if (subphase_comm.size() <= cur_subphase_) {
+    subphase_comm.resize(cur_subphase_ + 1);
+  }
+  subphase_comm.at(cur_subphase_)[key].receiveMsg(bytes);
 }
 
 void ElementLBData::recvObjData(
@@ -143,8 +149,11 @@ void ElementLBData::recvToNode(
 void ElementLBData::addTime(LoadType const timeLoad) {
   phase_timings_[cur_phase_] += timeLoad;
 
-  subphase_timings_[cur_phase_].resize(cur_subphase_ + 1);
-  subphase_timings_[cur_phase_].at(cur_subphase_) += timeLoad;
+  auto& subphase_timings = subphase_timings_[cur_phase_];
+  if (subphase_timings.size() <= cur_subphase_) {
+    subphase_timings.resize(cur_subphase_ + 1);
+  }
+  subphase_timings.at(cur_subphase_) += timeLoad;
 
   vt_debug_print(
     verbose,lb,
-- 
2.43.0


From f0941d2002b89dd9bef2cd66bc6b56876a46bad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:33 +0000
Subject: [PATCH 23/71] fix: do not join LB config lines when a parameter is
 followed by trailing whitespace

---
 src/vt/vrt/collection/balance/read_lb.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vt/vrt/collection/balance/read_lb.cc b/src/vt/vrt/collection/balance/read_lb.cc
index efbf17d..5b96c42 100644
--- a/src/vt/vrt/collection/balance/read_lb.cc
+++ b/src/vt/vrt/collection/balance/read_lb.cc
@@ -183,10 +183,9 @@ int eatWhitespace(std::ifstream& file) {
       std::string param;
       file >> param;
       params.push_back(param);
+      eatWhitespace(file);
     }
 
-    eatWhitespace(file);
-
     while (file.peek() == '\n') {
       file.get();
     }
-- 
2.43.0


From 6859ddcf220c8207e1a70d9fee6d2559fc924381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:43 +0000
Subject: [PATCH 24/71] fix: key the per-phase user-defined LB data by phase id
 when reading

---
 src/vt/vrt/collection/balance/lb_data_holder.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vt/vrt/collection/balance/lb_data_holder.cc b/src/vt/vrt/collection/balance/lb_data_holder.cc
index e6cba20..d736b94 100644
--- a/src/vt/vrt/collection/balance/lb_data_holder.cc
+++ b/src/vt/vrt/collection/balance/lb_data_holder.cc
@@ -621,8 +621,8 @@ LBDataHolder::LBDataHolder(nlohmann::json const& j)
 
       if (phase.find("user_defined") != phase.end()) {
         auto userDefined = phase["user_defined"];
-        user_per_phase_json_[phase] = std::make_shared<nlohmann::json>();
-        *(user_per_phase_json_[phase]) = userDefined;
+        user_per_phase_json_[id] = std::make_shared<nlohmann::json>();
+        *(user_per_phase_json_[id]) = userDefined;
       }
     }
   }
-- 
2.43.0


From 1280794bbf23f04ce2eeb80ab08342b066360df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:43 +0000
Subject: [PATCH 25/71] fix: do not drop subphase loads listed out of order in
 LB data

---
 src/vt/vrt/collection/balance/lb_data_holder.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/vt/vrt/collection/balance/lb_data_holder.cc b/src/vt/vrt/collection/balance/lb_data_holder.cc
index d736b94..95be2c6 100644
--- a/src/vt/vrt/collection/balance/lb_data_holder.cc
+++ b/src/vt/vrt/collection/balance/lb_data_holder.cc
@@ -488,9 +488,12 @@ LBDataHolder::LBDataHolder(nlohmann::json const& j)
                   vtAssertExpr(sid.is_number());
                   vtAssertExpr(stime.is_number());
 
-                  this->node_data_[id][elm].subphase_loads.resize(
-                    static_cast<std::size_t>(sid) + 1);
-                  this->node_data_[id][elm].subphase_loads[sid] = stime;
+                  auto& loads = this->node_data_[id][elm].subphase_loads;
+                  auto const subphase = static_cast<std::size_t>(sid);
+                  if (loads.size() <= subphase) {
+                    loads.resize(subphase + 1);
+                  }
+                  loads[subphase] = stime;
                 }
               }
             }
-- 
2.43.0


From 9ad451378f2e01c6a0832bbe5f7127f89cc56f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:41 +0000
Subject: [PATCH 26/71] fix: linear load model can predict from a single
 completed phase

---
 src/vt/vrt/collection/balance/model/linear_model.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vt/vrt/collection/balance/model/linear_model.cc b/src/vt/vrt/collection/balance/model/linear_model.cc
index 3ba99e6..1fa61fb 100644
--- a/src/vt/vrt/collection/balance/model/linear_model.cc
+++ b/src/vt/vrt/collection/balance/model/linear_model.cc
@@ -68,6 +68,11 @@ LoadType LinearModel::getModeledLoad(ElementIDStruct object, PhaseOffset when) c
     y.emplace_back(ComposedModel::getModeledLoad(object, past_phase));
   }
 
+  // A single completed phase does not determine a slope
+  if (y.size() == 1) {
+    return y.front();
+  }
+
   // should we re-create this every time?
   LinearRegression regression{x, y};
   return regression.predict(when.phases);
-- 
2.43.0


From 7838647922b393cad1ba8a7d3d0b282bde8b9da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:02 +0000
Subject: [PATCH 27/71] fix: read LB data of a phase without tasks

---
 src/vt/vrt/collection/balance/lb_data_holder.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vt/vrt/collection/balance/lb_data_holder.cc b/src/vt/vrt/collection/balance/lb_data_holder.cc
index 95be2c6..5c6b2e4 100644
--- a/src/vt/vrt/collection/balance/lb_data_holder.cc
+++ b/src/vt/vrt/collection/balance/lb_data_holder.cc
@@ -437,7 +437,9 @@ LBDataHolder::LBDataHolder(nlohmann::json const& j)
   if (phases.is_array()) {
     for (auto const& phase : phases) {
       auto id = phase["id"];
-      auto tasks = phase["tasks"];
+      // A phase without any tasks is written without the key
+      auto tasks = phase.find("tasks") != phase.end() ?
+        phase["tasks"] : nlohmann::json{};
 
       this->node_data_[id];
       this->node_comm_[id];
-- 
2.43.0


From a588178755546c58904ed5ca107fb84ca91a2f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:16 +0000
Subject: [PATCH 28/71] fix: write the no-color option to the YAML
 configuration as it is

---
 src/vt/configs/arguments/args.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/configs/arguments/args.cc b/src/vt/configs/arguments/args.cc
index 39b31d4..b182ab2 100644
--- a/src/vt/configs/arguments/args.cc
+++ b/src/vt/configs/arguments/args.cc
@@ -1184,7 +1184,7 @@ std::string convertConfigToYamlString(AppConfig& appConfig) {
   std::vector<std::tuple<std::string, std::string, variantArg_t>> cli_to_yaml_args = {
       // Output Control
       {"Output Control", vt_color_label, static_cast<variantArg_t>(appConfig.vt_color)},
-      {"Output Control", vt_no_color_label, static_cast<variantArg_t>(not appConfig.vt_no_color)},
+      {"Output Control", vt_no_color_label, static_cast<variantArg_t>(appConfig.vt_no_color)},
       {"Output Control", vt_quiet_label, static_cast<variantArg_t>(appConfig.vt_quiet)},
 
       // Signal Handling
-- 
2.43.0


From c3651d3147858ad49b07fb3ea76b9d08fceb0aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:16 +0000
Subject: [PATCH 29/71] fix: accept output file names shorter than their
 extension

---
 src/vt/configs/arguments/args.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/vt/configs/arguments/args.cc b/src/vt/configs/arguments/args.cc
index b182ab2..2c47bd0 100644
--- a/src/vt/configs/arguments/args.cc
+++ b/src/vt/configs/arguments/args.cc
@@ -1381,7 +1381,8 @@ std::string convertConfigToYamlString(AppConfig& appConfig) {
 
 void convertConfigToString(CLI::App& app, AppConfig& appConfig) {
   auto output_file = appConfig.vt_output_config_file;
-  auto config_file_ending = output_file.substr(output_file.size()-4);
+  auto config_file_ending = output_file.size() < 4 ?
+    std::string{} : output_file.substr(output_file.size()-4);
   if (config_file_ending == ".yml" || config_file_ending == "yaml") {
     appConfig.vt_output_config_str = convertConfigToYamlString(appConfig);
   } else {
@@ -1528,11 +1529,15 @@ static std::string buildFile(
   return dir + "/" + name;
 }
 
+static bool hasBrExtension(std::string const& name) {
+  return name.length() >= 3 and name.substr(name.length()-3, 3) == ".br";
+}
+
 static std::string buildFileWithBrExtension(
   std::string const& file, std::string const& dir
 ) {
   auto name = buildRankFile(file);
-  if (name.substr(name.length()-3, 3) != ".br") {
+  if (not hasBrExtension(name)) {
     name = name + ".br";
   }
   return dir + "/" + name;
@@ -1565,7 +1570,7 @@ std::string AppConfig::getLBStatisticsFile() const {
     ss << std::put_time(&tm, "%Y-%m-%d-%H-%M-%S");
     name.replace(timestamp, 2, ss.str());
   }
-  if (vt_lb_statistics_compress and name.substr(name.length()-3, 3) != ".br") {
+  if (vt_lb_statistics_compress and not hasBrExtension(name)) {
     name = name + ".br";
   }
   return name;
-- 
2.43.0


From 02decad1ff5fcfb4e38e63b4ba57f98fa91cf41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:16 +0000
Subject: [PATCH 30/71] fix: keep the MPI trace types of a YAML configuration
 file

---
 src/vt/configs/arguments/args.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/vt/configs/arguments/args.cc b/src/vt/configs/arguments/args.cc
index 2c47bd0..0b42777 100644
--- a/src/vt/configs/arguments/args.cc
+++ b/src/vt/configs/arguments/args.cc
@@ -234,8 +234,11 @@ void postParseTransform(AppConfig& appConfig) {
     return std::find(v.begin(), v.end(), str) not_eq v.end();
   };
 
-  appConfig.vt_trace_mpi = contains(arg_trace_mpi, "internal");
-  appConfig.vt_trace_pmpi = contains(arg_trace_mpi, "external");
+  // Command line overrides what a configuration file might have set
+  if (not arg_trace_mpi.empty()) {
+    appConfig.vt_trace_mpi = contains(arg_trace_mpi, "internal");
+    appConfig.vt_trace_pmpi = contains(arg_trace_mpi, "external");
+  }
 
   using config::ModeEnum;
 
@@ -261,6 +264,8 @@ std::tuple<int, std::string> parseArguments(
 
   std::vector<char*> vt_args;
 
+  arg_trace_mpi.clear();
+
   // Load up vectors
   // Has the ability to read interleaved arguments for vt, MPI, and others passed through to other libraries or the application.
   std::vector<char*>* rargs = nullptr;
-- 
2.43.0


From e3e1c47bf87c195958a669044eb7c9f882613bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:16 +0000
Subject: [PATCH 31/71] fix: write the MPI trace types to the YAML
 configuration in the form they are read

---
 src/vt/configs/arguments/args.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/vt/configs/arguments/args.cc b/src/vt/configs/arguments/args.cc
index 0b42777..268406d 100644
--- a/src/vt/configs/arguments/args.cc
+++ b/src/vt/configs/arguments/args.cc
@@ -94,7 +94,6 @@ static const std::string vt_stack_mod_label = "Output Rank Mod";
 // Tracing Configuration
 static const std::string vt_trace_label = "Enabled";
 static const std::string vt_trace_mpi_label = "MPI Type Events";
-static const std::string vt_trace_pmpi_label = "MPI Type Events";
 static const std::string vt_trace_file_label = "File";
 static const std::string vt_trace_dir_label = "Directory";
 static const std::string vt_trace_mod_label = "Output Rank Mod";
@@ -483,7 +482,7 @@ void parseYaml(AppConfig& appConfig, std::string const& inputFile) {
   update_config(appConfig.vt_trace, vt_trace_label, tracing_configuration);
 
   appConfig.vt_trace_mpi = tracing_configuration[vt_trace_mpi_label].as<std::string>("").find("internal") != std::string::npos;
-  appConfig.vt_trace_pmpi = tracing_configuration[vt_trace_pmpi_label].as<std::string>("").find("external") != std::string::npos;
+  appConfig.vt_trace_pmpi = tracing_configuration[vt_trace_mpi_label].as<std::string>("").find("external") != std::string::npos;
 
   update_config(appConfig.vt_trace_file, vt_trace_file_label, tracing_configuration);
   update_config(appConfig.vt_trace_dir, vt_trace_dir_label, tracing_configuration);
@@ -1185,6 +1184,12 @@ void addVariantToNode(YAML::Node& node, std::string& key, variantArg_t& variant_
 }
 
 std::string convertConfigToYamlString(AppConfig& appConfig) {
+  // Both MPI tracing options are read from a single string
+  std::string trace_mpi_types = appConfig.vt_trace_mpi ? "internal" : "";
+  if (appConfig.vt_trace_pmpi) {
+    trace_mpi_types += trace_mpi_types.empty() ? "external" : " external";
+  }
+
   // First, create a converter vector of tuples {Node(s), Key, Value}
   std::vector<std::tuple<std::string, std::string, variantArg_t>> cli_to_yaml_args = {
       // Output Control
@@ -1218,8 +1223,7 @@ std::string convertConfigToYamlString(AppConfig& appConfig) {
 
       // Tracing Configuration
       {"Tracing Configuration", vt_trace_label, static_cast<variantArg_t>(appConfig.vt_trace)},
-      {"Tracing Configuration", vt_trace_mpi_label, static_cast<variantArg_t>(appConfig.vt_trace_mpi)},
-      {"Tracing Configuration", vt_trace_pmpi_label, static_cast<variantArg_t>(appConfig.vt_trace_pmpi)},
+      {"Tracing Configuration", vt_trace_mpi_label, static_cast<variantArg_t>(trace_mpi_types)},
       {"Tracing Configuration", vt_trace_file_label, static_cast<variantArg_t>(appConfig.vt_trace_file)},
       {"Tracing Configuration", vt_trace_dir_label, static_cast<variantArg_t>(appConfig.vt_trace_dir)},
       {"Tracing Configuration", vt_trace_mod_label, static_cast<variantArg_t>(appConfig.vt_trace_mod)},
-- 
2.43.0


From 849ee468b46688fa0e3c947adc233c20e4038ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:16 +0000
Subject: [PATCH 32/71] fix: write the memory threshold to the YAML
 configuration only when enabled

---
 src/vt/configs/arguments/args.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/vt/configs/arguments/args.cc b/src/vt/configs/arguments/args.cc
index 268406d..d7866ae 100644
--- a/src/vt/configs/arguments/args.cc
+++ b/src/vt/configs/arguments/args.cc
@@ -1351,6 +1351,19 @@ std::string convertConfigToYamlString(AppConfig& appConfig) {
       {"Visualization", vt_tv_config_file_label, static_cast<variantArg_t>(appConfig.vt_tv_config_file)}
   };
 
+  // The presence of the threshold in a file is what enables it
+  if (not appConfig.vt_print_memory_at_threshold) {
+    auto is_threshold = [](auto const& elm) {
+      return std::get<1>(elm) == vt_print_memory_threshold_label;
+    };
+    cli_to_yaml_args.erase(
+      std::remove_if(
+        cli_to_yaml_args.begin(), cli_to_yaml_args.end(), is_threshold
+      ),
+      cli_to_yaml_args.end()
+    );
+  }
+
   // Create an empty node that we will populate
   YAML::Node output_config_yaml;
 
-- 
2.43.0


From fbd9988ef2d3bbd29fedf7019af09e5900ca0102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:16 +0000
Subject: [PATCH 33/71] fix: an empty runtime argument is an error, not a crash

---
 src/vt/configs/arguments/args.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vt/configs/arguments/args.cc b/src/vt/configs/arguments/args.cc
index d7866ae..540fb97 100644
--- a/src/vt/configs/arguments/args.cc
+++ b/src/vt/configs/arguments/args.cc
@@ -292,7 +292,8 @@ std::tuple<int, std::string> parseArguments(
   // Build string-vector and reverse order to parse (CLI quirk)
   std::vector<std::string> args_to_parse, yaml_input_arg;
   for (auto it = vt_args.crbegin(); it != vt_args.crend(); ++it) {
-    if (util::demangle::DemanglerUtils::splitString(*it,'=')[0] == "--vt_input_config_yaml") {
+    std::string const arg = *it;
+    if (arg.substr(0, arg.find('=')) == "--vt_input_config_yaml") {
       yaml_input_arg.push_back(*it);
     } else {
       args_to_parse.push_back(*it);
-- 
2.43.0


From 14b3677ae56b46186705a78ecc5f89c3a00125f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:03 +0000
Subject: [PATCH 34/71] fix: a written INI configuration can be read back

---
 src/vt/configs/arguments/args.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/vt/configs/arguments/args.cc b/src/vt/configs/arguments/args.cc
index 540fb97..7b2de57 100644
--- a/src/vt/configs/arguments/args.cc
+++ b/src/vt/configs/arguments/args.cc
@@ -1409,6 +1409,23 @@ void convertConfigToString(CLI::App& app, AppConfig& appConfig) {
   if (config_file_ending == ".yml" || config_file_ending == "yaml") {
     appConfig.vt_output_config_str = convertConfigToYamlString(appConfig);
   } else {
+    // Leave out what would be read back as something else: flags that were not
+    // given (CLI writes them as false), options without a value, and options
+    // excluded by one that was given
+    for (auto* opt : app.get_options([](CLI::Option*) { return true; })) {
+      if (opt->count() > 0) {
+        continue;
+      }
+      opt->capture_default_str();
+      bool excluded = false;
+      for (auto* other : opt->get_excludes()) {
+        excluded = excluded or other->count() > 0;
+      }
+      bool const is_list = opt->get_expected_max() > 1;
+      if (excluded or is_list or opt->get_default_str().empty()) {
+        opt->configurable(false);
+      }
+    }
     appConfig.vt_output_config_str = app.config_to_str(true, true);
   }
 }
-- 
2.43.0


From 13028c6a2478e4bdf8398e02e3409e028055c397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:03 +0000
Subject: [PATCH 35/71] fix: write the debug replay option to the YAML
 configuration

---
 src/vt/configs/arguments/args.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vt/configs/arguments/args.cc b/src/vt/configs/arguments/args.cc
index 7b2de57..5009627 100644
--- a/src/vt/configs/arguments/args.cc
+++ b/src/vt/configs/arguments/args.cc
@@ -1246,6 +1246,7 @@ std::string convertConfigToYamlString(AppConfig& appConfig) {
       {"Debug Print Configuration", vt_debug_all_label, static_cast<variantArg_t>(appConfig.vt_debug_all)},
       {"Debug Print Configuration", vt_debug_none_label, static_cast<variantArg_t>(appConfig.vt_debug_none)},
       {"Debug Print Configuration", vt_debug_print_flush_label, static_cast<variantArg_t>(appConfig.vt_debug_print_flush)},
+      {"Debug Print Configuration", vt_debug_replay_label, static_cast<variantArg_t>(appConfig.vt_debug_replay)},
       {"Debug Print Configuration/Enable", vt_debug_gen_label, static_cast<variantArg_t>(appConfig.vt_debug_gen)},
       {"Debug Print Configuration/Enable", vt_debug_runtime_label, static_cast<variantArg_t>(appConfig.vt_debug_runtime)},
       {"Debug Print Configuration/Enable", vt_debug_active_label, static_cast<variantArg_t>(appConfig.vt_debug_active)},
-- 
2.43.0


From 85cd73a351c434ac7b54946072ad99d3dad41dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:14 +0000
Subject: [PATCH 36/71] fix: reductions of user and system MPI collective
 scopes no longer share stamps

---
 src/vt/collective/collective_scope.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vt/collective/collective_scope.cc b/src/vt/collective/collective_scope.cc
index 16b6116..211cd70 100644
--- a/src/vt/collective/collective_scope.cc
+++ b/src/vt/collective/collective_scope.cc
@@ -86,13 +86,15 @@ TagType CollectiveScope::mpiCollectiveAsync(ActionType action) {
   auto cb = theCB()->makeBcast<&CollectiveAlg::runCollective>();
   auto msg = makeMessage<CollectiveMsg>(is_user_tag_, scope_, tag, collective_root);
 
-  // The tag for the reduce is a combination of the scope and seq tag.
+  // The tag for the reduce is a combination of the scope and seq tag. User and
+  // system scopes are numbered independently: as sequence tags are positive,
+  // negate those of system scopes so the stamps of the two never coincide.
   auto r = theCollective()->reducer();
 
   using collective::reduce::makeStamp;
   using collective::reduce::TagPair;
 
-  auto stamp = makeStamp<TagPair>(scope_, tag);
+  auto stamp = makeStamp<TagPair>(scope_, is_user_tag_ ? tag : -tag);
   r->reduce<collective::None>(collective_root, msg.get(), cb, stamp);
 
   return tag;
-- 
2.43.0


From 42f21f01a0bfb29666a6152ad7635f05d36637d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:03 +0000
Subject: [PATCH 37/71] fix: location updates that reach the node an entity has
 moved to, or its home, are not recorded

---
 src/vt/topos/location/location.impl.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/vt/topos/location/location.impl.h b/src/vt/topos/location/location.impl.h
index c9b0b10..6c67a7d 100644
--- a/src/vt/topos/location/location.impl.h
+++ b/src/vt/topos/location/location.impl.h
@@ -410,7 +410,6 @@ void EntityLocationCoord<EntityID>::handleEagerUpdate(
   EntityID const& id, NodeType home_node, NodeType deliver_node
 ) {
   auto this_node = theContext()->getNode();
-  vtAssert(this_node != deliver_node, "This should have been a forwarding node");
   vtAssert(home_node != uninitialized_destination, "Home node should be valid");
   vtAssert(home_node < theContext()->getNumNodes(), "Home node should be valid");
 
@@ -420,8 +419,14 @@ void EntityLocationCoord<EntityID>::handleEagerUpdate(
     id, home_node, deliver_node
   );
 
-  // Insert a new entry in the cache for the updated location
-  recs_.insert(id, home_node, LocRecType{id, eLocState::Remote, deliver_node});
+  // Insert a new entry in the cache for the updated location. If the entity has
+  // migrated to this node after it sent the message, the entity is registered
+  // here or this node knows better where it has gone since. The home node is
+  // told by the nodes the entity is registered on and unregistered from, which
+  // might be more recent than this update
+  if (deliver_node != this_node and home_node != this_node) {
+    recs_.insert(id, home_node, LocRecType{id, eLocState::Remote, deliver_node});
+  }
 
   auto ask_iter = loc_asks_.find(id);
   if (ask_iter != loc_asks_.end()) {
-- 
2.43.0


From 733b6d644f2a6c054144ba5cd2178ea7438251a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:03 +0000
Subject: [PATCH 38/71] fix: answers about an entity that has been here and
 left do not strand messages

---
 src/vt/topos/location/location.impl.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/vt/topos/location/location.impl.h b/src/vt/topos/location/location.impl.h
index 6c67a7d..337495b 100644
--- a/src/vt/topos/location/location.impl.h
+++ b/src/vt/topos/location/location.impl.h
@@ -724,12 +724,21 @@ void EntityLocationCoord<EntityID>::updatePendingRequest(
     node
   );
 
-  recs_.insert(id, home_node, LocRecType{id, eLocState::Remote, node});
+  auto resolved = node;
+
+  if (node != theContext()->getNode()) {
+    recs_.insert(id, home_node, LocRecType{id, eLocState::Remote, node});
+  } else if (local_registered_.find(id) == local_registered_.end()) {
+    // The entity was registered on this node after the request was sent, but it
+    // has left again: continue where it went or with the home node
+    bool const known = recs_.exists(id) and recs_.get(id).isRemote();
+    resolved = known ? recs_.get(id).getRemoteNode() : home_node;
+  }
 
   // trigger any pending actions upon registration
   if (auto lookups = pending_lookups_.extract(id); lookups) {
     for (auto&& action : lookups.mapped()) {
-      action(node);
+      action(resolved);
     }
   }
 }
-- 
2.43.0


From bc904c5df951634bbdf276b3b71705b790b792c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:03 +0000
Subject: [PATCH 39/71] fix: messages for an element with a scheduled migration
 follow it instead of being run on freed memory

---
 src/vt/vrt/collection/holders/holder.h | 31 ++++++++++++++++++++++++++
 src/vt/vrt/collection/manager.impl.h   | 23 +++++++++++++++++++
 2 files changed, 54 insertions(+)

diff --git a/src/vt/vrt/collection/holders/holder.h b/src/vt/vrt/collection/holders/holder.h
index 45b675b..6a035a1 100644
--- a/src/vt/vrt/collection/holders/holder.h
+++ b/src/vt/vrt/collection/holders/holder.h
@@ -169,6 +169,36 @@ struct Holder {
    */
   typename TypedIndexContainer::size_type numElementsExpr(FuncExprType f) const;
 
+  /**
+   * \brief Note that a migration of an element has been scheduled
+   *
+   * \param[in] idx the index
+   */
+  void addPendingMigration(IndexT const& idx) { pending_migrations_[idx]++; }
+
+  /**
+   * \brief Note that a scheduled migration of an element has been performed
+   *
+   * \param[in] idx the index
+   */
+  void removePendingMigration(IndexT const& idx) {
+    auto iter = pending_migrations_.find(idx);
+    if (iter != pending_migrations_.end() and --iter->second == 0) {
+      pending_migrations_.erase(iter);
+    }
+  }
+
+  /**
+   * \brief Whether a migration of an element is scheduled
+   *
+   * \param[in] idx the index
+   *
+   * \return whether a migration is scheduled but not yet performed
+   */
+  bool hasPendingMigration(IndexT const& idx) const {
+    return pending_migrations_.find(idx) != pending_migrations_.end();
+  }
+
   /**
    * \brief Get current group
    *
@@ -265,6 +295,7 @@ private:
   NodeType group_root_                                            = 0;
   CountType num_erased_not_removed_                               = 0;
   std::vector<listener::ListenFnType<IndexT>> event_listeners_    = {};
+  ContType<IndexT, CountType> pending_migrations_                 = {};
 };
 
 }}} /* end namespace vt::vrt::collection */
diff --git a/src/vt/vrt/collection/manager.impl.h b/src/vt/vrt/collection/manager.impl.h
index aead7c8..ce85fa3 100644
--- a/src/vt/vrt/collection/manager.impl.h
+++ b/src/vt/vrt/collection/manager.impl.h
@@ -303,6 +303,20 @@ template <typename ColT, typename IndexT, typename MsgT>
 
   vtAssertInfo(exists, "Proxy must exist", cur_epoch, idx);
 
+  if (elm_holder->hasPendingMigration(idx)) {
+    // The element is about to leave: route the message again afterwards
+    auto m = promoteMsg(msg);
+    theTerm()->produce(cur_epoch);
+    theCollection()->schedule([m, col, cur_epoch]{
+      theMsg()->pushEpoch(cur_epoch);
+      auto lm = theLocMan()->getCollectionLM<IndexT>(col);
+      lm->template routePreparedMsgHandler<MsgT>(m);
+      theMsg()->popEpoch(cur_epoch);
+      theTerm()->consume(cur_epoch);
+    });
+    return;
+  }
+
   auto& inner_holder = elm_holder->lookup(idx);
 
   auto const sub_handler = col_msg->getVrtHandler();
@@ -1790,11 +1804,20 @@ MigrateStatus CollectionManager::migrate(
   auto const elm_proxy = proxy.getElementProxy();
   auto const idx = elm_proxy.getIndex();
 
+  // Messages that arrive from now on must not be enqueued for this instance of
+  // the element, which will be gone when they run
+  if (auto elm_holder = findElmHolder<IndexT>(col_proxy)) {
+    elm_holder->addPendingMigration(idx);
+  }
+
   auto const epoch = theMsg()->getEpoch();
   theTerm()->produce(epoch);
   schedule([=]{
     theMsg()->pushEpoch(epoch);
     migrateOut<ColT,IndexT>(col_proxy, idx, dest);
+    if (auto elm_holder = findElmHolder<IndexT>(col_proxy)) {
+      elm_holder->removePendingMigration(idx);
+    }
     theMsg()->popEpoch(epoch);
     theTerm()->consume(epoch);
   });
-- 
2.43.0


From 7b17af70f9844209cde0d01fdca784ad168b59d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:03 +0000
Subject: [PATCH 40/71] fix: the home of a destroyed element forgets it, within
 the modification epoch

---
 src/vt/topos/location/location.h      | 13 ++++++++++++-
 src/vt/topos/location/location.impl.h | 23 ++++++++++++++++++++++-
 src/vt/vrt/collection/manager.impl.h  | 10 ++++++++--
 3 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/src/vt/topos/location/location.h b/src/vt/topos/location/location.h
index e0a82a8..40a76da 100644
--- a/src/vt/topos/location/location.h
+++ b/src/vt/topos/location/location.h
@@ -152,8 +152,12 @@ struct EntityLocationCoord : LocationCoord {
    * \brief Unregister an entity
    *
    * \param[in] id the entity ID
+   * \param[in] home_node the home node to inform that the entity no longer
+   * exists, if any
    */
-  void unregisterEntity(EntityID const& id);
+  void unregisterEntity(
+    EntityID const& id, NodeType home_node = uninitialized_destination
+  );
 
   /**
    * \brief Tell coordinator that the entity has migrated to another node
@@ -388,6 +392,13 @@ private:
    */
   void updateLocation(EntityID const& id, NodeType answer, NodeType home_node);
 
+  /**
+   * \internal \brief Forget the location of an entity that was destroyed
+   *
+   * \param[in] id entity id
+   */
+  void removeLocation(EntityID const& id);
+
   /**
    * \internal \brief Route a message to destination with eager protocol
    *
diff --git a/src/vt/topos/location/location.impl.h b/src/vt/topos/location/location.impl.h
index 337495b..618d74f 100644
--- a/src/vt/topos/location/location.impl.h
+++ b/src/vt/topos/location/location.impl.h
@@ -166,7 +166,9 @@ void EntityLocationCoord<EntityID>::registerEntityRemote(
 }
 
 template <typename EntityID>
-void EntityLocationCoord<EntityID>::unregisterEntity(EntityID const& id) {
+void EntityLocationCoord<EntityID>::unregisterEntity(
+  EntityID const& id, NodeType home_node
+) {
   auto reg_iter = local_registered_.find(id);
 
   vtAssert(
@@ -190,6 +192,25 @@ void EntityLocationCoord<EntityID>::unregisterEntity(EntityID const& id) {
   if (reg_msg_han_iter != local_registered_msg_han_.end()) {
     local_registered_msg_han_.erase(reg_msg_han_iter);
   }
+
+  // The home node must not keep a record for an entity that no longer exists
+  if (
+    home_node != uninitialized_destination and
+    home_node != theContext()->getNode()
+  ) {
+    proxy_[home_node].template send<&ThisType::removeLocation>(
+      MsgProps().asLocationMsg(), id
+    );
+  }
+}
+
+template <typename EntityID>
+void EntityLocationCoord<EntityID>::removeLocation(EntityID const& id) {
+  if (
+    local_registered_.find(id) == local_registered_.end() and recs_.exists(id)
+  ) {
+    recs_.remove(id);
+  }
 }
 
 template <typename EntityID>
diff --git a/src/vt/vrt/collection/manager.impl.h b/src/vt/vrt/collection/manager.impl.h
index ce85fa3..acf6425 100644
--- a/src/vt/vrt/collection/manager.impl.h
+++ b/src/vt/vrt/collection/manager.impl.h
@@ -1762,14 +1762,20 @@ void CollectionManager::destroyElm(
   if (elm_holder->exists(idx)) {
     // Delay this so we can finish processing this work unit first (which might
     // be this collection element running)
-    theSched()->enqueue([idx,untyped_proxy]{
+    theTerm()->produce(modify_epoch);
+    theSched()->enqueue([idx,untyped_proxy,modify_epoch]{
+      theMsg()->pushEpoch(modify_epoch);
       auto elm = theCollection()->findElmHolder<IndexType>(untyped_proxy);
       if (elm->exists(idx)) {
+        auto const home_node =
+          theCollection()->getMappedNode<IndexType>(untyped_proxy, idx);
         elm->remove(idx);
         theLocMan()
           ->getCollectionLM<IndexType>(untyped_proxy)
-          ->unregisterEntity(idx);
+          ->unregisterEntity(idx, home_node);
       }
+      theMsg()->popEpoch(modify_epoch);
+      theTerm()->consume(modify_epoch);
     });
   } else {
     // Otherwise, we send a destroy message that will be routed (eventually
-- 
2.43.0


From 906f011790eae672e287429afe9c2e08ff736d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:16 +0000
Subject: [PATCH 41/71] fix: HierarchicalLB's tree covers every rank for odd
 numbers of ranks

---
 src/vt/vrt/collection/balance/hierarchicallb/hierlb.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/vt/vrt/collection/balance/hierarchicallb/hierlb.cc b/src/vt/vrt/collection/balance/hierarchicallb/hierlb.cc
index a89ab18..4c2e9ae 100644
--- a/src/vt/vrt/collection/balance/hierarchicallb/hierlb.cc
+++ b/src/vt/vrt/collection/balance/hierarchicallb/hierlb.cc
@@ -196,8 +196,8 @@ void HierarchicalLB::setupTree(TimeType const threshold) {
 
   if (children.size() == 0) {
     for (NodeType node = 0; node < hierlb_nary; node++) {
-      NodeType factor = num_nodes / hierlb_nary * hierlb_nary;
-      if (factor < num_nodes) {
+      NodeType factor = (num_nodes - 1) / hierlb_nary * hierlb_nary;
+      if (factor < num_nodes - 1) {
         factor += hierlb_nary;
       }
       NodeType const child = (this_node * hierlb_nary + node + 1) - factor - 1;
@@ -220,8 +220,9 @@ void HierarchicalLB::setupTree(TimeType const threshold) {
 
   parent = (this_node - 1) / hierlb_nary;
 
-  NodeType factor = num_nodes / hierlb_nary * hierlb_nary;
-  if (factor < num_nodes) {
+  // the first rank without children in the tree is factor / hierlb_nary
+  NodeType factor = (num_nodes - 1) / hierlb_nary * hierlb_nary;
+  if (factor < num_nodes - 1) {
     factor += hierlb_nary;
   }
 
-- 
2.43.0


From 70bf7917b48872f3a3c51a226ac45375538e17dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:16 +0000
Subject: [PATCH 42/71] fix: load statistics of many values do not overflow int

---
 src/vt/vrt/collection/balance/stats_msg.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vt/vrt/collection/balance/stats_msg.h b/src/vt/vrt/collection/balance/stats_msg.h
index da5e777..1e16451 100644
--- a/src/vt/vrt/collection/balance/stats_msg.h
+++ b/src/vt/vrt/collection/balance/stats_msg.h
@@ -87,9 +87,9 @@ struct LoadData {
     auto delta     = a2.avg_ - a1.avg_;
     auto delta_sur_N   = delta / static_cast<double>(N);
     auto delta2_sur_N2 = delta_sur_N * delta_sur_N;
-    int32_t n2           = a1.N_ * a1.N_;
-    int32_t n_c2         = a2.N_ * a2.N_;
-    int32_t prod_n       = a1.N_ * a2.N_;
+    double n2         = static_cast<double>(a1.N_) * a1.N_;
+    double n_c2       = static_cast<double>(a2.N_) * a2.N_;
+    double prod_n     = static_cast<double>(a1.N_) * a2.N_;
     int32_t n_c          = a2.N_;
     int32_t n            = a1.N_;
     auto M2            = a1.M2_;
-- 
2.43.0


From 342292ce5c1f7f783eaeb3d912ebacc3ba937cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:16 +0000
Subject: [PATCH 43/71] fix: an object that was idle late in a phase has no
 load there, instead of terminating

---
 src/vt/vrt/collection/balance/lb_common.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vt/vrt/collection/balance/lb_common.h b/src/vt/vrt/collection/balance/lb_common.h
index e9e403b..107da67 100644
--- a/src/vt/vrt/collection/balance/lb_common.h
+++ b/src/vt/vrt/collection/balance/lb_common.h
@@ -92,8 +92,10 @@ struct LoadSummary {
   {
     if (when.subphase == PhaseOffset::WHOLE_PHASE)
       return whole_phase_load;
-    else
+    else if (when.subphase < subphase_loads.size())
       return subphase_loads.at(when.subphase);
+    else // the object did nothing this late in the phase
+      return 0.0;
   }
 
   void operator += (const LoadSummary& rhs) {
-- 
2.43.0


From 96be290f7ddc50dc7b4d593990e3eb85b206a9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:16 +0000
Subject: [PATCH 44/71] fix: RandomLB on a rank without migratable objects

---
 src/vt/vrt/collection/balance/randomlb/randomlb.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vt/vrt/collection/balance/randomlb/randomlb.cc b/src/vt/vrt/collection/balance/randomlb/randomlb.cc
index 42032a7..1a70fd6 100644
--- a/src/vt/vrt/collection/balance/randomlb/randomlb.cc
+++ b/src/vt/vrt/collection/balance/randomlb/randomlb.cc
@@ -126,6 +126,11 @@ void RandomLB::runLB(LoadType) {
     }
   }
 
+  // there is no first object to skip on a rank that has none
+  if (objs.empty()) {
+    return;
+  }
+
   // we skip the first object to be certain we never end up with zero objects
   for (auto it = ++objs.begin(); it != objs.end(); ++it) {
     auto const to_node = dist(gen);
-- 
2.43.0


From 072eb9c92e57cbe9ba2211c5fc8b0a9b9a379ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:16 +0000
Subject: [PATCH 45/71] fix: OfflineLB on a rank that has no elements in some
 phase

---
 src/vt/vrt/collection/balance/lb_data_restart_reader.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vt/vrt/collection/balance/lb_data_restart_reader.cc b/src/vt/vrt/collection/balance/lb_data_restart_reader.cc
index be21ad3..9bea30a 100644
--- a/src/vt/vrt/collection/balance/lb_data_restart_reader.cc
+++ b/src/vt/vrt/collection/balance/lb_data_restart_reader.cc
@@ -103,11 +103,12 @@ void LBDataRestartReader::readHistory(LBDataHolder const& lbdh) {
     auto iter = lbdh.node_data_.find(phase);
     if (iter != lbdh.node_data_.end()) {
       last_found_phase = phase;
+      // a rank may have no (migratable) elements in a phase that has data
+      if (history_[phase] == nullptr) {
+        history_[phase] = std::make_shared<std::set<ElementIDStruct>>();
+      }
       for (auto const& obj : iter->second) {
         if (obj.first.isMigratable()) {
-          if (history_[phase] == nullptr) {
-            history_[phase] = std::make_shared<std::set<ElementIDStruct>>();
-          }
           history_[phase]->insert(obj.first);
         }
       }
-- 
2.43.0


From dfd401a49a974ee6defa31e0fe2f118c4a8ed2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:14 +0000
Subject: [PATCH 46/71] fix: count the arrival of messages that are only
 forwarded to a group, so their epoch can terminate

---
 src/vt/messaging/active.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/vt/messaging/active.cc b/src/vt/messaging/active.cc
index c4511cf..709eb2f 100644
--- a/src/vt/messaging/active.cc
+++ b/src/vt/messaging/active.cc
@@ -929,6 +929,15 @@ void ActiveMessenger::processActiveMsg(
     if (cont != nullptr) {
       cont();
     }
+
+    // The message is not handled here, but its arrival must still be accounted
+    // for (the group handler has already produced for the forwarded copies)
+    if (not is_term) {
+      auto const epoch = envelopeIsEpochType(msg->env) ?
+        envelopeGetEpoch(msg->env) : term::any_epoch_sentinel;
+      theTerm()->consume(epoch,1,from);
+      theTerm()->hangDetectRecv();
+    }
   }
 }
 
-- 
2.43.0


From cf6f3ae5d9e89c85cedb14de5c12f54345335f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:14 +0000
Subject: [PATCH 47/71] fix: run the action of an empty collective group once
 on rank 0

---
 src/vt/group/collective/group_info_collective.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vt/group/collective/group_info_collective.cc b/src/vt/group/collective/group_info_collective.cc
index 4aa6b7d..7f2d537 100644
--- a/src/vt/group/collective/group_info_collective.cc
+++ b/src/vt/group/collective/group_info_collective.cc
@@ -665,8 +665,9 @@ void InfoColl::newTree(NodeType const& parent) {
   theCollective()->makeReducerGroup(group_, collective_->span_.get());
   collective_->reduce_ = theCollective()->getReducerGroup(group_);
 
+  // At the root of an empty group, which is not in it, finalize() has run it
   auto const& action = getAction();
-  if (action) {
+  if (action and is_in_group) {
     action();
   }
   auto cur_actions = pending_ready_actions_;
-- 
2.43.0


From 0fb0c860b5e5d48ef5017d153795c043481a04f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:25 +0000
Subject: [PATCH 48/71] fix: deliver a rooted group's broadcast to the member
 that made it and to those below it in the tree

---
 src/vt/group/group_manager.cc | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/vt/group/group_manager.cc b/src/vt/group/group_manager.cc
index 647a056..5599ddd 100644
--- a/src/vt/group/group_manager.cc
+++ b/src/vt/group/group_manager.cc
@@ -434,16 +434,14 @@ EventType GroupManager::sendGroupCollective(
 }
 
 EventType GroupManager::sendGroup(
-  MsgSharedPtr<BaseMsgType> const& base, NodeType const from,
+  MsgSharedPtr<BaseMsgType> const& base, [[maybe_unused]] NodeType const from,
   bool const is_root,
   bool* const deliver
 ) {
   auto const& this_node = theContext()->getNode();
   auto const& msg = base.get();
   auto const& group = envelopeGetGroup(msg->env);
-  auto const& dest = envelopeGetDest(msg->env);
-  auto const& this_node_dest = dest == this_node;
-  auto const& first_send = from == uninitialized_destination;
+  [[maybe_unused]] auto const& dest = envelopeGetDest(msg->env);
 
   vt_debug_print(
     terse, group,
@@ -496,7 +494,10 @@ EventType GroupManager::sendGroup(
         is_root
       );
 
-      if (remote_iter != remote_group_info_.end() && (!this_node_dest || first_send)) {
+      // A message always reaches the members from the root of the group's tree:
+      // a member that made the broadcast neither handled nor passed it on when
+      // sending it to the root, thus it has to do so when it comes back
+      if (remote_iter != remote_group_info_.end()) {
         auto& info = *remote_iter->second;
         vtAssert(!info.is_forward_, "Must not be a forward");
         vtAssert(
@@ -523,13 +524,7 @@ EventType GroupManager::sendGroup(
           });
         }
 
-        if (is_root && from == uninitialized_destination) {
-          *deliver = true;
-        } else if (!is_root && dest == this_node) {
-          *deliver = false;
-        } else {
-          *deliver = true;
-        }
+        *deliver = true;
       }
     }
   }
-- 
2.43.0


From 28f15272549cc3a21d056e1781c65e501c37d333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:44 +0000
Subject: [PATCH 49/71] fix: a group's new root must not depend on the order in
 which newRoot and newTree arrive

---
 src/vt/group/collective/group_info_collective.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/vt/group/collective/group_info_collective.cc b/src/vt/group/collective/group_info_collective.cc
index 7f2d537..f8d9e7a 100644
--- a/src/vt/group/collective/group_info_collective.cc
+++ b/src/vt/group/collective/group_info_collective.cc
@@ -654,10 +654,15 @@ void InfoColl::newTree(NodeType const& parent) {
   }
 
   auto const& group_ = getGroupID();
-  collective_->parent_ = is_new_root_ ? -1 : parent;
+
+  // The message that makes this node the new root (newRootHan) may still be on
+  // its way, but the root has been known since this node was finalized
+  auto const is_root =
+    is_new_root_ or known_root_node_ == theContext()->getNode();
+
+  collective_->parent_ = is_root ? -1 : parent;
   sendDownNewTree();
 
-  auto const& is_root = is_new_root_;
   collective_->span_   = std::make_unique<TreeType>(
     is_root, collective_->parent_, collective_->span_children_
   );
-- 
2.43.0


From 62f29b3c34428eca4482042b6b71d0d1f1d17a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:22 +0000
Subject: [PATCH 50/71] fix: broadcasts to a rooted group whose creator is a
 member must not loop forever

---
 src/vt/group/rooted/group_info_rooted.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/vt/group/rooted/group_info_rooted.cc b/src/vt/group/rooted/group_info_rooted.cc
index d3fa2ec..32777a6 100644
--- a/src/vt/group/rooted/group_info_rooted.cc
+++ b/src/vt/group/rooted/group_info_rooted.cc
@@ -55,6 +55,8 @@
 #include "vt/collective/tree/tree.h"
 #include "vt/group/group_manager.h"
 
+#include <algorithm>
+
 namespace vt { namespace group {
 
 InfoRooted::InfoRooted(
@@ -86,9 +88,20 @@ void InfoRooted::setupRooted() {
     auto const& this_node = theContext()->getNode();
 
     region_->sort();
-    if (region_->isList() || size < max_region_list_size) {
-      auto const& contains_this_node = region_->contains(this_node);
+    auto const contains_this_node = region_->contains(this_node);
+    if (
+      region_->isList() || size < max_region_list_size || contains_this_node
+    ) {
       region_list_ = region_->makeList();
+      if (contains_this_node) {
+        // All broadcasts come to this node first: when it is a member, it has
+        // to be the root of the tree. If it were somewhere below, it would send
+        // what it gets from the tree to the root of the tree over and over again
+        auto const iter = std::find(
+          region_list_.begin(), region_list_.end(), this_node
+        );
+        std::rotate(region_list_.begin(), iter, iter + 1);
+      }
       if (size < min_spanning_tree_size && contains_this_node) {
         this_node_included_ = true;
         default_spanning_tree_ = std::make_unique<TreeType>(region_list_);
-- 
2.43.0


From 22e69c23f2121f6f067238304fbabe7fe5d98a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:58 +0000
Subject: [PATCH 51/71] fix: callbacks to a collection element or a typed
 handler are callable more than once

---
 src/vt/pipe/callback/callback_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/pipe/callback/callback_base.h b/src/vt/pipe/callback/callback_base.h
index 54fa724..fecf93e 100644
--- a/src/vt/pipe/callback/callback_base.h
+++ b/src/vt/pipe/callback/callback_base.h
@@ -69,7 +69,7 @@ struct CallbackBase {
   CallbackBase& operator=(CallbackBase const&) = default;
 
   CallbackBase() :
-    CallbackBase(CallbackSingleUseTag)
+    CallbackBase(CallbackPersistTag)
   { }
   explicit CallbackBase(CallbackPersistTagType)
     : reference_counted_(false)
-- 
2.43.0


From 9af416ebcb836093180fdb3e5da7dd47baa2ef78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:58 +0000
Subject: [PATCH 52/71] fix: unregistering an element listener of a collection
 that has been destroyed

---
 src/vt/vrt/collection/manager.impl.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vt/vrt/collection/manager.impl.h b/src/vt/vrt/collection/manager.impl.h
index acf6425..1cea88a 100644
--- a/src/vt/vrt/collection/manager.impl.h
+++ b/src/vt/vrt/collection/manager.impl.h
@@ -2107,7 +2107,10 @@ void CollectionManager::unregisterElementListener(
   VirtualProxyType proxy, int element
 ) {
   auto elm_holder = findElmHolder<IndexT>(proxy);
-  elm_holder->removeListener(element);
+  // the collection might have been destroyed already, along with its listeners
+  if (elm_holder != nullptr) {
+    elm_holder->removeListener(element);
+  }
 }
 
 template <typename ColT, typename IndexT>
-- 
2.43.0


From 7707053012c586f0efe6c3afcba5213b1772b4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:58 +0000
Subject: [PATCH 53/71] fix: a dependent chain without any step must not count
 as pending work

---
 src/vt/messaging/dependent_send_chain.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vt/messaging/dependent_send_chain.h b/src/vt/messaging/dependent_send_chain.h
index 92b1d68..84ac74f 100644
--- a/src/vt/messaging/dependent_send_chain.h
+++ b/src/vt/messaging/dependent_send_chain.h
@@ -181,7 +181,9 @@ class DependentSendChain final {
    * \return whether the chain has terminated
    */
   bool isTerminated() {
-    return theTerm()->testEpochTerminated(last_epoch_) == vt::term::TermStatusEnum::Terminated;
+    // a chain that nothing has been added to has no pending work
+    return last_epoch_ == no_epoch or
+      theTerm()->testEpochTerminated(last_epoch_) == vt::term::TermStatusEnum::Terminated;
   }
 
   /**
-- 
2.43.0


From f6eed92d0af9b23052f62787f081a875da890b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:42 +0000
Subject: [PATCH 54/71] fix: a multicast over a region owns what it uses once
 its group is ready

---
 src/vt/objgroup/proxy/proxy_objgroup.impl.h | 36 ++++++++++++---------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/vt/objgroup/proxy/proxy_objgroup.impl.h b/src/vt/objgroup/proxy/proxy_objgroup.impl.h
index 337f9fc..ad4e54e 100644
--- a/src/vt/objgroup/proxy/proxy_objgroup.impl.h
+++ b/src/vt/objgroup/proxy/proxy_objgroup.impl.h
@@ -147,26 +147,32 @@ typename Proxy<ObjT>::PendingSendType Proxy<ObjT>::multicast(
   );
 
   nodes->sort();
-  auto& range = nodes->makeList();
+  auto range = nodes->makeList();
 
   auto groupID = theGroup()->GetTempGroupForRange(range);
   if (!groupID.has_value()) {
+    // The group becomes ready, and is only usable, some time after the pending
+    // send is released: its action must own everything that it uses
+    auto region = std::make_shared<group::region::Region::RegionUPtrType>(
+      std::move(nodes)
+    );
+    auto args = std::make_shared<std::tuple<std::decay_t<Params>...>>(
+      std::forward<Params>(params)...
+    );
     return typename Proxy<ObjT>::PendingSendType{
       theTerm()->getCurrentEpoch(),
-      [&, this,
-       args = std::make_tuple(std::forward<Params>(params)...)] {
-        std::apply(
-          [&, this](auto&&... unpackedArgs) {
-            // Explicit copy, we move 'nodes' in group creation
-            auto range_copy = nodes->makeList();
-            auto id =
-              theGroup()->newGroup(std::move(nodes), [&, this](GroupType type) {
-                multicast<f>(
-                  type, std::forward<decltype(unpackedArgs)>(unpackedArgs)...);
-              });
-            theGroup()->AddNewTempGroup(range_copy, id);
-          },
-          std::move(args));
+      [proxy = *this, range, region, args] {
+        theGroup()->newGroup(
+          std::move(*region), [proxy, range, args](GroupType type) {
+            theGroup()->AddNewTempGroup(range, type);
+            std::apply(
+              [&](auto&... unpackedArgs) {
+                proxy.template multicast<f>(type, std::move(unpackedArgs)...);
+              },
+              *args
+            );
+          }
+        );
       }};
   } else {
     return multicast<f>(groupID.value(), std::forward<Params>(params)...);
-- 
2.43.0


From d5496fdf3a1117d423ef9f1b8fa8384896f79f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:42 +0000
Subject: [PATCH 55/71] fix: a range whose nodes have been listed can be sent,
 as its bounds still describe it

---
 src/vt/group/region/group_range.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/vt/group/region/group_range.h b/src/vt/group/region/group_range.h
index 36eefcb..82936b2 100644
--- a/src/vt/group/region/group_range.h
+++ b/src/vt/group/region/group_range.h
@@ -99,9 +99,7 @@ struct RangeData {
     : lo_(r.lo_),
       hi_(r.hi_),
       stride_(r.stride_)
-  {
-    vtAssertExpr(not r.made_list_);
-  }
+  { }
 
 public:
   Range getRange() const {
-- 
2.43.0


From ce98cb5693db2b02fe489a56bed4b01dba1dea59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:13 +0000
Subject: [PATCH 56/71] fix: a get that triggers the actions of an RDMA handle
 must take the lock asked for

---
 src/vt/rdmahandle/handle.index.impl.h | 5 ++---
 src/vt/rdmahandle/handle.node.impl.h  | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/vt/rdmahandle/handle.index.impl.h b/src/vt/rdmahandle/handle.index.impl.h
index 88d7ed8..dbda28d 100644
--- a/src/vt/rdmahandle/handle.index.impl.h
+++ b/src/vt/rdmahandle/handle.index.impl.h
@@ -141,10 +141,9 @@ template <typename T, HandleEnum E, typename I>
 void Handle<
   T,E,I,typename std::enable_if_t<not std::is_same<I,vt::NodeType>::value>
 >::get(
-  I const& index, std::size_t len, int offset, [[maybe_unused]] Lock l
+  I const& index, std::size_t len, int offset, Lock l
 ) {
-  auto proxy = vt::objgroup::proxy::Proxy<SubHandle<T,E,I>>(proxy_);
-  proxy.get()->rget(index, len, offset);
+  rget(index, len, offset, l);
 }
 
 template <typename T, HandleEnum E, typename I>
diff --git a/src/vt/rdmahandle/handle.node.impl.h b/src/vt/rdmahandle/handle.node.impl.h
index df5c380..7a74bc6 100644
--- a/src/vt/rdmahandle/handle.node.impl.h
+++ b/src/vt/rdmahandle/handle.node.impl.h
@@ -80,9 +80,9 @@ template <typename T, HandleEnum E, typename I>
 void Handle<
   T,E,I,typename std::enable_if_t<std::is_same<I,vt::NodeType>::value>
 >::get(
-  vt::NodeType node, std::size_t len, int offset, [[maybe_unused]] Lock l
+  vt::NodeType node, std::size_t len, int offset, Lock l
 ) {
-  rget(node, len, offset);
+  rget(node, len, offset, l);
 }
 
 template <typename T, HandleEnum E, typename I>
-- 
2.43.0


From fce3ab8f1bf7544d1a248b6a7fc40f7fd7b85a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:13 +0000
Subject: [PATCH 57/71] fix: making several RDMA handles at once must not
 deadlock

---
 src/vt/rdmahandle/manager.impl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vt/rdmahandle/manager.impl.h b/src/vt/rdmahandle/manager.impl.h
index c52d83e..71ef66b 100644
--- a/src/vt/rdmahandle/manager.impl.h
+++ b/src/vt/rdmahandle/manager.impl.h
@@ -119,7 +119,9 @@ void Manager::finishMake(impl::ConstructMsg<T, E, ProxyT>* msg) {
     key.handle_, size, count
   );
   auto& entry = getEntry<T,E>(key);
-  collective_scope_.mpiCollectiveWait([&entry]{
+  // Do not wait here: this might run while another collective is being agreed
+  // upon, which could not complete until this handler returns
+  collective_scope_.mpiCollectiveAsync([&entry]{
     entry.allocateDataWindow();
   });
 }
-- 
2.43.0


From c3329b83a205644c25a4c23c099f1dba4a6913b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:59 +0000
Subject: [PATCH 58/71] fix: migrations and phases after an RDMA handle of a
 collection has been destroyed

---
 src/vt/rdmahandle/manager.collection.impl.h | 19 +++++++++++++++----
 src/vt/rdmahandle/sub_handle.h              |  4 ++++
 src/vt/rdmahandle/sub_handle.impl.h         |  8 ++++++++
 3 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/vt/rdmahandle/manager.collection.impl.h b/src/vt/rdmahandle/manager.collection.impl.h
index 22d78da..b57fa7f 100644
--- a/src/vt/rdmahandle/manager.collection.impl.h
+++ b/src/vt/rdmahandle/manager.collection.impl.h
@@ -113,7 +113,8 @@ Handle<T, E, IndexT> Manager::makeCollectionHandles(
         sub_proxy.get()->migratedInIndex(lidx);
       }
     };
-    theCollection()->template registerElementListener<ColT>(proxy_bits, fn);
+    auto listener =
+      theCollection()->template registerElementListener<ColT>(proxy_bits, fn);
 
     // Count the number of local handles that should exist here. We can't use the
     // cached value in the collection manager since this might be invoked in the
@@ -137,11 +138,21 @@ Handle<T, E, IndexT> Manager::makeCollectionHandles(
       verbose, rdma,
       "CollectionHandle: registering LB listener\n"
     );
-    thePhase()->registerHookCollective(phase::PhaseHook::EndPostMigration, [=]{
-      sub_proxy.get()->afterLB();
-    });
+    auto hook = thePhase()->registerHookCollective(
+      phase::PhaseHook::EndPostMigration, [=]{ sub_proxy.get()->afterLB(); }
+    );
 #   endif
 
+    // Neither may reach the sub-handles once they have been destroyed
+    sub_proxy.get()->setOnDestroy([=]{
+      theCollection()->template unregisterElementListener<ColT>(
+        proxy_bits, listener
+      );
+#     if vt_check_enabled(lblite)
+      thePhase()->unregisterHook(hook);
+#     endif
+    });
+
     // Set the number of expected handles for next time we run through this code
     sub_proxy.get()->setCollectionExpected(local_count);
 
diff --git a/src/vt/rdmahandle/sub_handle.h b/src/vt/rdmahandle/sub_handle.h
index 2e7d2f4..4afa166 100644
--- a/src/vt/rdmahandle/sub_handle.h
+++ b/src/vt/rdmahandle/sub_handle.h
@@ -51,6 +51,7 @@
 #include "vt/topos/mapping/mapping_headers.h"
 #include "vt/topos/mapping/dense/dense.h"
 
+#include <functional>
 #include <unordered_map>
 
 namespace vt { namespace rdma {
@@ -158,6 +159,8 @@ public:
 
   void setCollectionExpected(std::size_t count);
 
+  void setOnDestroy(std::function<void()> on_destroy);
+
   void destroy();
 
   static void destroyCollective(ProxyType proxy);
@@ -198,6 +201,7 @@ protected:
   std::unordered_map<IndexT, int> ordered_local_offset_;
   bool dense_start_with_zero_ = true;
   std::size_t deleted_count_ = 0;
+  std::function<void()> on_destroy_ = nullptr;
 };
 
 }} /* end namespace vt::rdma */
diff --git a/src/vt/rdmahandle/sub_handle.impl.h b/src/vt/rdmahandle/sub_handle.impl.h
index 057174e..cb1108f 100644
--- a/src/vt/rdmahandle/sub_handle.impl.h
+++ b/src/vt/rdmahandle/sub_handle.impl.h
@@ -518,8 +518,16 @@ void SubHandle<T,E,IndexT>::waitForHandleReady(Handle<U,E> const& h) {
   theSched()->runSchedulerWhile([&h] { return not h.ready(); });
 }
 
+template <typename T, HandleEnum E, typename IndexT>
+void SubHandle<T,E,IndexT>::setOnDestroy(std::function<void()> on_destroy) {
+  on_destroy_ = on_destroy;
+}
+
 template <typename T, HandleEnum E, typename IndexT>
 void SubHandle<T,E,IndexT>::destroy() {
+  if (on_destroy_ != nullptr) {
+    on_destroy_();
+  }
   proxy_.destroyHandleRDMA(data_handle_);
   proxy_.destroyHandleRDMA(loc_handle_);
 }
-- 
2.43.0


From 6ee73f7a5e3789d37bd1b962f787cf910ceff94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:42 +0000
Subject: [PATCH 59/71] fix: testing the requests of an RDMA operation wrote
 past an array when there were none

---
 src/vt/rdmahandle/request_holder.cc | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/vt/rdmahandle/request_holder.cc b/src/vt/rdmahandle/request_holder.cc
index 794c661..5b8959b 100644
--- a/src/vt/rdmahandle/request_holder.cc
+++ b/src/vt/rdmahandle/request_holder.cc
@@ -61,17 +61,14 @@ MPI_Request* RequestHolder::add() {
 
 bool RequestHolder::test() {
   VT_ALLOW_MPI_CALLS;
-  std::vector<MPI_Request> new_reqs;
   std::vector<MPI_Status> stats;
   stats.resize(reqs_.size());
-  auto flags = std::make_unique<int[]>(reqs_.size());
-  MPI_Testall(reqs_.size(), reqs_.data(), flags.get(), stats.data());
-  for (std::size_t i = 0; i < reqs_.size(); i++) {
-    if (not flags[i]) {
-      new_reqs.push_back(reqs_[i]);
-    }
+  // All requests share one flag, which is only set when all are complete
+  int flag = 0;
+  MPI_Testall(reqs_.size(), reqs_.data(), &flag, stats.data());
+  if (flag) {
+    reqs_.clear();
   }
-  reqs_ = std::move(new_reqs);
   return reqs_.size() == 0;
 }
 
-- 
2.43.0


From e96c9257e9ca391190dc69662c3bb584cfa7cdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:41 +0000
Subject: [PATCH 60/71] fix: the windows of RDMA handles made at once could be
 mixed up between nodes

---
 src/vt/rdmahandle/manager.h      | 14 -------
 src/vt/rdmahandle/manager.impl.h | 66 ++++----------------------------
 2 files changed, 8 insertions(+), 72 deletions(-)

diff --git a/src/vt/rdmahandle/manager.h b/src/vt/rdmahandle/manager.h
index 8feba1d..f824ea5 100644
--- a/src/vt/rdmahandle/manager.h
+++ b/src/vt/rdmahandle/manager.h
@@ -64,11 +64,6 @@ namespace vt { namespace rdma {
 
 namespace impl {
 
-struct HandleData;
-
-template <typename T, HandleEnum E, typename ProxyT>
-struct ConstructMsg;
-
 template <typename ProxyT, typename IndexT>
 struct InformRDMAMsg;
 
@@ -102,15 +97,6 @@ private:
    */
   void setup(ProxyType in_proxy);
 
-  /**
-   * \internal \brief Finish constructing a handle after coordinating each node on
-   * construction
-   *
-   * \param[in] msg construction meta-data message
-   */
-  template <typename T, HandleEnum E, typename ProxyT>
-  void finishMake(impl::ConstructMsg<T, E, ProxyT>* msg);
-
   /**
    * \internal \brief Inform all nodes that an RDMA handle is being constructed,
    * required when a collection is not mapped to all nodes
diff --git a/src/vt/rdmahandle/manager.impl.h b/src/vt/rdmahandle/manager.impl.h
index 71ef66b..c445aad 100644
--- a/src/vt/rdmahandle/manager.impl.h
+++ b/src/vt/rdmahandle/manager.impl.h
@@ -53,39 +53,6 @@
 namespace vt { namespace rdma {
 namespace impl {
 
-struct HandleData {
-  // #949. NVCC shim: Ensure type is compatible with serialization.
-  using isByteCopyable = std::true_type;
-
-  HandleData();
-  HandleData(HandleKey in_key, std::size_t in_size, int in_count)
-    : key_(in_key),
-      size_(in_size),
-      count_(in_count)
-  { }
-
-  friend HandleData operator+(HandleData a1, HandleData const& a2) {
-    vtAssertExpr(a1.key_.handle_ != vt::no_rdma_handle);
-    vtAssertExpr(a1.key_.handle_ == a2.key_.handle_);
-    vtAssertExpr(a1.key_.isObjGroup() == a2.key_.isObjGroup());
-    a1.size_ += a2.size_;
-    a1.count_ += a2.count_;
-    return a1;
-  }
-
-  HandleKey key_;
-  std::size_t size_ = 0;
-  int count_ = 0;
-};
-
-template <typename T, HandleEnum E, typename ProxyT>
-struct ConstructMsg : vt::collective::ReduceTMsg<HandleData> {
-  ConstructMsg() = default;
-  explicit ConstructMsg(HandleData&& data)
-    : vt::collective::ReduceTMsg<HandleData>(std::move(data))
-  { }
-};
-
 template <typename ProxyT, typename IndexT>
 struct InformRDMAMsg : vt::Message {
   InformRDMAMsg() = default;
@@ -108,24 +75,6 @@ struct InformRDMAMsg : vt::Message {
 
 } /* end namespace impl */
 
-template <typename T, HandleEnum E, typename ProxyT>
-void Manager::finishMake(impl::ConstructMsg<T, E, ProxyT>* msg) {
-  auto const& key = msg->getVal().key_;
-  auto const& size = msg->getVal().size_;
-  auto const& count = msg->getVal().count_;
-  vt_debug_print(
-    normal, rdma,
-    "finishMake: handle={:x}, size={}, count={}\n",
-    key.handle_, size, count
-  );
-  auto& entry = getEntry<T,E>(key);
-  // Do not wait here: this might run while another collective is being agreed
-  // upon, which could not complete until this handler returns
-  collective_scope_.mpiCollectiveAsync([&entry]{
-    entry.allocateDataWindow();
-  });
-}
-
 template <typename T, HandleEnum E, typename ProxyT>
 Handle<T, E> Manager::makeHandleCollectiveObjGroup(
   ProxyT proxy, std::size_t size, bool uniform_size
@@ -139,13 +88,14 @@ Handle<T, E> Manager::makeHandleCollectiveObjGroup(
   holder_footprint_[key] = [&holder = holder_<T,E>[key]]() {
     return checkpoint::getMemoryFootprint(holder);
   };
-  auto cb = vt::theCB()->makeBcast<
-    Manager, impl::ConstructMsg<T, E, ProxyT>, &Manager::finishMake<T, E, ProxyT>
-  >(proxy_);
-  auto msg = vt::makeMessage<impl::ConstructMsg<T, E, ProxyT>>(
-    impl::HandleData{key, size, 1}
-  );
-  proxy_.template reduce<vt::collective::PlusOp<impl::HandleData>>(msg.get(),cb);
+  // Handles are made in the same order on every node, so plan the collective
+  // creation of their windows right here. Do not wait for it: this might run
+  // while another collective is being agreed upon, which could not complete
+  // until the caller returns
+  auto& entry = getEntry<T,E>(key);
+  collective_scope_.mpiCollectiveAsync([&entry]{
+    entry.allocateDataWindow();
+  });
   return han;
 }
 
-- 
2.43.0


From 62a06d00cfbfbc37d4ed4c0417500ab61a8f107a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:00 +0000
Subject: [PATCH 61/71] fix: destroying the RDMA handles of a collection with
 no elements on some node must not hang

---
 src/vt/rdmahandle/manager.h         | 20 ++++++++++++
 src/vt/rdmahandle/manager.impl.h    | 49 ++++++++++++++++++++---------
 src/vt/rdmahandle/sub_handle.h      |  7 +++++
 src/vt/rdmahandle/sub_handle.impl.h | 16 ++++++++++
 4 files changed, 78 insertions(+), 14 deletions(-)

diff --git a/src/vt/rdmahandle/manager.h b/src/vt/rdmahandle/manager.h
index f824ea5..3207595 100644
--- a/src/vt/rdmahandle/manager.h
+++ b/src/vt/rdmahandle/manager.h
@@ -67,6 +67,8 @@ namespace impl {
 template <typename ProxyT, typename IndexT>
 struct InformRDMAMsg;
 
+struct DeleteRDMAMsg;
+
 } /* end namespace impl */
 
 /**
@@ -108,6 +110,24 @@ private:
     impl::InformRDMAMsg<ProxyT, typename ColT::IndexType>* msg
   );
 
+  /**
+   * \internal \brief Count the handles of a collection that are deleted, on the
+   * root node, as any node might have no elements left to delete theirs
+   *
+   * \param[in] msg delete msg
+   */
+  template <typename T, HandleEnum E, typename IndexT>
+  void countDeletedCollectionRDMA(impl::DeleteRDMAMsg* msg);
+
+  /**
+   * \internal \brief Destroy the sub-handle manager after all handles of a
+   * collection have been deleted
+   *
+   * \param[in] msg delete msg
+   */
+  template <typename T, HandleEnum E, typename IndexT>
+  void destroyCollectionRDMA(impl::DeleteRDMAMsg* msg);
+
 public:
   /**
    * \brief Construct a new, distributed RDMA handle for an objgroup
diff --git a/src/vt/rdmahandle/manager.impl.h b/src/vt/rdmahandle/manager.impl.h
index c445aad..223559f 100644
--- a/src/vt/rdmahandle/manager.impl.h
+++ b/src/vt/rdmahandle/manager.impl.h
@@ -73,6 +73,15 @@ struct InformRDMAMsg : vt::Message {
   IndexT range_;
 };
 
+struct DeleteRDMAMsg : vt::Message {
+  DeleteRDMAMsg() = default;
+  explicit DeleteRDMAMsg(ObjGroupProxyType in_sub_proxy)
+    : sub_proxy_(in_sub_proxy)
+  { }
+
+  ObjGroupProxyType sub_proxy_ = no_obj_group;
+};
+
 } /* end namespace impl */
 
 template <typename T, HandleEnum E, typename ProxyT>
@@ -150,27 +159,39 @@ void Manager::deleteHandleSetCollectiveObjGroup(HandleSet<T>& han) {
 
 template <typename T, HandleEnum E, typename IndexT>
 void Manager::deleteHandleCollection(Handle<T,E,IndexT>& han) {
+  // A node might have no elements left, so count the deleted handles of all
+  // nodes on one of them
+  NodeType const root = 0;
+  proxy_[root].template send<
+    impl::DeleteRDMAMsg, &Manager::countDeletedCollectionRDMA<T,E,IndexT>
+  >(han.proxy_);
+}
+
+template <typename T, HandleEnum E, typename IndexT>
+void Manager::countDeletedCollectionRDMA(impl::DeleteRDMAMsg* msg) {
   using SubType = SubHandle<T,E,IndexT>;
-  auto proxy = objgroup::proxy::Proxy<SubType>{han.proxy_};
-  proxy.get()->deleteHandle();
+  auto sub = objgroup::proxy::Proxy<SubType>{msg->sub_proxy_}.get();
+  sub->deleteHandle();
   vt_debug_print(
     normal, rdma,
-    "deleteHandleCollection: num deleted={}, num active={}\n",
-    proxy.get()->getNumDeletedHandles(),
-    proxy.get()->getNumActiveHandles()
+    "countDeletedCollectionRDMA: num deleted={}, num total={}\n",
+    sub->getNumDeletedHandles(), sub->getNumTotalHandles()
   );
-  // If all of the handles mapped here are deleted, destroy the sub-handle
-  // manager
-  if (proxy.get()->getNumDeletedHandles() == proxy.get()->getNumActiveHandles()) {
-    vt_debug_print(
-      normal, rdma,
-      "deleteHandleCollection: deleting handle collection: num={}\n",
-      proxy.get()->getNumDeletedHandles()
-    );
-    SubType::destroyCollective(proxy);
+  // If all of the handles are deleted, destroy the sub-handle manager
+  if (sub->getNumDeletedHandles() == sub->getNumTotalHandles()) {
+    proxy_.template broadcast<
+      impl::DeleteRDMAMsg, &Manager::destroyCollectionRDMA<T,E,IndexT>
+    >(msg->sub_proxy_);
   }
 }
 
+template <typename T, HandleEnum E, typename IndexT>
+void Manager::destroyCollectionRDMA(impl::DeleteRDMAMsg* msg) {
+  using SubType = SubHandle<T,E,IndexT>;
+  auto proxy = objgroup::proxy::Proxy<SubType>{msg->sub_proxy_};
+  SubType::destroyCollectiveAsync(proxy);
+}
+
 // For now, this is static. Really it should be part of the objgroup and the
 // proxy should be available through the VT component
 template <typename T, HandleEnum E>
diff --git a/src/vt/rdmahandle/sub_handle.h b/src/vt/rdmahandle/sub_handle.h
index 4afa166..f7d40dc 100644
--- a/src/vt/rdmahandle/sub_handle.h
+++ b/src/vt/rdmahandle/sub_handle.h
@@ -50,8 +50,10 @@
 #include "vt/rdmahandle/cache.h"
 #include "vt/topos/mapping/mapping_headers.h"
 #include "vt/topos/mapping/dense/dense.h"
+#include "vt/collective/collective_scope.h"
 
 #include <functional>
+#include <memory>
 #include <unordered_map>
 
 namespace vt { namespace rdma {
@@ -151,6 +153,8 @@ public:
 
   std::size_t getNumActiveHandles() const;
 
+  std::size_t getNumTotalHandles() const;
+
   void deleteHandle();
 
   std::size_t getNumDeletedHandles() const;
@@ -165,6 +169,8 @@ public:
 
   static void destroyCollective(ProxyType proxy);
 
+  static void destroyCollectiveAsync(ProxyType proxy);
+
   template <mapping::ActiveMapTypedFnType<IndexT> map_fn>
   static ProxyType construct(
     bool in_is_migratable, IndexT in_range, bool in_dense_start_with_zero
@@ -202,6 +208,7 @@ protected:
   bool dense_start_with_zero_ = true;
   std::size_t deleted_count_ = 0;
   std::function<void()> on_destroy_ = nullptr;
+  std::unique_ptr<collective::CollectiveScope> destroy_scope_ = nullptr;
 };
 
 }} /* end namespace vt::rdma */
diff --git a/src/vt/rdmahandle/sub_handle.impl.h b/src/vt/rdmahandle/sub_handle.impl.h
index cb1108f..f9a3ad4 100644
--- a/src/vt/rdmahandle/sub_handle.impl.h
+++ b/src/vt/rdmahandle/sub_handle.impl.h
@@ -59,6 +59,9 @@ void SubHandle<T,E,IndexT>::initialize(
   proxy_ = in_proxy;
   is_migratable_ = in_is_migratable;
   range_ = in_range;
+  destroy_scope_ = std::make_unique<collective::CollectiveScope>(
+    theCollective()->makeCollectiveScope()
+  );
   dense_start_with_zero_ = in_dense_start_with_zero;
   ordered_opt_ = ordered_opt_ and dense_start_with_zero_ and not is_migratable_;
 }
@@ -477,6 +480,11 @@ std::size_t SubHandle<T,E,IndexT>::getNumActiveHandles() const {
   return sub_handles_.size();
 }
 
+template <typename T, HandleEnum E, typename IndexT>
+std::size_t SubHandle<T,E,IndexT>::getNumTotalHandles() const {
+  return range_.getSize();
+}
+
 template <typename T, HandleEnum E, typename IndexT>
 void SubHandle<T,E,IndexT>::deleteHandle() {
   deleted_count_++;
@@ -538,6 +546,14 @@ template <typename T, HandleEnum E, typename IndexT>
   theObjGroup()->destroyCollective(proxy);
 }
 
+template <typename T, HandleEnum E, typename IndexT>
+/*static*/ void SubHandle<T,E,IndexT>::destroyCollectiveAsync(ProxyType proxy) {
+  // Sets of handles might be destroyed in a different order on each node
+  proxy.get()->destroy_scope_->mpiCollectiveAsync([proxy]{
+    destroyCollective(proxy);
+  });
+}
+
 template <typename T, HandleEnum E, typename IndexT>
 std::size_t SubHandle<T,E,IndexT>::getCollectionExpected() const {
   return collection_expected_count_;
-- 
2.43.0


From d4252615ca6ec605fe348d5d77a3e6ad160eff4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:53 +0000
Subject: [PATCH 62/71] fix: elements inserted off their home node must tell
 the home where they are

---
 src/vt/vrt/collection/collection_builder.impl.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vt/vrt/collection/collection_builder.impl.h b/src/vt/vrt/collection/collection_builder.impl.h
index 3b2a10d..894e8ad 100644
--- a/src/vt/vrt/collection/collection_builder.impl.h
+++ b/src/vt/vrt/collection/collection_builder.impl.h
@@ -212,7 +212,12 @@ void CollectionManager::makeCollectionImpl(param::ConstructParams<ColT>& po) {
   for (auto&& elm : po.list_insert_here_) {
     auto const idx = std::get<0>(elm);
     detail::ContainableElementFn<ColT> c{std::move(std::get<1>(elm))};
-    makeCollectionElement<ColT>(proxy, idx, this_node, std::move(c));
+    // The element might not be inserted on its home node, which must then be
+    // informed of its location
+    auto const mapped_node = getElementMapping(
+      map_han, map_object, idx, bounds
+    );
+    makeCollectionElement<ColT>(proxy, idx, mapped_node, std::move(c));
   }
 
   if (not has_dynamic_membership) {
-- 
2.43.0


From 3ee5d6f0bf073042dab16cb70eb7d21930c89830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:53 +0000
Subject: [PATCH 63/71] fix: a collection restored in place must stay in the
 current phase

---
 src/vt/vrt/collection/manager.impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/vrt/collection/manager.impl.h b/src/vt/vrt/collection/manager.impl.h
index 1cea88a..382ed4d 100644
--- a/src/vt/vrt/collection/manager.impl.h
+++ b/src/vt/vrt/collection/manager.impl.h
@@ -2314,7 +2314,7 @@ void CollectionManager::restoreFromFileInPlace(
 
     auto ptr = elm_holder->lookup(idx).getRawPtr();
     checkpoint::deserializeInPlaceFromFile<ColT>(file_name, static_cast<ColT*>(ptr));
-    ptr->lb_data_.resetPhase();
+    ptr->lb_data_.setPhase(thePhase()->getCurrentPhase());
   }
 }
 
-- 
2.43.0


From 093d12059a2ef8101bff107b58db16a554a15462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:53 +0000
Subject: [PATCH 64/71] fix: restored elements must not take over the proxy and
 ID of the checkpointed ones

---
 src/vt/vrt/collection/manager.impl.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/vt/vrt/collection/manager.impl.h b/src/vt/vrt/collection/manager.impl.h
index 382ed4d..1c56918 100644
--- a/src/vt/vrt/collection/manager.impl.h
+++ b/src/vt/vrt/collection/manager.impl.h
@@ -50,6 +50,7 @@
 #include "vt/vrt/vrt_common.h"
 #include "vt/vrt/collection/proxy_builder/elm_proxy_builder.h"
 #include "vt/vrt/collection/manager.h"
+#include "vt/elm/elm_id_bits.h"
 #include "vt/vrt/collection/messages/system_create.h"
 #include "vt/vrt/collection/collection_info.h"
 #include "vt/vrt/collection/messages/user.h"
@@ -2313,7 +2314,12 @@ void CollectionManager::restoreFromFileInPlace(
     vtAssertExpr(elm_exists);
 
     auto ptr = elm_holder->lookup(idx).getRawPtr();
+    // The file holds the proxy and the ID of the element that was checkpointed,
+    // which might have belonged to another collection or another run
+    auto const elm_id = ptr->elm_id_;
     checkpoint::deserializeInPlaceFromFile<ColT>(file_name, static_cast<ColT*>(ptr));
+    ptr->elm_id_ = elm_id;
+    CollectionTypeAttorney::setProxy(ptr, proxy_bits);
     ptr->lb_data_.setPhase(thePhase()->getCurrentPhase());
   }
 }
@@ -2358,6 +2364,11 @@ CollectionManager::restoreFromFile(
 
     auto col_ptr = checkpoint::deserializeFromFile<ColT>(file_name);
     col_ptr->lb_data_.resetPhase();
+    // This is a new element: the one that was checkpointed might still exist, or
+    // its ID be in use by another one
+    col_ptr->elm_id_ = elm::ElmIDBits::createCollection(
+      true, theContext()->getNode()
+    );
     elms.emplace_back(std::make_tuple(idx, std::move(col_ptr)));
   }
 
-- 
2.43.0


From 9aea94de3c66fd298cfe7273bbdda57aec1853d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:25 +0000
Subject: [PATCH 65/71] fix: the data of a user-supplied trace event must be
 logged

---
 src/vt/trace/trace_log.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vt/trace/trace_log.h b/src/vt/trace/trace_log.h
index 69f5d9d..44e0ac5 100644
--- a/src/vt/trace/trace_log.h
+++ b/src/vt/trace/trace_log.h
@@ -258,9 +258,9 @@ struct Log final {
   // User event
   Log(
       TimeType const in_time, TraceConstantsType const in_type,
-      std::string const& in_note, [[maybe_unused]] UserDataType in_data
+      std::string const& in_note, UserDataType in_data
   ) : time(in_time), type(in_type),
-      data(Data::UserData{in_note, 0, 0, false})
+      data(Data::UserData{in_note, in_data, 0, false})
   {
   }
 
-- 
2.43.0


From a0755b725f77b2c022b72100312feb58d216299b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:25 +0000
Subject: [PATCH 66/71] fix: long notes must not vanish from the trace

---
 src/vt/trace/trace_lite.cc | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/vt/trace/trace_lite.cc b/src/vt/trace/trace_lite.cc
index ac11bcb..c667dd3 100644
--- a/src/vt/trace/trace_lite.cc
+++ b/src/vt/trace/trace_lite.cc
@@ -596,6 +596,14 @@ void TraceLite::writeTracesFile(int flush, bool is_incremental_flush) {
   }
 }
 
+// A formatted write drops everything if it does not fit in the buffer of zlib
+static void outputNote(gzFile file, std::string const& note) {
+  if (not note.empty()) {
+    gzwrite(file, note.data(), static_cast<unsigned>(note.size()));
+  }
+  gzputc(file, '\n');
+}
+
 /*static*/ void TraceLite::outputTraces(
   vt_gzFile* file, TraceContainerType& traces, TimeType start_time, int flush) {
   auto const num_nodes = theContext()->getNumNodes();
@@ -690,17 +698,18 @@ void TraceLite::writeTracesFile(int flush, bool is_incremental_flush) {
     case TraceConstantsType::UserSuppliedNote: {
       auto const& udata = log.user_data();
       gzprintf(
-        gzfile, "%d %lld %zu %s\n", type, converted_time,
-        udata.user_note.length(), udata.user_note.c_str());
+        gzfile, "%d %lld %zu ", type, converted_time,
+        udata.user_note.length());
+      outputNote(gzfile, udata.user_note);
       break;
     }
     case TraceConstantsType::UserSuppliedBracketedNote: {
       auto const& udata = log.user_data();
       auto const converted_end_time = timeToMicros(log.end_time - start_time);
       gzprintf(
-        gzfile, "%d %lld %lld %d %zu %s\n", type, converted_time,
-        converted_end_time, log.event, udata.user_note.length(),
-        udata.user_note.c_str());
+        gzfile, "%d %lld %lld %d %zu ", type, converted_time,
+        converted_end_time, log.event, udata.user_note.length());
+      outputNote(gzfile, udata.user_note);
       break;
     }
     case TraceConstantsType::MemoryUsageCurrent: {
-- 
2.43.0


From cba7da42b96118038308b6e183e71ce6231480f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:25 +0000
Subject: [PATCH 67/71] fix: trace events that are open when tracing is
 disabled must still be closed

---
 src/vt/trace/trace_lite.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/vt/trace/trace_lite.cc b/src/vt/trace/trace_lite.cc
index c667dd3..291c5cf 100644
--- a/src/vt/trace/trace_lite.cc
+++ b/src/vt/trace/trace_lite.cc
@@ -250,8 +250,8 @@ bool TraceLite::checkDynamicRuntimeEnabled(bool is_end_event) {
    * current phase (LB phase), which can be disabled via a trace enable
    * specification file
    */
-  return enabled_ and traceWritingEnabled(theContext()->getNode()) and
-    (trace_enabled_cur_phase_ or is_end_event);
+  return traceWritingEnabled(theContext()->getNode()) and
+    ((enabled_ and trace_enabled_cur_phase_) or is_end_event);
 }
 
 void TraceLite::addUserEventBracketedBeginTime(
@@ -371,7 +371,8 @@ void TraceLite::addUserNoteBracketedEndTime(
 }
 
 TraceEventIDType TraceLite::logEvent(LogType&& log) {
-  if (not checkDynamicRuntimeEnabled()) {
+  bool const is_end_event = log.type == TraceConstantsType::EndIdle;
+  if (not checkDynamicRuntimeEnabled(is_end_event)) {
     return no_trace_event;
   }
 
@@ -459,7 +460,7 @@ void TraceLite::endIdle(TimeType const time) {
   if (not idle_begun_) {
     return;
   }
-  if (not checkDynamicRuntimeEnabled()) {
+  if (not checkDynamicRuntimeEnabled(true)) {
     return;
   }
 
-- 
2.43.0


From 4835fce038e738ed03564b24edf737d5d3e1877d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:25 +0000
Subject: [PATCH 68/71] fix: memory usage must be available for as long as it
 is traced

---
 src/vt/runtime/runtime.cc           | 8 +++++---
 src/vt/utils/memory/memory_usage.cc | 2 +-
 src/vt/utils/memory/memory_usage.h  | 2 +-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/vt/runtime/runtime.cc b/src/vt/runtime/runtime.cc
index 9feec3c..a2f5875 100644
--- a/src/vt/runtime/runtime.cc
+++ b/src/vt/runtime/runtime.cc
@@ -734,10 +734,11 @@ void Runtime::initializeComponents() {
 
   p_->registerComponent<util::memory::MemoryUsage>(&theMemUsage,
     StartupDeps<
-      ctx::Context,       // Everything depends on theContext
-      phase::PhaseManager // For outputting memory at phase boundaries
+      ctx::Context        // Everything depends on theContext
     >{},
-    RuntimeDeps<>{}
+    RuntimeDeps<
+      phase::PhaseManager // For outputting memory at phase boundaries
+    >{}
   );
 
   p_->registerComponent<pool::Pool>(
@@ -767,6 +768,7 @@ void Runtime::initializeComponents() {
     &theTrace,
     StartupDeps<
       ctx::Context,              // Everything depends on theContext
+      util::memory::MemoryUsage, // For tracing memory usage
       objgroup::ObjGroupManager  // Depends on objgroup for construction
     >{},
     RuntimeDeps<>{},
diff --git a/src/vt/utils/memory/memory_usage.cc b/src/vt/utils/memory/memory_usage.cc
index bfa8f8b..6730060 100644
--- a/src/vt/utils/memory/memory_usage.cc
+++ b/src/vt/utils/memory/memory_usage.cc
@@ -360,7 +360,7 @@ MemoryUsage::MemoryUsage() {
   getFirstUsage();
 }
 
-void MemoryUsage::initialize() {
+void MemoryUsage::startup() {
   if (theConfig()->vt_print_memory_each_phase) {
     auto this_node = theContext()->getNode();
     if (
diff --git a/src/vt/utils/memory/memory_usage.h b/src/vt/utils/memory/memory_usage.h
index 6ad9349..1030c54 100644
--- a/src/vt/utils/memory/memory_usage.h
+++ b/src/vt/utils/memory/memory_usage.h
@@ -124,7 +124,7 @@ struct MemoryUsage : runtime::component::Component<MemoryUsage> {
    */
   MemoryUsage();
 
-  void initialize() override;
+  void startup() override;
 
   std::string name() override { return "MemoryUsage"; }
 
-- 
2.43.0


From 147eb35bcc87a3f5839b14ebfd99bdb1b89f4510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:57 +0000
Subject: [PATCH 69/71] fix: a trace of which everything has been flushed must
 still be finished

---
 src/vt/trace/trace_lite.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vt/trace/trace_lite.cc b/src/vt/trace/trace_lite.cc
index 291c5cf..4f77fcd 100644
--- a/src/vt/trace/trace_lite.cc
+++ b/src/vt/trace/trace_lite.cc
@@ -504,7 +504,8 @@ void TraceLite::cleanupTracesFile() {
   auto const& node = theContext()->getNode();
   if (
     not(traceWritingEnabled(node) or isStsOutputNode(node)) or
-    traces_.empty()) {
+    // A file that has been flushed to before must be finished in any case
+    (traces_.empty() and not log_file_)) {
     return;
   }
 
-- 
2.43.0


From b4d7d752685a4e01363071a12d234a4b488353f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:33 +0000
Subject: [PATCH 70/71] fix: setting up a group must not drop the early
 messages of other groups

---
 src/vt/group/group_manager.impl.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vt/group/group_manager.impl.h b/src/vt/group/group_manager.impl.h
index c78e560..750607a 100644
--- a/src/vt/group/group_manager.impl.h
+++ b/src/vt/group/group_manager.impl.h
@@ -114,12 +114,14 @@ template <typename T>
   if (found) {
     auto iter = waiting_cont_.find(op);
     if (iter != waiting_cont_.end()) {
-      for (auto&& elm : iter->second) {
+      // Only what waits for this operation: other groups may have work waiting
+      auto waiting = std::move(iter->second);
+      waiting_cont_.erase(iter);
+      for (auto&& elm : waiting) {
         for (auto&& action : action_iter->second) {
           action(elm);
         }
       }
-      waiting_cont_.clear();
     }
   }
 }
-- 
2.43.0


From 01c528b846d1adf56d60175ac7ef60dcf4407981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:18 +0000
Subject: [PATCH 71/71] fix: members inserted into a collection must take part
 in the reductions that follow

---
 src/vt/vrt/collection/manager.impl.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vt/vrt/collection/manager.impl.h b/src/vt/vrt/collection/manager.impl.h
index 1c56918..f4c751d 100644
--- a/src/vt/vrt/collection/manager.impl.h
+++ b/src/vt/vrt/collection/manager.impl.h
@@ -1608,7 +1608,9 @@ void CollectionManager::finishModification(
   auto iter = reduce_stamp_.find(untyped_proxy);
   vtAssert(iter != reduce_stamp_.end(), "Must have value");
 
-  SeqType const global_min_stamp = iter->second;
+  // Without any element that has been there before, all start with the first
+  SeqType const global_min_stamp =
+    iter->second == std::numeric_limits<SeqType>::max() ? 1 : iter->second;
   reduce_stamp_.erase(iter);
 
   // set all new insertions to proper value
@@ -1725,7 +1727,11 @@ void CollectionManager::insert(
 
   if (insert_node == this_node and proceed_with_insertion) {
     auto cons_fn = detail::InsertMsgDispatcher<MsgT, ColT>::makeCons(insert_msg);
-    makeCollectionElement<ColT>(untyped_proxy, idx, mapped_node, cons_fn);
+    // The number of its next reduction is decided when the insertions are done
+    bool const zero_reduce_stamp = true;
+    makeCollectionElement<ColT>(
+      untyped_proxy, idx, mapped_node, cons_fn, zero_reduce_stamp
+    );
   } else if (insert_node != this_node) {
     auto msg = makeMessage<InsertMsg<ColT, MsgT>>(
       proxy, idx, insert_node, mapped_node, modify_epoch, insert_msg
-- 
2.43.0

