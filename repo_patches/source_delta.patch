From 97d618f79a5598ec997970d8e2c8e984be122331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:16 +0000
Subject: [PATCH 01/58] fix: READ(6) of 256 blocks asks for 256 blocks of the
 caller's block size

---
 src/infi/asi/cdb/read.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/infi/asi/cdb/read.py b/src/infi/asi/cdb/read.py
index e59524d..c3bb325 100644
--- a/src/infi/asi/cdb/read.py
+++ b/src/infi/asi/cdb/read.py
@@ -39,8 +39,7 @@ class Read6Command(CDB):
         datagram = self.create_datagram()
         read_length = self.block_size * self.transfer_length
         if read_length == 0: # This is only in READ 6
-            # read_length = 256 * self.block_size
-            read_length = 256 * 512
+            read_length = 256 * self.block_size
         result_datagram = yield executer.call(SCSIReadCommand(datagram, read_length))
         yield result_datagram
 
-- 
2.43.0


From 6c62b6b078b46e9eae2c97e02b3fcbc7c1b74ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 02/58] fix: READ(6) and WRITE(6) refuse a negative logical
 block address instead of wrapping it

---
 src/infi/asi/cdb/read.py  | 2 +-
 src/infi/asi/cdb/write.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/cdb/read.py b/src/infi/asi/cdb/read.py
index c3bb325..dfd2b48 100644
--- a/src/infi/asi/cdb/read.py
+++ b/src/infi/asi/cdb/read.py
@@ -30,7 +30,7 @@ class Read6Command(CDB):
         self.logical_block_address = logical_block_address
         self.block_size = block_size
         self.transfer_length = transfer_length
-        assert self.logical_block_address < 2 ** 21
+        assert 0 <= self.logical_block_address < 2 ** 21
         assert self.transfer_length < 2 ** 8, "transfer_length should be in range [0,256), instead got: {}".format(self.transfer_length)
         self.logical_block_address__msb = self.logical_block_address >> 16
         self.logical_block_address__lsb = self.logical_block_address & 0xffff
diff --git a/src/infi/asi/cdb/write.py b/src/infi/asi/cdb/write.py
index abf3763..5745e1b 100644
--- a/src/infi/asi/cdb/write.py
+++ b/src/infi/asi/cdb/write.py
@@ -32,7 +32,7 @@ class Write6Command(CDB):
         self.buffer = buffer
         self.block_size = block_size
 
-        assert self.logical_block_address < 2 ** 21, "lba > 2**21"
+        assert 0 <= self.logical_block_address < 2 ** 21, "lba should be in range [0, 2**21)"
         assert len(buffer) % block_size == 0, "buffer length {0} is not a multiple of {1}".format(len(buffer), block_size)
 
         num_blocks = len(buffer) // block_size
-- 
2.43.0


From 8e71f154229741b1de0a80d095f261da7a576493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 03/58] fix: WRITE SAME checks the buffer against the caller's
 block size

---
 src/infi/asi/cdb/write_same.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/cdb/write_same.py b/src/infi/asi/cdb/write_same.py
index d3ada25..455dce7 100644
--- a/src/infi/asi/cdb/write_same.py
+++ b/src/infi/asi/cdb/write_same.py
@@ -33,7 +33,7 @@ class WriteSame10Command(CDB):
 
     def __init__(self, logical_block_address, buffer, number_of_blocks=1 ,block_size=DEFAULT_BLOCK_SIZE):
         super(WriteSame10Command, self).__init__()
-        assert (len(buffer) %  DEFAULT_BLOCK_SIZE)==0, "buffer length {0} is not a multiple of {1}".format(len(buffer), DEFAULT_BLOCK_SIZE)
+        assert (len(buffer) %  block_size)==0, "buffer length {0} is not a multiple of {1}".format(len(buffer), block_size)
         self.logical_block_address = logical_block_address
         self.buffer = buffer
         self.number_of_blocks = number_of_blocks
@@ -66,7 +66,7 @@ class WriteSame16Command(CDB):
                 ]
     def __init__(self, logical_block_address, buffer, number_of_blocks=1 ,block_size=DEFAULT_BLOCK_SIZE):
         super(WriteSame16Command, self).__init__()
-        assert (len(buffer) %  DEFAULT_BLOCK_SIZE)==0, "buffer length {0} is not a multiple of {1}".format(len(buffer), DEFAULT_BLOCK_SIZE)
+        assert (len(buffer) %  block_size)==0, "buffer length {0} is not a multiple of {1}".format(len(buffer), block_size)
         self.logical_block_address = logical_block_address
         self.buffer = buffer
         self.number_of_blocks = number_of_blocks
-- 
2.43.0


From ecda7ce404a63e9db68f5b6cad7ee58ae275e7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 04/58] fix: UNMAP data length counts the six header bytes that
 follow it

---
 src/infi/asi/cdb/unmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/unmap.py b/src/infi/asi/cdb/unmap.py
index 7ca710f..5ea7b2e 100644
--- a/src/infi/asi/cdb/unmap.py
+++ b/src/infi/asi/cdb/unmap.py
@@ -49,7 +49,7 @@ class UnmapParameterListHeader(CDB):
 
     def __init__(self, data_length):
         super(UnmapParameterListHeader, self).__init__()
-        self.unmap_data_length=data_length+7
+        self.unmap_data_length=data_length+6
         self.unmap_block_descriptor_data_length=data_length
         self.datagram = self.create_datagram()
 
-- 
2.43.0


From 7a55b97ab93c972c9f54dbeb1189863e6f3d3bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:58 +0000
Subject: [PATCH 05/58] fix: PERSISTENT RESERVE OUT sends the caller's APTPL
 bit

---
 src/infi/asi/cdb/persist/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/persist/output.py b/src/infi/asi/cdb/persist/output.py
index a86a2fa..c41d16c 100644
--- a/src/infi/asi/cdb/persist/output.py
+++ b/src/infi/asi/cdb/persist/output.py
@@ -42,7 +42,7 @@ class PersistentReserveOutCommandBasicParameterList(CDBBuffer):
     """
     reservation_key = be_uint_field(where=bytes_ref[0:8])
     service_action_reservation_key = be_uint_field(where=bytes_ref[8:16])
-    activate_persist_through_power_loss = be_uint_field(where=bytes_ref[20].bits[0], set_before_pack=0, default=0)
+    activate_persist_through_power_loss = be_uint_field(where=bytes_ref[20].bits[0], default=0)
     obsolete_1 = be_uint_field(where=bytes_ref[16:20], set_before_pack=0, default=0)
     all_target_ports = be_uint_field(where=bytes_ref[20].bits[2], default=0)
     specify_initiator_ports = be_uint_field(where=bytes_ref[20].bits[3], default=0)  
-- 
2.43.0


From 0b068947902770cbb1bc0f72423656f2f5789d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:23 +0000
Subject: [PATCH 06/58] fix: an exception handled by a coroutine no longer
 reaches its caller, and exception objects can be results

---
 src/infi/asi/coroutines/sync_adapter.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/infi/asi/coroutines/sync_adapter.py b/src/infi/asi/coroutines/sync_adapter.py
index 689b105..3db1059 100755
--- a/src/infi/asi/coroutines/sync_adapter.py
+++ b/src/infi/asi/coroutines/sync_adapter.py
@@ -8,6 +8,7 @@ class Coroutine(object):
     def __init__(self, generator):
         self.stack = [ generator ]
         self.args = None
+        self.exception = None   # to be thrown into the topmost generator, instead of sending it self.args
         self.tb = None
         self.result = None
         self.done = False
@@ -18,8 +19,9 @@ class Coroutine(object):
     def _next_step(self):
         """ invokes next generator in stack. returns False if execution should stop """
         try:
-            if isinstance(self.args, BaseException):
-                self.result = self.stack[-1].throw(self.args, None, self.tb)
+            if self.exception is not None:
+                exception, self.exception, self.args = self.exception, None, None
+                self.result = self.stack[-1].throw(exception, None, self.tb)
             else:
                 self.result = self.stack[-1].send(self.args)
             self.args = None
@@ -36,7 +38,7 @@ class Coroutine(object):
             self.stack.pop()
             if len(self.stack) == 0:
                 raise
-            self.args = e
+            self.exception = e
         return True
 
     def loop(self):
@@ -44,6 +46,7 @@ class Coroutine(object):
             if not self._next_step():
                 return self.result
         self.done = True
+        self.result = self.args
         return self.result
 
     def is_done(self):
-- 
2.43.0


From 07861e9cf698a7962046b48c55736f345e05ce1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:34 +0000
Subject: [PATCH 07/58] fix: a failed asynchronous I/O raises in the coroutine
 that waits for it

---
 src/infi/asi/coroutines/sync_adapter.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/coroutines/sync_adapter.py b/src/infi/asi/coroutines/sync_adapter.py
index 3db1059..eb0803c 100755
--- a/src/infi/asi/coroutines/sync_adapter.py
+++ b/src/infi/asi/coroutines/sync_adapter.py
@@ -16,6 +16,14 @@ class Coroutine(object):
     def _handle_async_io_token(self):
         raise NotImplementedError()
 
+    def _take_async_io_result(self, *args, **kwargs):
+        """ hands the outcome of the Async IO Token in self.result to the generator that yielded it """
+        try:
+            self.args = self.result.get_result(*args, **kwargs)
+        except BaseException as e:
+            self.tb = sys.exc_info()[2]
+            self.exception = e
+
     def _next_step(self):
         """ invokes next generator in stack. returns False if execution should stop """
         try:
@@ -62,12 +70,12 @@ class AsyncCoroutine(Coroutine):
     def async_io_complete(self):
         """ Callback for reactor to signal that a blocking async IO has been completed """
         # current self.result is an Async IO Token, we can ask for its result now and continue with the stack
-        self.args = self.result.get_result()
+        self._take_async_io_result()
 
 class SyncCoroutine(Coroutine):
     def _handle_async_io_token(self):
         # we just ask for a synhronous result from self.result which is the Async IO Token, and then continue
-        self.args = self.result.get_result(block=True)
+        self._take_async_io_result(block=True)
         return True
 
 def sync_call(func, *init_args, **init_kwargs):
-- 
2.43.0


From 070360c8e895726ac1923a53982e2007b931c8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:35 +0000
Subject: [PATCH 08/58] fix: sync_call calls the coroutine function once

---
 src/infi/asi/coroutines/sync_adapter.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/infi/asi/coroutines/sync_adapter.py b/src/infi/asi/coroutines/sync_adapter.py
index eb0803c..0ba92fb 100755
--- a/src/infi/asi/coroutines/sync_adapter.py
+++ b/src/infi/asi/coroutines/sync_adapter.py
@@ -79,7 +79,6 @@ class SyncCoroutine(Coroutine):
         return True
 
 def sync_call(func, *init_args, **init_kwargs):
-    stack = [ func(*init_args, **init_kwargs) ]
     return sync_wait(func(*init_args, **init_kwargs))
 
 def sync_wait(generator):
-- 
2.43.0


From b00735c7119b82cf0a475c9047286bd6d4f48f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:40 +0000
Subject: [PATCH 09/58] fix: target port group status code and port count are
 unsigned bytes

---
 src/infi/asi/cdb/rtpg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/cdb/rtpg.py b/src/infi/asi/cdb/rtpg.py
index 5aee687..bab164c 100755
--- a/src/infi/asi/cdb/rtpg.py
+++ b/src/infi/asi/cdb/rtpg.py
@@ -71,9 +71,9 @@ class TargetPortGroupDescriptor(Buffer):
     t_sup = be_int_field(where=bytes_ref[1].bits[7])
 
     target_port_group = be_uint_field(where=bytes_ref[2:4])
-    status_code = be_int_field(where=bytes_ref[5])
+    status_code = be_uint_field(where=bytes_ref[5])
 
-    target_port_count = be_int_field(where=bytes_ref[7])
+    target_port_count = be_uint_field(where=bytes_ref[7])
     target_port_list = list_field(type=TargetPortDescriptor, where=bytes_ref[8:], n=target_port_count)
 
 class TargetPortGroupLengthOnlyResponse(Buffer):
-- 
2.43.0


From 3930e94eef9627ca8ed78de21ac022012927b166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:40 +0000
Subject: [PATCH 10/58] fix: extended REPORT TARGET PORT GROUPS descriptors
 follow the eight byte header

---
 src/infi/asi/cdb/rtpg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/rtpg.py b/src/infi/asi/cdb/rtpg.py
index bab164c..d978f88 100755
--- a/src/infi/asi/cdb/rtpg.py
+++ b/src/infi/asi/cdb/rtpg.py
@@ -83,5 +83,5 @@ class TargetPortGroupLengthOnlyResponse(Buffer):
 class TargetPortGroupExtendedResponse(Buffer):
     data_length = be_int_field(where=bytes_ref[0:4])
     format_type = be_int_field(where=bytes_ref[4].bits[4:7])
-    descriptor_list = list_field(type=TargetPortGroupDescriptor, where=bytes_ref[7:7 + data_length])
+    descriptor_list = list_field(type=TargetPortGroupDescriptor, where=bytes_ref[8:4 + data_length])
     # ...
-- 
2.43.0


From 50aa497fed2467848edad7822d6feadecf3e3b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:40 +0000
Subject: [PATCH 11/58] fix: READ FULL STATUS required_allocation_length uses
 the decoded length

---
 src/infi/asi/cdb/persist/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/persist/input.py b/src/infi/asi/cdb/persist/input.py
index 9fe81e7..0ca00d8 100644
--- a/src/infi/asi/cdb/persist/input.py
+++ b/src/infi/asi/cdb/persist/input.py
@@ -117,7 +117,7 @@ class PersistentReserveInReadFullStatusResponse(CDBBuffer):
         unpack_if=additional_length > 0)
 
     def required_allocation_length(self):
-        return additional_length + 8
+        return self.additional_length + 8
 
 
 class PersistentReserveInCommand(CDBBuffer):
-- 
2.43.0


From fb891291a336b57428c043e3efceb3a2954a4d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:40 +0000
Subject: [PATCH 12/58] fix: READ RESERVATION of 21 bytes has no scope and type
 byte

---
 src/infi/asi/cdb/persist/input.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/cdb/persist/input.py b/src/infi/asi/cdb/persist/input.py
index 0ca00d8..36d3e6c 100644
--- a/src/infi/asi/cdb/persist/input.py
+++ b/src/infi/asi/cdb/persist/input.py
@@ -47,8 +47,8 @@ class PersistentReserveInReadReservationResponse(CDBBuffer):
     reservation_key = be_uint_field(where=bytes_ref[8:16], unpack_if=input_buffer_length >= 16)
     obsolete_1 = be_uint_field(where=bytes_ref[16:20], unpack_if=input_buffer_length >= 20)
     reserved_1 = be_uint_field(where=bytes_ref[20:21], unpack_if=input_buffer_length >= 21)
-    pr_type = be_uint_field(where=bytes_ref[21].bits[0:4], unpack_if=input_buffer_length >= 21)
-    scope = be_uint_field(where=bytes_ref[21].bits[4:8], unpack_if=input_buffer_length >= 21)
+    pr_type = be_uint_field(where=bytes_ref[21].bits[0:4], unpack_if=input_buffer_length >= 22)
+    scope = be_uint_field(where=bytes_ref[21].bits[4:8], unpack_if=input_buffer_length >= 22)
     obsolete_2 = be_uint_field(where=bytes_ref[22:24], unpack_if=input_buffer_length >= 24)
 
     def required_allocation_length(self):
-- 
2.43.0


From e7d24871f89e23a45c53182a84d97a889e9a9708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:40 +0000
Subject: [PATCH 13/58] fix: a truncated READ FULL STATUS reply is decoded
 without its descriptors, as READ KEYS is

---
 src/infi/asi/cdb/persist/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/persist/input.py b/src/infi/asi/cdb/persist/input.py
index 36d3e6c..d3a2bf3 100644
--- a/src/infi/asi/cdb/persist/input.py
+++ b/src/infi/asi/cdb/persist/input.py
@@ -114,7 +114,7 @@ class PersistentReserveInReadFullStatusResponse(CDBBuffer):
     full_status_descriptors = list_field(
         where=bytes_ref[8:8 + additional_length],
         type=PersistentReserveInReadFullStatusDescriptor,
-        unpack_if=additional_length > 0)
+        unpack_if=input_buffer_length >= additional_length + 8)
 
     def required_allocation_length(self):
         return self.additional_length + 8
-- 
2.43.0


From c0a8b4990a4bdd076c84f0e7f57ca530e23b5632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:25 +0000
Subject: [PATCH 14/58] fix: READ RESERVATION without a holder ignores the
 bytes past its declared length

---
 src/infi/asi/cdb/persist/input.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/infi/asi/cdb/persist/input.py b/src/infi/asi/cdb/persist/input.py
index d3a2bf3..61ceee4 100644
--- a/src/infi/asi/cdb/persist/input.py
+++ b/src/infi/asi/cdb/persist/input.py
@@ -44,12 +44,12 @@ class PersistentReserveInReadReservationResponse(CDBBuffer):
     """
     pr_generation = be_uint_field(where=bytes_ref[0:4])
     additional_length = be_uint_field(where=bytes_ref[4:8])
-    reservation_key = be_uint_field(where=bytes_ref[8:16], unpack_if=input_buffer_length >= 16)
-    obsolete_1 = be_uint_field(where=bytes_ref[16:20], unpack_if=input_buffer_length >= 20)
-    reserved_1 = be_uint_field(where=bytes_ref[20:21], unpack_if=input_buffer_length >= 21)
-    pr_type = be_uint_field(where=bytes_ref[21].bits[0:4], unpack_if=input_buffer_length >= 22)
-    scope = be_uint_field(where=bytes_ref[21].bits[4:8], unpack_if=input_buffer_length >= 22)
-    obsolete_2 = be_uint_field(where=bytes_ref[22:24], unpack_if=input_buffer_length >= 24)
+    reservation_key = be_uint_field(where=bytes_ref[8:16], unpack_if=min_ref(input_buffer_length, additional_length + 8) >= 16)
+    obsolete_1 = be_uint_field(where=bytes_ref[16:20], unpack_if=min_ref(input_buffer_length, additional_length + 8) >= 20)
+    reserved_1 = be_uint_field(where=bytes_ref[20:21], unpack_if=min_ref(input_buffer_length, additional_length + 8) >= 21)
+    pr_type = be_uint_field(where=bytes_ref[21].bits[0:4], unpack_if=min_ref(input_buffer_length, additional_length + 8) >= 22)
+    scope = be_uint_field(where=bytes_ref[21].bits[4:8], unpack_if=min_ref(input_buffer_length, additional_length + 8) >= 22)
+    obsolete_2 = be_uint_field(where=bytes_ref[22:24], unpack_if=min_ref(input_buffer_length, additional_length + 8) >= 24)
 
     def required_allocation_length(self):
         return self.additional_length + 8
-- 
2.43.0


From 848ef3dcec76f02a7ee30763a5a8d39ecdded76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 15/58] fix: three and five byte EUI-64 and NAA designator
 fields are big-endian

---
 src/infi/asi/cdb/inquiry/vpd_pages/designators.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
index 8e85618..0fe35de 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
@@ -24,8 +24,8 @@ class Reserved_Designator(DesignatorDescriptor):
 
 # spc4r30, section 7.8.5.5.2, page 617
 class EUI64_Designator(DesignatorDescriptor):
-    ieee_company = be_uint_field(where=bytes_ref[4:7])
-    vendor_specific_extension_identifer = be_uint_field(where=bytes_ref[7:12])
+    ieee_company = be_uint_field(where=(bytes_ref[6] + bytes_ref[5] + bytes_ref[4]))
+    vendor_specific_extension_identifer = be_uint_field(where=(bytes_ref[11] + bytes_ref[10] + bytes_ref[9] + bytes_ref[8] + bytes_ref[7]))
 
 
 # spc4r30, section 7.8.5.5.3, page 617
@@ -36,8 +36,8 @@ class EUI64_12Byte_Designator(EUI64_Designator):
 # spc4r30, section 7.8.5.5.4, page 618
 class EUI64_16Byte_Designator(DesignatorDescriptor):
     identifier_extension = be_uint_field(where=bytes_ref[4:12])
-    ieee_company = be_uint_field(where=bytes_ref[12:15])
-    vendor_specific_extension_identifer = be_uint_field(where=bytes_ref[15:20])
+    ieee_company = be_uint_field(where=(bytes_ref[14] + bytes_ref[13] + bytes_ref[12]))
+    vendor_specific_extension_identifer = be_uint_field(where=(bytes_ref[19] + bytes_ref[18] + bytes_ref[17] + bytes_ref[16] + bytes_ref[15]))
 
 
 # spc4r30, section 7.8.5.6.1, page 618
@@ -48,8 +48,8 @@ class NAA_Descriptor(DesignatorDescriptor):
 # spc4r30, section 7.8.5.6.2, page 619
 class NAA_IEEE_Extended_Designator(NAA_Descriptor):
     vendor_specific_identifier_a = be_uint_field(where=(bytes_ref[5] + bytes_ref[4].bits[0:4]))
-    ieee_company = be_uint_field(where=bytes_ref[6:9])
-    vendor_specific_identifier_b = be_uint_field(where=bytes_ref[9:12])
+    ieee_company = be_uint_field(where=(bytes_ref[8] + bytes_ref[7] + bytes_ref[6]))
+    vendor_specific_identifier_b = be_uint_field(where=(bytes_ref[11] + bytes_ref[10] + bytes_ref[9]))
 
 
 # spc4r30, section 7.8.5.6.2, page 619
-- 
2.43.0


From 6f06c6396ccf72ee8a2a8e8136d410d09e4a9ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 16/58] fix: ATA information registers, page code and command
 code are unsigned

---
 .../cdb/inquiry/vpd_pages/ata_information.py  | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
index a726537..bd60656 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
@@ -1,6 +1,6 @@
 from .. import PeripheralDeviceDataBuffer
 from . import EVPDInquiryCommand
-from infi.instruct.buffer import Buffer, str_field, bytes_ref, buffer_field, be_int_field
+from infi.instruct.buffer import Buffer, str_field, bytes_ref, buffer_field, be_uint_field
 
 
 # sat3r04: 12.4.2
@@ -23,27 +23,27 @@ class AtaIdentifyDevice(Buffer):
 
 class DeviceSignature(Buffer):
     byte_size = 20
-    transport_id = be_int_field(where=bytes_ref[0])
-    pm_port = be_int_field(where=bytes_ref[1].bits[0:4])
-    interrupt = be_int_field(where=bytes_ref[1].bits[6])
-    status = be_int_field(where=bytes_ref[2])
-    error = be_int_field(where=bytes_ref[3])
+    transport_id = be_uint_field(where=bytes_ref[0])
+    pm_port = be_uint_field(where=bytes_ref[1].bits[0:4])
+    interrupt = be_uint_field(where=bytes_ref[1].bits[6])
+    status = be_uint_field(where=bytes_ref[2])
+    error = be_uint_field(where=bytes_ref[3])
     lba = str_field(where=(bytes_ref[4] + bytes_ref[5] + bytes_ref[6] +
                            bytes_ref[8] + bytes_ref[9] + bytes_ref[10]))
-    device = be_int_field(where=bytes_ref[7])
-    sector_count = be_int_field(where=bytes_ref[12:14])
+    device = be_uint_field(where=bytes_ref[7])
+    sector_count = be_uint_field(where=bytes_ref[12:14])
 
 
 class AtaInformationVPDPageBuffer(Buffer):
     byte_size = 572
     peripheral_device = buffer_field(where=bytes_ref[0:], type=PeripheralDeviceDataBuffer)
-    page_code = be_int_field(where=bytes_ref[1:2])
-    page_length = be_int_field(where=bytes_ref[2:4])
+    page_code = be_uint_field(where=bytes_ref[1:2])
+    page_length = be_uint_field(where=bytes_ref[2:4])
     sat_vendor_identification = str_field(where=bytes_ref[8:16])  # bytes 8-15
     sat_product_identification = str_field(where=bytes_ref[16:32])  # bytes 16-31
     sat_product_revision_level = str_field(where=bytes_ref[32:36])  # bytes 32-35
     device_signature = buffer_field(where=bytes_ref[36:56], type=DeviceSignature)  # bytes 36-55
-    command_code = be_int_field(where=bytes_ref[56:57])
+    command_code = be_uint_field(where=bytes_ref[56:57])
     # ATA IDENTIFY DEVICE: bytes 60-571
     identify_device = buffer_field(where=bytes_ref[60:572], type=AtaIdentifyDevice)
 
-- 
2.43.0


From e4d9e0f96f5906320e49efc96e52a65e53a4db8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 17/58] fix: ATA signature LBA registers may hold any byte
 value

---
 src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
index bd60656..225e07f 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
@@ -28,7 +28,8 @@ class DeviceSignature(Buffer):
     interrupt = be_uint_field(where=bytes_ref[1].bits[6])
     status = be_uint_field(where=bytes_ref[2])
     error = be_uint_field(where=bytes_ref[3])
-    lba = str_field(where=(bytes_ref[4] + bytes_ref[5] + bytes_ref[6] +
+    lba = str_field(encoding="latin-1",
+                    where=(bytes_ref[4] + bytes_ref[5] + bytes_ref[6] +
                            bytes_ref[8] + bytes_ref[9] + bytes_ref[10]))
     device = be_uint_field(where=bytes_ref[7])
     sector_count = be_uint_field(where=bytes_ref[12:14])
-- 
2.43.0


From a4e458aa41466434a9ab23750f33d4c791927c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 18/58] fix: ATA signature sector count register holds its low
 byte first

---
 src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
index 225e07f..0f6b8e8 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
@@ -1,6 +1,6 @@
 from .. import PeripheralDeviceDataBuffer
 from . import EVPDInquiryCommand
-from infi.instruct.buffer import Buffer, str_field, bytes_ref, buffer_field, be_uint_field
+from infi.instruct.buffer import Buffer, str_field, bytes_ref, buffer_field, be_uint_field, le_uint_field
 
 
 # sat3r04: 12.4.2
@@ -32,7 +32,7 @@ class DeviceSignature(Buffer):
                     where=(bytes_ref[4] + bytes_ref[5] + bytes_ref[6] +
                            bytes_ref[8] + bytes_ref[9] + bytes_ref[10]))
     device = be_uint_field(where=bytes_ref[7])
-    sector_count = be_uint_field(where=bytes_ref[12:14])
+    sector_count = le_uint_field(where=bytes_ref[12:14])
 
 
 class AtaInformationVPDPageBuffer(Buffer):
-- 
2.43.0


From 4dd62cc49a1dbfe1265b96367783b4b9ac819fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:59 +0000
Subject: [PATCH 19/58] fix: ATA model number includes the last word of its
 forty characters

---
 src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
index 0f6b8e8..55f06cd 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
@@ -18,7 +18,7 @@ class AtaIdentifyDevice(Buffer):
                                                   52])  # word 23-26 in ATA IDENTIFY DEVICE range
     model_number = str_field(where=bytes_ref[55, 54, 57, 56, 59, 58, 61, 60, 63, 62, 65, 64, 67, 66, 69, 68,
                                              71, 70, 73, 72, 75, 74, 77, 76, 79, 78, 81, 80, 83, 82, 85, 84,
-                                             87, 86, 89, 88, 91, 90])  # word 27-46 in ATA IDENTIFY DEVICE range
+                                             87, 86, 89, 88, 91, 90, 93, 92])  # word 27-46 in ATA IDENTIFY DEVICE range
 
 
 class DeviceSignature(Buffer):
-- 
2.43.0


From a968743393de41268e476ebce1a88fc29cf9c561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:32 +0000
Subject: [PATCH 20/58] fix: a designator of a reserved type keeps its
 identifier bytes, whatever they are

---
 src/infi/asi/cdb/inquiry/vpd_pages/designators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
index 0fe35de..b80a912 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
@@ -19,7 +19,7 @@ class DesignatorDescriptor(Buffer):
 # Designator types 09-0F are reserved
 class Reserved_Designator(DesignatorDescriptor):
     designator_length = be_uint_field(where=bytes_ref[3], set_before_pack=len_ref(self_ref.designator))
-    desginator = str_field(where=bytes_ref[4:4+designator_length])
+    designator = bytearray_field(where=bytes_ref[4:4+designator_length])
 
 
 # spc4r30, section 7.8.5.5.2, page 617
-- 
2.43.0


From ffb17b1b96b31cf47200b6510148d5057c1692be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 21/58] fix: a full queue raises AsiRequestQueueFullError
 instead of NameError

---
 src/infi/asi/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/__init__.py b/src/infi/asi/__init__.py
index 452c196..069333c 100644
--- a/src/infi/asi/__init__.py
+++ b/src/infi/asi/__init__.py
@@ -3,7 +3,7 @@ __import__("pkg_resources").declare_namespace(__name__)
 import os
 from infi.instruct import *
 from infi.pyutils.decorators import wraps
-from .errors import AsiException, AsiCheckConditionError, AsiInternalError
+from .errors import AsiException, AsiCheckConditionError, AsiInternalError, AsiRequestQueueFullError
 from .sense import *
 
 try:
-- 
2.43.0


From ef40704cdb68daca612cecbb27179539de01c036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 22/58] fix: a request never takes the tag of one that is still
 outstanding

---
 src/infi/asi/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/asi/__init__.py b/src/infi/asi/__init__.py
index 069333c..dffe739 100644
--- a/src/infi/asi/__init__.py
+++ b/src/infi/asi/__init__.py
@@ -116,6 +116,8 @@ class CommandExecuterBase(CommandExecuter):
     def _next_packet_index(self):
         if len(self.pending_packets) >= self.max_queue_size:
             raise AsiRequestQueueFullError()
+        while self.packet_index in self.pending_packets:
+            self.packet_index = (self.packet_index + 1) % self.max_queue_size
         result = self.packet_index
         self.packet_index = (self.packet_index + 1) % self.max_queue_size
         return result
-- 
2.43.0


From 3bdfb6b76299fcbab5b343311c1d4af410a64b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 23/58] fix: a request sent without a callback completes
 without one

---
 src/infi/asi/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/__init__.py b/src/infi/asi/__init__.py
index dffe739..d49db3f 100644
--- a/src/infi/asi/__init__.py
+++ b/src/infi/asi/__init__.py
@@ -132,7 +132,9 @@ class CommandExecuterBase(CommandExecuter):
         if request is None:
             raise AsiInternalError("SCSI response doesn't appear in the pending I/O list.")
 
-        if isinstance(result, Exception):
+        if callback is None:
+            pass
+        elif isinstance(result, Exception):
             callback(None, result)
         else:
             callback(result, None)
-- 
2.43.0


From e7e8b43489c7bdecce129a4be4b6f274f1df2eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 24/58] fix: CommandExecuterAdapter.is_queue_full is not a
 coroutine and is called directly

---
 src/infi/asi/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/__init__.py b/src/infi/asi/__init__.py
index d49db3f..5007c8d 100644
--- a/src/infi/asi/__init__.py
+++ b/src/infi/asi/__init__.py
@@ -176,7 +176,7 @@ class CommandExecuterAdapter(CommandExecuter):
         return self.call_wrapper(self.executer.send, command, callback)
 
     def is_queue_full(self):
-        return self.call_wrapper(self.executer.is_queue_full)
+        return self.executer.is_queue_full()
 
     def wait(self):
         return self.call_wrapper(self.executer.wait)
-- 
2.43.0


From a341c4711cec735daded33ef0a51e67e44665ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 25/58] fix: reservation conflict is a SCSI status, not a host
 status

---
 src/infi/asi/linux.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index bb5b4f0..11a6e4a 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -240,7 +240,7 @@ class LinuxCommandExecuter(CommandExecuterBase):
         if response_sgio.status != 0:
             if response_sgio.host_status == 0x07:
                 return (AsiRequestQueueFullError(), packet_id)
-            if response_sgio.host_status == SCSI_STATUS_CODES['SCSI_STATUS_RESERVATION_CONFLICT']:
+            if response_sgio.status == SCSI_STATUS_CODES['SCSI_STATUS_RESERVATION_CONFLICT']:
                 return (AsiReservationConflictError(), packet_id)
             error = AsiSCSIError(("SCSI response status is not zero: %s" +
                                   "(driver status: %s, host status: %s)") %
-- 
2.43.0


From 8ec2f04dfa079c601c310c6756c34bbc51a472fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 26/58] fix: a good response with an unknown tag raises
 AsiInternalError, as a failed one does

---
 src/infi/asi/linux.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index 11a6e4a..5bd8510 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -264,7 +264,7 @@ class LinuxCommandExecuter(CommandExecuterBase):
             return (error, packet_id)
 
         data = None
-        if request_sgio.dxfer_direction == SG_DXFER_FROM_DEV and request_sgio.dxfer_len != 0:
+        if request_sgio is not None and request_sgio.dxfer_direction == SG_DXFER_FROM_DEV and request_sgio.dxfer_len != 0:
             data = request_sgio.data_buffer.raw
 
         return (data, packet_id)
-- 
2.43.0


From 7ca58fedeae8038e468ed60fa9abd6880650a940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 27/58] fix: the SG_IO ioctl's completion status is no longer
 discarded

---
 src/infi/asi/linux.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index 5bd8510..8e12590 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -285,7 +285,7 @@ class LinuxIoctlCommandExecuter(LinuxCommandExecuter):
     def _os_send(self, os_data):
         from fcntl import ioctl
         self.buffer = os_data.to_raw()
-        gevent_friendly(ioctl)(self.io.fd, SG_IO, self.buffer)
+        self.buffer = gevent_friendly(ioctl)(self.io.fd, SG_IO, self.buffer)
         yield len(self.buffer)
 
     def _os_receive(self):
-- 
2.43.0


From 65568c511a57bab230f575e0c9ce2cd288e15a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 28/58] fix: a failed overlapped request raises instead of
 passing for a success

---
 src/infi/asi/win32.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/win32.py b/src/infi/asi/win32.py
index 2b3ce44..16b7b32 100755
--- a/src/infi/asi/win32.py
+++ b/src/infi/asi/win32.py
@@ -146,7 +146,8 @@ class WinAsyncIOToken(OSAsyncIOToken):
     def get_result(self, block=False):
         result = c_ulong()
         overlapped_struct = overlapped_struct_from_event(self.event)
-        err = kernel32.GetOverlappedResult(self.handle, byref(self.overlapped), byref(result), block)
+        if not kernel32.GetOverlappedResult(self.handle, byref(self.overlapped), byref(result), block):
+            raise AsiWin32OSError(GetLastError(), "GetOverlappedResult failed")
         return result
 
 class Win32AsyncFile(OSAsyncFile, Win32File):
-- 
2.43.0


From 0b02deb2d694606d310d96fc98f95480372f202f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 29/58] fix: an overlapped request that completes at once is
 not an error

---
 src/infi/asi/win32.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/win32.py b/src/infi/asi/win32.py
index 16b7b32..b8a6dd0 100755
--- a/src/infi/asi/win32.py
+++ b/src/infi/asi/win32.py
@@ -168,7 +168,7 @@ class Win32AsyncFile(OSAsyncFile, Win32File):
         if not api_result and last_error == ERROR_IO_PENDING:
             token = WinAsyncIOToken(self.handle, self._overlapped_struct, self._windows_event_handle)
             yield token
-        else:
+        elif not api_result:
             raise AsiWin32OSError(GetLastError(), "DeviceIoControl %d for path %s failed" % (control_code, self.path))
 
 def WaitForMultipleObjects(events):
-- 
2.43.0


From 5cd75f3f6bb67ba7cbb3c5317acf97e753c3cf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 30/58] fix: an ioctl that fails through libc raises, as one
 through fcntl does

---
 src/infi/asi/aix.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/aix.py b/src/infi/asi/aix.py
index e0d105b..b5cfdf4 100644
--- a/src/infi/asi/aix.py
+++ b/src/infi/asi/aix.py
@@ -4,6 +4,7 @@ from .linux import prettify_status, SENSE_SIZE
 from .errors import AsiSCSIError, AsiOSError
 from ctypes import *
 from logging import getLogger
+import os
 import six
 
 logger = getLogger(__name__)
@@ -341,6 +342,12 @@ class sc_passthru(Structure):
     def sizeof(cls):
         return sizeof(cls)
 
+def _raise_ioctl_error(result, func, args):
+    if result == -1:
+        errno = get_errno()
+        raise IOError(errno, os.strerror(errno))
+    return result
+
 def get_ioctl_function():
     # fcntl.ioctl doesn't support arguments above 32-bit, but we pass
     # a pointer to ioctl which, in 64-bit mode, may be a 64-bit value -
@@ -349,7 +356,7 @@ def get_ioctl_function():
     try:
         # this will only work on 64-bit Python and only
         # on Python >= 3.7 (bpo-26439)
-        libc = ctypes.CDLL("libc.a(shr_64.o)")
+        libc = ctypes.CDLL("libc.a(shr_64.o)", use_errno=True)
     except OSError:  # Could not load module
         # use fcntl
         import fcntl
@@ -358,6 +365,7 @@ def get_ioctl_function():
         ioctl = libc.ioctl
         ioctl.restype = ctypes.c_int
         ioctl.argtypes = (ctypes.c_int, ctypes.c_int, ctypes.c_void_p)
+        ioctl.errcheck = _raise_ioctl_error
         return ioctl
 
 class AixCommandExecuter(CommandExecuterBase):
-- 
2.43.0


From ad61933639a5b2dc0b0888f9330147ee2dc982dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 31/58] fix: a request the transport reports as failed
 (uscsi_reason) is not a success

---
 src/infi/asi/solaris.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/solaris.py b/src/infi/asi/solaris.py
index b24f09d..e6b9bdc 100644
--- a/src/infi/asi/solaris.py
+++ b/src/infi/asi/solaris.py
@@ -210,13 +210,13 @@ class SolarisCommandExecuter(CommandExecuterBase):
         packet_id = 0
         request_cmd = self._get_os_data(packet_id)
         response_status_code = response_cmd.uscsi_status & 0xFF
-        response_reason_code = (response_cmd.uscsi_status << 8) & 0xFF
+        response_reason_code = (response_cmd.uscsi_status >> 8) & 0xFF
 
         if response_status_code & SCSI_STATUS_CODES['SCSI_STATUS_CHECK_CONDITION']:
             logger.debug("response_cmd.status = 0x{:x}".format(response_cmd.uscsi_status))
             return (self._check_condition(string_at(response_cmd.uscsi_rqbuf, SENSE_SIZE)), packet_id)
 
-        if response_status_code != 0:
+        if response_status_code != 0 or response_reason_code != 0:
             return (AsiSCSIError(("SCSI response status is not zero: 0x%02x " +
                                  "(SCSI reason: 0x%02x)") %
                                 (response_status_code, response_reason_code)), packet_id)
-- 
2.43.0


From 6b107fcaaefe58b0c96b8049ed7a20fc5288819b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 32/58] fix: descriptor format sense data has its descriptor
 list after three reserved bytes, not two

---
 src/infi/asi/sense/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/sense/__init__.py b/src/infi/asi/sense/__init__.py
index 4c6f796..5fa61e7 100644
--- a/src/infi/asi/sense/__init__.py
+++ b/src/infi/asi/sense/__init__.py
@@ -59,7 +59,7 @@ class SCSISenseDataDescriptorBased(Struct):
             BitPadding(4)
             ),
         Field("additional_sense_code", AdditionalSenseCode),
-        BytePadding(2),
+        BytePadding(3),
         SumSizeArray("descriptors", UBInt8,
                      StructSelector(UBInt8, SENSE_DESCIPTOR_TYPES, default=SCSISenseDataGenericDescriptor))
     ]
-- 
2.43.0


From 7dd9eec8a6fe00d210444fc82706e213ee56f2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 33/58] fix: qualifier FFh belongs to the additional sense code
 ranges

---
 src/infi/asi/sense/asc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/sense/asc.py b/src/infi/asi/sense/asc.py
index 052f25f..1be2678 100644
--- a/src/infi/asi/sense/asc.py
+++ b/src/infi/asi/sense/asc.py
@@ -668,10 +668,10 @@ ASC_CODES = {
     struct.pack(">BB", 0x7F, 0x00): "VENDOR SPECIFIC",
 }
 
-for i in range(0x80, 0xFF):
+for i in range(0x80, 0x100):
     ASC_CODES[struct.pack(">BB", 0x40, i)] = "DIAGNOSTIC FAILURE ON COMPONENT %2X" % (i,)
 
-for i in range(0, 0xFF):
+for i in range(0, 0x100):
     ASC_CODES[struct.pack(">BB", 0x4D, i)] = "TAGGED OVERLAPPED COMMANDS (%2X = TASK TAG)" % (i,)
     ASC_CODES[struct.pack(">BB", 0x70, i)] = "DECOMPRESSION EXCEPTION SHORT ALGORITHM ID OF %2X" % (i,)
 
-- 
2.43.0


From dffd8e4768b76d6369110a0ffd738ded9bb73a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 34/58] fix: descriptor sense data selects the information
 descriptor's structure by its type

---
 src/infi/asi/sense/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/sense/__init__.py b/src/infi/asi/sense/__init__.py
index 5fa61e7..93e1cad 100644
--- a/src/infi/asi/sense/__init__.py
+++ b/src/infi/asi/sense/__init__.py
@@ -1,4 +1,5 @@
 from infi.instruct import *
+from infi.instruct.struct.selector import FuncStructSelectorMarshal
 
 from .asc import AdditionalSenseCode
 
@@ -44,6 +45,11 @@ SENSE_DESCIPTOR_TYPES = {
     0x00: SCSISenseDataDescriptorInformation,
 }
 
+def select_sense_descriptor(stream, context):
+    # StructSelector never looks at the mapping it is given, so every descriptor would be a generic one
+    descriptor_type = UBInt8.create_from_stream(stream, context)
+    return SENSE_DESCIPTOR_TYPES.get(descriptor_type, SCSISenseDataGenericDescriptor)
+
 class SCSISenseResponseCode(Struct):
     _fields_ = BitFields(
         BitField("code", 7),
@@ -60,8 +66,7 @@ class SCSISenseDataDescriptorBased(Struct):
             ),
         Field("additional_sense_code", AdditionalSenseCode),
         BytePadding(3),
-        SumSizeArray("descriptors", UBInt8,
-                     StructSelector(UBInt8, SENSE_DESCIPTOR_TYPES, default=SCSISenseDataGenericDescriptor))
+        SumSizeArray("descriptors", UBInt8, FuncStructSelectorMarshal(select_sense_descriptor))
     ]
 
 # spc4r30: 4.5.3 (page 57) This is for response_code 70h and 71h
-- 
2.43.0


From da90ba6cacd2602a1af9d31b65df504381ba6cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 35/58] fix: malformed sense data still raises the check
 condition error of its command

---
 src/infi/asi/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/__init__.py b/src/infi/asi/__init__.py
index 5007c8d..f775719 100644
--- a/src/infi/asi/__init__.py
+++ b/src/infi/asi/__init__.py
@@ -157,7 +157,11 @@ class CommandExecuterBase(CommandExecuter):
         raise NotImplementedError()
 
     def _check_condition(self, buf):
-        sense = get_sense_object_from_buffer(buf)
+        try:
+            sense = get_sense_object_from_buffer(buf)
+        except Exception:
+            # malformed sense data is still a check condition of this command
+            sense = None
         return AsiCheckConditionError(buf, sense)
 
 # TODO: maybe add a ReactorCommandExecuter that also adds a "register_response_listener()" that automatically reads
-- 
2.43.0


From 54f5be761399968fc1589d576fb8966de4ee2699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 36/58] fix: an unknown diagnostic page is decoded to its code
 and payload

---
 src/infi/asi/cdb/diagnostic/ses_pages/unknown.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/unknown.py b/src/infi/asi/cdb/diagnostic/ses_pages/unknown.py
index f9d0049..47e5a40 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/unknown.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/unknown.py
@@ -1,10 +1,12 @@
-from infi.instruct.buffer import Buffer, bytes_ref, be_int_field
-from . import PCVReceiveDiagnosticResultCommand
+from infi.instruct.buffer import bytes_ref, be_uint_field, list_field
+from infi.instruct.buffer.macros import b_uint8
+from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 
 
-class UnknownDiagnosticPageData(Buffer):
-    page_code = be_int_field(where=bytes_ref[0:1])
-    page_data = be_int_field(where=bytes_ref[1:])
+class UnknownDiagnosticPageData(DiagnosticDataBuffer):
+    page_code = be_uint_field(where=bytes_ref[0])
+    page_length = be_uint_field(where=bytes_ref[2:4])
+    page_data = list_field(where=bytes_ref[4:4+page_length], type=b_uint8)
 
 
 def UnknownDiagnosticPageCommand(page_code):
-- 
2.43.0


From 21bae7937a1960a2f25a9e0b929bf46252ac9e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 37/58] fix: supported and vendor 80h diagnostic pages end at
 their page length

---
 src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py | 8 ++++----
 src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py     | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py b/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py
index bffbb72..ceb3583 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py
@@ -1,12 +1,12 @@
-from infi.instruct.buffer import bytes_ref, be_int_field, uint8, list_field
+from infi.instruct.buffer import bytes_ref, be_uint_field, uint8, list_field
 from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 
 
 # spc4r36f: 7.2.4
 class SupportedDiagnosticPagesData(DiagnosticDataBuffer):
-    page_code = be_int_field(where=bytes_ref[0:1])
-    page_length = be_int_field(where=bytes_ref[2:4])
-    supported_pages = list_field(type=uint8, where=bytes_ref[4:])
+    page_code = be_uint_field(where=bytes_ref[0:1])
+    page_length = be_uint_field(where=bytes_ref[2:4])
+    supported_pages = list_field(type=uint8, where=bytes_ref[4:4+page_length])
 
 
 # spc4r36f: 7.2.4
diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py b/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py
index eeed147..ea08692 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py
@@ -1,11 +1,11 @@
-from infi.instruct.buffer import bytes_ref, be_int_field, uint8, list_field
+from infi.instruct.buffer import bytes_ref, be_uint_field, uint8, list_field
 from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 
 
 class Vendor0x80DiagnosticPagesData(DiagnosticDataBuffer):
-    page_code = be_int_field(where=bytes_ref[0:1])
-    page_length = be_int_field(where=bytes_ref[2:4])
-    vendor_specific = list_field(type=uint8, where=bytes_ref[4:])
+    page_code = be_uint_field(where=bytes_ref[0:1])
+    page_length = be_uint_field(where=bytes_ref[2:4])
+    vendor_specific = list_field(type=uint8, where=bytes_ref[4:4+page_length])
 
 
 class Vendor0x80DiagnosticPagesCommand(PCVReceiveDiagnosticResultCommand):
-- 
2.43.0


From dc343f03a0c384c0f73becc4fd48077b23800bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 38/58] fix: SES configuration page counts, lengths and
 identifiers are unsigned

---
 .../cdb/diagnostic/ses_pages/configuration.py  | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py b/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py
index d7b7b3e..1928133 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py
@@ -65,8 +65,8 @@ ELEMENT_TYPE_CODES = {ELEMENT_TYPE_UNSPECIFIED: 'Unspecified',
 class EnclosureDescriptor(Buffer):
     enclosure_services_processes_num = be_int_field(where=bytes_ref[0].bits[0:3])
     relative_enclosure_services_process_identifier = be_int_field(where=bytes_ref[0].bits[4:7])
-    subenclosure_identifier = be_int_field(where=bytes_ref[1])
-    type_descriptor_headers_num = be_int_field(where=bytes_ref[2])
+    subenclosure_identifier = be_uint_field(where=bytes_ref[1])
+    type_descriptor_headers_num = be_uint_field(where=bytes_ref[2])
     enclosure_descriptor_length = be_uint_field(where=bytes_ref[3])
     enclosure_logical_identifier = bytearray_field(where=bytes_ref[4:12])
     enclosure_vendor_identification = str_field(where=bytes_ref[12:20])
@@ -78,9 +78,9 @@ class EnclosureDescriptor(Buffer):
 
 class TypeDescriptorHeader(Buffer):
     element_type = be_int_field(where=bytes_ref[0], sign='unsigned')
-    possible_elements_num = be_int_field(where=bytes_ref[1])
-    subenclosure_identifier = be_int_field(where=bytes_ref[2])
-    type_descriptor_text_length = be_int_field(where=bytes_ref[3])
+    possible_elements_num = be_uint_field(where=bytes_ref[1])
+    subenclosure_identifier = be_uint_field(where=bytes_ref[2])
+    type_descriptor_text_length = be_uint_field(where=bytes_ref[3])
 
 
 class ConfigurationDiagnosticPagesData(DiagnosticDataBuffer):
@@ -91,10 +91,10 @@ class ConfigurationDiagnosticPagesData(DiagnosticDataBuffer):
         l = self.type_descriptor_header_list[index].type_descriptor_text_length
         return buffer[0:l].to_bytes(), l
 
-    page_code = be_int_field(where=bytes_ref[0])
-    secondary_subenclosures_num = be_int_field(where=bytes_ref[1])
-    page_length = be_int_field(where=bytes_ref[2:4], set_before_pack=total_size - 4)
-    generation_code = be_int_field(where=bytes_ref[4:8])
+    page_code = be_uint_field(where=bytes_ref[0])
+    secondary_subenclosures_num = be_uint_field(where=bytes_ref[1])
+    page_length = be_uint_field(where=bytes_ref[2:4], set_before_pack=total_size - 4)
+    generation_code = be_uint_field(where=bytes_ref[4:8])
     enclosure_descriptor_list = list_field(type=EnclosureDescriptor,
                                            where=bytes_ref[8:],
                                            n=secondary_subenclosures_num + 1)
-- 
2.43.0


From cb40a4bee24c0b1488e883f2080eab2d20b3cec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 39/58] fix: SES element descriptor lengths are unsigned

---
 .../asi/cdb/diagnostic/ses_pages/element_descriptor.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/element_descriptor.py b/src/infi/asi/cdb/diagnostic/ses_pages/element_descriptor.py
index 816ae12..85f63cc 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/element_descriptor.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/element_descriptor.py
@@ -1,9 +1,9 @@
-from infi.instruct.buffer import Buffer, bytes_ref, be_int_field, list_field, buffer_field, after_ref, member_func_ref, bytearray_field
+from infi.instruct.buffer import Buffer, bytes_ref, be_uint_field, list_field, buffer_field, after_ref, member_func_ref, bytearray_field
 from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 
 
 class Descriptor(Buffer):
-    descriptor_length = be_int_field(where=bytes_ref[2:4])
+    descriptor_length = be_uint_field(where=bytes_ref[2:4])
     descriptor = bytearray_field(where_when_pack=bytes_ref[4:], where_when_unpack=bytes_ref[4:descriptor_length + 4])
 
 
@@ -30,9 +30,9 @@ class ElementDescriptorDiagnosticPagesData(DiagnosticDataBuffer):
     def _possible_elements_num(self):
         return len(self.conf_page.type_descriptor_header_list)
 
-    page_code = be_int_field(where=bytes_ref[0])
-    page_length = be_int_field(where=bytes_ref[2:4])
-    generation_code = be_int_field(where=bytes_ref[4:8])
+    page_code = be_uint_field(where=bytes_ref[0])
+    page_length = be_uint_field(where=bytes_ref[2:4])
+    generation_code = be_uint_field(where=bytes_ref[4:8])
     element_descriptors = list_field(where=bytes_ref[8:], type=ElementDescriptor,
                                      unpack_selector=_unpack_status_descriptor,
                                      n=member_func_ref(_possible_elements_num))
-- 
2.43.0


From 3dbccdc28e9342c5e00d217ed327dc9c492cbfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 40/58] fix: enclosure element's requested warning, failure and
 power off duration are in its last byte

---
 src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
index eb8d7b1..ea4eefa 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
@@ -207,9 +207,9 @@ class EnclosureElementInfo(Buffer):
     warn_indication = be_int_field(where=bytes_ref[1].bits[0])
     failure_indication = be_int_field(where=bytes_ref[1].bits[1])
     time_until_power_cycle = be_int_field(where=bytes_ref[1].bits[2:8])
-    warn_requested = be_int_field(where=bytes_ref[1].bits[0])
-    failure_requested = be_int_field(where=bytes_ref[1].bits[1])
-    requested_power_off_duration = be_int_field(where=bytes_ref[1].bits[2:8])
+    warn_requested = be_int_field(where=bytes_ref[2].bits[0])
+    failure_requested = be_int_field(where=bytes_ref[2].bits[1])
+    requested_power_off_duration = be_int_field(where=bytes_ref[2].bits[2:8])
 
 
 # ses3r05: 7.3.17
-- 
2.43.0


From d982609e1203a14521fc2abe2699c91c0166799f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 41/58] fix: cooling element's fan speed has its high bits in
 the first byte

---
 src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
index ea4eefa..e54e57b 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
@@ -89,7 +89,7 @@ FAN_SPEED_CODE = {0: 'Cooling mechanism is stopped',
 class CoolingElementInfo(Buffer):
     byte_size = 3
     # for real fan speed the fan speed value should be multiplied by a factor of 10
-    fan_speed = be_int_field(where=(bytes_ref[0].bits[0:3] + bytes_ref[1]))
+    fan_speed = be_int_field(where=(bytes_ref[1] + bytes_ref[0].bits[0:3]))
     ident = be_int_field(where=bytes_ref[0].bits[7])
     speed_code = be_int_field(where=bytes_ref[2].bits[0:3])
     off = be_int_field(where=bytes_ref[2].bits[4])
-- 
2.43.0


From dd5926f4f029fb3de7edbf3090c9c02d68c580ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 42/58] fix: enclosure status readings, codes and lengths are
 unsigned

---
 .../diagnostic/ses_pages/enclosure_status.py  | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
index e54e57b..d531b03 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
@@ -1,16 +1,16 @@
-from infi.instruct.buffer import Buffer, bytes_ref, be_int_field, list_field, buffer_field, int8, member_func_ref
+from infi.instruct.buffer import Buffer, bytes_ref, be_int_field, be_uint_field, list_field, buffer_field, uint8, member_func_ref
 from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 
 
 class GeneralElementInfo(Buffer):
     byte_size = 3
-    general = list_field(type=int8, where=bytes_ref[0:])
+    general = list_field(type=uint8, where=bytes_ref[0:])
 
 
 # ses3r05: 7.3.2
 class DeviceSlotElementInfo(Buffer):
     byte_size = 3
-    slot_address = be_int_field(where=bytes_ref[0])
+    slot_address = be_uint_field(where=bytes_ref[0])
     report = be_int_field(where=bytes_ref[1].bits[0])
     ident = be_int_field(where=bytes_ref[1].bits[1])
     rmv = be_int_field(where=bytes_ref[1].bits[2])
@@ -103,7 +103,7 @@ class TempSensorElementInfo(Buffer):
     byte_size = 3
     fail = be_int_field(where=bytes_ref[0].bits[6])
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    temperature = be_int_field(where=bytes_ref[1])
+    temperature = be_uint_field(where=bytes_ref[1])
     ut_warn = be_int_field(where=bytes_ref[2].bits[0])
     ut_fail = be_int_field(where=bytes_ref[2].bits[1])
     ot_warn = be_int_field(where=bytes_ref[2].bits[2])
@@ -156,20 +156,20 @@ class NonVolotileCacheElementInfo(Buffer):
     size_mult = be_int_field(where=bytes_ref[0].bits[0:2])
     fail = be_int_field(where=bytes_ref[0].bits[6])
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    cache_size = be_int_field(where=bytes_ref[1:])
+    cache_size = be_uint_field(where=bytes_ref[1:])
 
 
 # ses3r05: 7.3.12
 class InvalidOpReasonElementInfo(Buffer):
     byte_size = 3
     invop_type = be_int_field(where=bytes_ref[0].bits[6:8])
-    invop_bytes = be_int_field(where=bytes_ref[1:])
+    invop_bytes = be_uint_field(where=bytes_ref[1:])
 
 
 # ses3r05: 7.3.13
 class UninterruptiblePowerSupplyElementInfo(Buffer):
     byte_size = 3
-    battery_status = be_int_field(where=bytes_ref[0])
+    battery_status = be_uint_field(where=bytes_ref[0])
     intf_fail = be_int_field(where=bytes_ref[1].bits[0])
     warn = be_int_field(where=bytes_ref[1].bits[1])
     ups_fail = be_int_field(where=bytes_ref[1].bits[2])
@@ -190,7 +190,7 @@ class DisplayElementInfo(Buffer):
     display_mode_status = be_int_field(where=bytes_ref[0].bits[0:2])
     fail = be_int_field(where=bytes_ref[0].bits[6])
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    display_char_status = be_int_field(where=bytes_ref[1:])
+    display_char_status = be_uint_field(where=bytes_ref[1:])
 
 
 # ses3r05: 7.3.15
@@ -227,7 +227,7 @@ class ScsiPortTransceiverElementInfo(Buffer):
 class LanguageElementInfo(Buffer):
     byte_size = 3
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    language_code = be_int_field(where=bytes_ref[1:])
+    language_code = be_uint_field(where=bytes_ref[1:])
 
 
 # ses3r05: 7.3.19
@@ -283,7 +283,7 @@ class SimpleSubenclosureElementInfo(Buffer):
     byte_size = 3
     fail = be_int_field(where=bytes_ref[0].bits[6])
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    short_enclosure_status = be_int_field(where=bytes_ref[2])
+    short_enclosure_status = be_uint_field(where=bytes_ref[2])
 
 
 # ses3r05: 7.3.25
@@ -298,7 +298,7 @@ class SasConnectorElementInfo(Buffer):
     byte_size = 3
     connector_type = be_int_field(where=bytes_ref[0].bits[0:7])
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    connector_phys_link = be_int_field(where=bytes_ref[1])
+    connector_phys_link = be_uint_field(where=bytes_ref[1])
     fail = be_int_field(where=bytes_ref[2].bits[6])
 
 
@@ -488,14 +488,14 @@ class EnclosureStatusDiagnosticPagesData(DiagnosticDataBuffer):
     def _possible_elements_num(self):
         return len(self.conf_page.type_descriptor_header_list)
 
-    page_code = be_int_field(where=bytes_ref[0])
+    page_code = be_uint_field(where=bytes_ref[0])
     unrecov = be_int_field(where=bytes_ref[1].bits[0])
     crit = be_int_field(where=bytes_ref[1].bits[1])
     non_crit = be_int_field(where=bytes_ref[1].bits[2])
     info = be_int_field(where=bytes_ref[1].bits[3])
     invop = be_int_field(where=bytes_ref[1].bits[4])
-    page_length = be_int_field(where=bytes_ref[2:4])
-    generation_code = be_int_field(where=bytes_ref[4:8])
+    page_length = be_uint_field(where=bytes_ref[2:4])
+    generation_code = be_uint_field(where=bytes_ref[4:8])
     status_descriptors = list_field(where=bytes_ref[8:], type=StatusDescriptor,
                                     unpack_selector=_unpack_status_descriptor,
                                     n=member_func_ref(_possible_elements_num))
-- 
2.43.0


From bf4d930c5b44e4e7bcbc809c80bb11e2f29791e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:14 +0000
Subject: [PATCH 43/58] fix: empty type descriptor texts at the end of a
 configuration page are kept

---
 src/infi/asi/cdb/diagnostic/ses_pages/configuration.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py b/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py
index 1928133..43a1665 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py
@@ -106,6 +106,15 @@ class ConfigurationDiagnosticPagesData(DiagnosticDataBuffer):
                                            unpack_selector=_unpack_type_descriptor_text,
                                            n=member_func_ref(_calc_num_type_descriptor_headers))
 
+    def unpack(self, buffer):
+        result = super(ConfigurationDiagnosticPagesData, self).unpack(buffer)
+        # a list ends where the buffer does, which leaves out empty texts at the end of the page
+        for header in self.type_descriptor_header_list[len(self.type_descriptor_text_list):]:
+            if header.type_descriptor_text_length != 0:
+                break
+            self.type_descriptor_text_list.append(b"")
+        return result
+
 
 class ConfigurationDiagnosticPagesCommand(PCVReceiveDiagnosticResultCommand):
     def __init__(self):
-- 
2.43.0


From 8492afd0ffcc591c7e1ab44d062016e7837b7a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 44/58] fix: a supported diagnostic pages reply without a page
 length keeps its pages

---
 src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py b/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py
index ceb3583..14def6a 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py
@@ -1,12 +1,16 @@
-from infi.instruct.buffer import bytes_ref, be_uint_field, uint8, list_field
+from infi.instruct.buffer import bytes_ref, be_uint_field, uint8, list_field, member_func_ref
 from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 
 
 # spc4r36f: 7.2.4
 class SupportedDiagnosticPagesData(DiagnosticDataBuffer):
+    def _calc_supported_pages_num(self):
+        # page 0x00 is always supported, so a length of zero is a length the device did not fill in
+        return self.page_length or None
+
     page_code = be_uint_field(where=bytes_ref[0:1])
     page_length = be_uint_field(where=bytes_ref[2:4])
-    supported_pages = list_field(type=uint8, where=bytes_ref[4:4+page_length])
+    supported_pages = list_field(type=uint8, where=bytes_ref[4:], n=member_func_ref(_calc_supported_pages_num))
 
 
 # spc4r36f: 7.2.4
-- 
2.43.0


From 119a957d113243972a33623857cd9bf5a2e5c498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 45/58] fix: logical block provisioning page without a group
 descriptor does not read one past its page length

---
 .../asi/cdb/inquiry/vpd_pages/logical_block_provisioning.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/logical_block_provisioning.py b/src/infi/asi/cdb/inquiry/vpd_pages/logical_block_provisioning.py
index 9c9abfa..6bc74ad 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/logical_block_provisioning.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/logical_block_provisioning.py
@@ -23,7 +23,7 @@ class LogicalBlockProvisioningVPDPageBuffer(Buffer):
     # reserved
     provisioning_group_descriptor = buffer_field(where=bytes_ref[8:], type=DesignatorDescriptor,
                                                  unpack_selector=determine_designator,
-                                                 unpack_if=input_buffer_length>8)
+                                                 unpack_if=(input_buffer_length > 8) * (page_length != 4))
 
 
 class LogicalBlockProvisioningPageCommand(EVPDInquiryCommand):
-- 
2.43.0


From 22e225022aaaed562521a34b441deef3c958c94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:31 +0000
Subject: [PATCH 46/58] fix: more than 64 overlapped commands can be waited for

---
 src/infi/asi/win32.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/infi/asi/win32.py b/src/infi/asi/win32.py
index b8a6dd0..3e4949d 100755
--- a/src/infi/asi/win32.py
+++ b/src/infi/asi/win32.py
@@ -171,8 +171,11 @@ class Win32AsyncFile(OSAsyncFile, Win32File):
         elif not api_result:
             raise AsiWin32OSError(GetLastError(), "DeviceIoControl %d for path %s failed" % (control_code, self.path))
 
+MAXIMUM_WAIT_OBJECTS = 64
+
 def WaitForMultipleObjects(events):
     from struct import pack
+    events = events[:MAXIMUM_WAIT_OBJECTS]  # the system call refuses more, the others get their turn as these complete
     event_array = pack("{}P".format(len(events)), *events)
     result = kernel32.WaitForMultipleObjects(len(events), byref(c_buffer(event_array)), False, DEFAULT_TIMEOUT)
     if result < 0 or result >= 128:
-- 
2.43.0


From f23c01174419f4ce043fdfa98421ce25eabf0c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:23 +0000
Subject: [PATCH 47/58] fix: T10 vendor identification designator's computed
 length counts the vendor identification

---
 src/infi/asi/cdb/inquiry/vpd_pages/designators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
index b80a912..9e6a285 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
@@ -106,7 +106,7 @@ class VendorSpecificDesignator(DesignatorDescriptor):
 
 
 class T10VendorIDDesignator(DesignatorDescriptor):
-    designator_length = be_uint_field(where=bytes_ref[3], set_before_pack=len_ref(self_ref.vendor_specific_identifier))
+    designator_length = be_uint_field(where=bytes_ref[3], set_before_pack=len_ref(self_ref.vendor_specific_identifier) + 8)
     t10_vendor_identification = str_field(where=bytes_ref[4:12])
     vendor_specific_identifier = bytearray_field(where=bytes_ref[12:4+designator_length])
 
-- 
2.43.0


From ef847c7c2621790084ebd65bda19e82b335e708e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:47 +0000
Subject: [PATCH 48/58] fix: a logical block provisioning page without a group
 descriptor can be packed

---
 .../cdb/inquiry/vpd_pages/logical_block_provisioning.py   | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/logical_block_provisioning.py b/src/infi/asi/cdb/inquiry/vpd_pages/logical_block_provisioning.py
index 6bc74ad..6f321c6 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/logical_block_provisioning.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/logical_block_provisioning.py
@@ -1,6 +1,6 @@
 from infi.asi.cdb.inquiry import PeripheralDeviceDataBuffer
 from infi.asi.cdb.inquiry.vpd_pages import EVPDInquiryCommand
-from infi.instruct.buffer import Buffer, bytes_ref, buffer_field, be_uint_field, input_buffer_length
+from infi.instruct.buffer import Buffer, bytes_ref, buffer_field, be_uint_field, input_buffer_length, self_ref
 from .designators import DesignatorDescriptor, determine_designator
 
 
@@ -23,7 +23,11 @@ class LogicalBlockProvisioningVPDPageBuffer(Buffer):
     # reserved
     provisioning_group_descriptor = buffer_field(where=bytes_ref[8:], type=DesignatorDescriptor,
                                                  unpack_selector=determine_designator,
-                                                 unpack_if=(input_buffer_length > 8) * (page_length != 4))
+                                                 unpack_if=(input_buffer_length > 8) * (page_length != 4),
+                                                 pack_if=self_ref._has_provisioning_group_descriptor())
+
+    def _has_provisioning_group_descriptor(self):
+        return self.provisioning_group_descriptor is not None
 
 
 class LogicalBlockProvisioningPageCommand(EVPDInquiryCommand):
-- 
2.43.0


From fc213e4842e128f25f9eaa7a4ed85372c7b44c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:02 +0000
Subject: [PATCH 49/58] fix: standard INQUIRY data with a short vendor specific
 part can be packed

---
 src/infi/asi/cdb/inquiry/standard.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/infi/asi/cdb/inquiry/standard.py b/src/infi/asi/cdb/inquiry/standard.py
index f2a450a..5764d55 100644
--- a/src/infi/asi/cdb/inquiry/standard.py
+++ b/src/infi/asi/cdb/inquiry/standard.py
@@ -12,23 +12,33 @@ class StandardInquiryExtendedDataBuffer(Buffer):
                                         where_when_pack=bytes_ref[0:])
     # SPC-5 specific
     ius = uint_field(where=bytes_ref[20].bits[0],
-                     unpack_if=input_buffer_length >= 21)
+                     unpack_if=input_buffer_length >= 21,
+                     pack_if=self_ref._has_spc5_data())
     # SPC-5 specific
     qas = uint_field(where=bytes_ref[20].bits[1],
-                     unpack_if=input_buffer_length >= 21)
+                     unpack_if=input_buffer_length >= 21,
+                     pack_if=self_ref._has_spc5_data())
     # SPC-5 specific
     clocking = uint_field(where=bytes_ref[20].bits[2:4],
-                          unpack_if=input_buffer_length >= 21)
+                          unpack_if=input_buffer_length >= 21,
+                          pack_if=self_ref._has_spc5_data())
     # bytes_ref[20].bits[4:8] - reserved
     # bytes_ref[21] - reserved
     version_descriptors = list_field(type=b_uint16,
                                      where=bytes_ref[22:],
                                      n=min_ref((input_buffer_length - 22) // 2, 8),  # / 2 because sizeof(uint16) == 2
-                                     unpack_if=input_buffer_length >= 24)
+                                     unpack_if=input_buffer_length >= 24,
+                                     pack_if=self_ref._has_version_descriptors())
     # bytes_ref[38:60] - reserved
     vendor_specific_2 = bytearray_field(where=bytes_ref[60:], unpack_if=input_buffer_length >= 61,
                                         pack_if=self_ref._has_vendor_specific_2_data())
 
+    def _has_spc5_data(self):
+        return self.ius is not None
+
+    def _has_version_descriptors(self):
+        return self.version_descriptors is not None
+
     def _has_vendor_specific_2_data(self):
         return self.vendor_specific_2 is not None
 
-- 
2.43.0


From 852d059218de1fcfdd549aaa20b4f602b808a9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:18 +0000
Subject: [PATCH 50/58] fix: the information sense descriptor's default
 information is bytes

---
 src/infi/asi/sense/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/sense/__init__.py b/src/infi/asi/sense/__init__.py
index 93e1cad..99e0841 100644
--- a/src/infi/asi/sense/__init__.py
+++ b/src/infi/asi/sense/__init__.py
@@ -38,7 +38,7 @@ class SCSISenseDataDescriptorInformation(Struct):
             BitFlag("valid", default=1),
             ),
         BytePadding(1),
-        FixedSizeBuffer("information", 8, default='\x00' * 8)
+        FixedSizeBuffer("information", 8, default=b'\x00' * 8)
     ]
 
 SENSE_DESCIPTOR_TYPES = {
-- 
2.43.0


From a818207605c4ede95aeac03e752ee34edc08bef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:32 +0000
Subject: [PATCH 51/58] fix: type descriptor texts are packed as their bytes

---
 src/infi/asi/cdb/diagnostic/ses_pages/configuration.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py b/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py
index 43a1665..34a8b41 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py
@@ -83,6 +83,13 @@ class TypeDescriptorHeader(Buffer):
     type_descriptor_text_length = be_uint_field(where=bytes_ref[3])
 
 
+def _pack_type_descriptor_text(value, **kwargs):
+    # unpacking gives the bytes of the text, which str_type would pack as their representation
+    if isinstance(value, (bytes, bytearray)):
+        return bytearray(value)
+    return str_type[0](value, **kwargs)
+
+
 class ConfigurationDiagnosticPagesData(DiagnosticDataBuffer):
     def _calc_num_type_descriptor_headers(self):
         return sum(desc.type_descriptor_headers_num for desc in self.enclosure_descriptor_list)
@@ -102,7 +109,7 @@ class ConfigurationDiagnosticPagesData(DiagnosticDataBuffer):
                                              type=TypeDescriptorHeader,
                                              n=member_func_ref(_calc_num_type_descriptor_headers))
     type_descriptor_text_list = list_field(where=bytes_ref[after_ref(type_descriptor_header_list):],
-                                           type=str_type,
+                                           type=(_pack_type_descriptor_text, str_type[1]),
                                            unpack_selector=_unpack_type_descriptor_text,
                                            n=member_func_ref(_calc_num_type_descriptor_headers))
 
-- 
2.43.0


From 84b4767c48a6fc5b59a172e9bd2f7dfe36c1e4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:53 +0000
Subject: [PATCH 52/58] fix: setting a command's control byte no longer changes
 the default of every other command

---
 src/infi/asi/cdb/control.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/infi/asi/cdb/control.py b/src/infi/asi/cdb/control.py
index 96b3667..9787f29 100644
--- a/src/infi/asi/cdb/control.py
+++ b/src/infi/asi/cdb/control.py
@@ -11,6 +11,10 @@ class Control(Struct):
         BitField("vendor_specific", 2),  # 6-7: vendor specific
     )
 
+    def copy(self):
+        # every command that takes a Control as its default value gets one of its own
+        return type(self)(vendor_specific=self.vendor_specific, naca=self.naca)
+
 DEFAULT_CONTROL = Control(vendor_specific=0, naca=0)
 
 
-- 
2.43.0


From dbe3cdef7963817e17c4aa070e6cfa6d569801d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:05 +0000
Subject: [PATCH 53/58] fix: changing one RESERVE, RELEASE, LOG SENSE, RECEIVE
 DIAGNOSTIC or PERSISTENT RESERVE command's control byte no longer changes the
 others'

---
 src/infi/asi/cdb/__init__.py            | 9 +++++++++
 src/infi/asi/cdb/control.py             | 4 ++++
 src/infi/asi/cdb/diagnostic/__init__.py | 4 ++--
 src/infi/asi/cdb/log_sense.py           | 4 ++--
 src/infi/asi/cdb/persist/input.py       | 4 ++--
 src/infi/asi/cdb/persist/output.py      | 4 ++--
 6 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/infi/asi/cdb/__init__.py b/src/infi/asi/cdb/__init__.py
index aff5064..c4d0aa6 100644
--- a/src/infi/asi/cdb/__init__.py
+++ b/src/infi/asi/cdb/__init__.py
@@ -1,3 +1,5 @@
+from copy import copy
+
 from infi.instruct import *
 from infi.instruct.buffer import Buffer
 
@@ -13,6 +15,13 @@ class CDB(Struct):
 
 
 class CDBBuffer(Buffer):
+    def __init__(self, **kwargs):
+        super(CDBBuffer, self).__init__(**kwargs)
+        # a default value that can be changed belongs to one command, not to all the commands of its type
+        for field in self._all_fields():
+            if isinstance(field.default, Buffer) and getattr(self, field.attr_name()) is field.default:
+                setattr(self, field.attr_name(), copy(field.default))
+
     def create_datagram(self):
         return self.pack()
 
diff --git a/src/infi/asi/cdb/control.py b/src/infi/asi/cdb/control.py
index 9787f29..079706f 100644
--- a/src/infi/asi/cdb/control.py
+++ b/src/infi/asi/cdb/control.py
@@ -23,3 +23,7 @@ class ControlBuffer(Buffer):
     vendor_specific = be_int_field(where=bytes_ref[0].bits[6:8])
 
 DEFAULT_CONTROL_BUFFER = ControlBuffer(vendor_specific=0, naca=0)
+
+
+def get_default_control_buffer(command):
+    return ControlBuffer(vendor_specific=DEFAULT_CONTROL_BUFFER.vendor_specific, naca=DEFAULT_CONTROL_BUFFER.naca)
diff --git a/src/infi/asi/cdb/diagnostic/__init__.py b/src/infi/asi/cdb/diagnostic/__init__.py
index c9f59ec..12a90a3 100644
--- a/src/infi/asi/cdb/diagnostic/__init__.py
+++ b/src/infi/asi/cdb/diagnostic/__init__.py
@@ -1,6 +1,6 @@
 from .. import CDBBuffer
 from ... import SCSIReadCommand
-from ..control import DEFAULT_CONTROL_BUFFER, ControlBuffer
+from ..control import get_default_control_buffer, ControlBuffer
 from infi.instruct.buffer import bytes_ref, be_int_field, buffer_field, be_uint_field
 from ..operation_code import CDB_RECEIVE_DIAGNOSTIC_RESULTS
 
@@ -11,7 +11,7 @@ class ReceiveDiagnosticResultCommand(CDBBuffer):
     pcv = be_int_field(where=bytes_ref[1].bits[0])
     page_code = be_uint_field(where=bytes_ref[2])
     allocation_length = be_int_field(where=bytes_ref[3:5], sign='unsigned')
-    control = buffer_field(type=ControlBuffer, where=bytes_ref[5], set_before_pack=DEFAULT_CONTROL_BUFFER)
+    control = buffer_field(type=ControlBuffer, where=bytes_ref[5], set_before_pack=get_default_control_buffer)
 
     def __init__(self, result_class, conf_page, *args, **kwargs):
         super(ReceiveDiagnosticResultCommand, self).__init__(*args, **kwargs)
diff --git a/src/infi/asi/cdb/log_sense.py b/src/infi/asi/cdb/log_sense.py
index de3ca01..3afc0e7 100644
--- a/src/infi/asi/cdb/log_sense.py
+++ b/src/infi/asi/cdb/log_sense.py
@@ -1,6 +1,6 @@
 from infi.asi.cdb import CDBBuffer
 from infi.asi import SCSIReadCommand
-from infi.asi.cdb.control import ControlBuffer, DEFAULT_CONTROL_BUFFER
+from infi.asi.cdb.control import ControlBuffer, get_default_control_buffer
 from infi.instruct.buffer import *
 from infi.instruct.buffer.macros import *
 
@@ -13,7 +13,7 @@ class LogSenseCommand(CDBBuffer):
     subpage_code = be_uint_field(where=bytes_ref[3])
     parameter_pointer = be_uint_field(where=bytes_ref[5:7])
     allocation_length = be_uint_field(where=bytes_ref[7:9])
-    control = buffer_field(type=ControlBuffer, where=bytes_ref[9], set_before_pack=DEFAULT_CONTROL_BUFFER)
+    control = buffer_field(type=ControlBuffer, where=bytes_ref[9], set_before_pack=get_default_control_buffer)
 
     def __init__(self, page_code, subpage_code=0, allocation_length=396):
         super(LogSenseCommand, self).__init__()
diff --git a/src/infi/asi/cdb/persist/input.py b/src/infi/asi/cdb/persist/input.py
index 61ceee4..08f6e0c 100644
--- a/src/infi/asi/cdb/persist/input.py
+++ b/src/infi/asi/cdb/persist/input.py
@@ -1,7 +1,7 @@
 from .transport import TransportId
 from infi.asi.cdb import CDBBuffer
 from infi.asi import SCSIReadCommand
-from infi.asi.cdb.control import DEFAULT_CONTROL_BUFFER, ControlBuffer
+from infi.asi.cdb.control import get_default_control_buffer, ControlBuffer
 from infi.instruct.buffer import *
 # TODO relaative imports
 
@@ -128,7 +128,7 @@ class PersistentReserveInCommand(CDBBuffer):
     operation_code = be_uint_field(where=bytes_ref[0], set_before_pack=CDB_OPCODE_PERSISTENT_RESERVE_IN)
     service_action = be_uint_field(where=bytes_ref[1].bits[0:5])
     allocation_length = be_uint_field(where=bytes_ref[7:9])
-    control = buffer_field(type=ControlBuffer, where=bytes_ref[9], set_before_pack=DEFAULT_CONTROL_BUFFER)
+    control = buffer_field(type=ControlBuffer, where=bytes_ref[9], set_before_pack=get_default_control_buffer)
 
     def __init__(self, service_action, allocation_length=520, **kwargs):
         super(PersistentReserveInCommand, self).__init__(
diff --git a/src/infi/asi/cdb/persist/output.py b/src/infi/asi/cdb/persist/output.py
index c41d16c..6dcc9ff 100644
--- a/src/infi/asi/cdb/persist/output.py
+++ b/src/infi/asi/cdb/persist/output.py
@@ -1,7 +1,7 @@
 from .transport import TransportId
 from infi.asi import SCSIWriteCommand
 from infi.asi.cdb import CDBBuffer
-from infi.asi.cdb.control import DEFAULT_CONTROL_BUFFER, ControlBuffer
+from infi.asi.cdb.control import get_default_control_buffer, ControlBuffer
 from infi.instruct.buffer import *
 from infi.instruct.buffer.macros import *
 
@@ -80,7 +80,7 @@ class PersistentReserveOutCommand(CDBBuffer):
     pr_type = be_uint_field(where=bytes_ref[2].bits[0:4])
     scope = be_uint_field(where=bytes_ref[3].bits[4:8], set_before_pack=0)
     parameter_list_length = be_uint_field(where=bytes_ref[5:9])
-    control = buffer_field(type=ControlBuffer, where=bytes_ref[9], set_before_pack=DEFAULT_CONTROL_BUFFER)
+    control = buffer_field(type=ControlBuffer, where=bytes_ref[9], set_before_pack=get_default_control_buffer)
 
     def __init__(self, service_action, reservation_key=0, service_action_reservation_key=0,
                  pr_type=PERSISTENT_RESERVE_OUT_TYPES.WRITE_EXCLUSIVE, **kwargs):
-- 
2.43.0


From ee93437ada224197e5444711822fe28255ced2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:47 +0000
Subject: [PATCH 54/58] fix: a designator which the reply does not hold
 entirely is refused rather than decoded to a wrong identifier

---
 src/infi/asi/cdb/inquiry/vpd_pages/designators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
index 9e6a285..4f977b7 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
@@ -152,8 +152,11 @@ def _determine_naa_designator(buffer):
 
 def determine_designator(instance, buffer, *args, **kwargs):
     header = DesignatorDescriptor()
-    header.unpack(buffer.to_bytes())
+    data = buffer.to_bytes()
+    header.unpack(data)
     try:
+        if len(data) < DesignatorDescriptor.byte_size + header.designator_length:
+            raise InstructError("truncated designator: %r" % header)
         if header.designator_type in SINGLE_TYPE_DESIGNATORS:
             return SINGLE_TYPE_DESIGNATORS[header.designator_type]
         if header.designator_type == 0x02:
-- 
2.43.0


From e2d012c4a81b8e610d3d7bd329d8dc788ef9d8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:13 +0000
Subject: [PATCH 55/58] fix: the Solaris and AIX executers answer every queued
 command with its own response, not only packet 0

---
 src/infi/asi/aix.py     | 10 ++++++----
 src/infi/asi/solaris.py | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/infi/asi/aix.py b/src/infi/asi/aix.py
index b5cfdf4..ebf2e23 100644
--- a/src/infi/asi/aix.py
+++ b/src/infi/asi/aix.py
@@ -313,6 +313,7 @@ class sc_passthru(Structure):
         memset(buf, 0, sizeof(sc_passthru))
         scsicmd = sc_passthru.from_buffer(buf)
         scsicmd.source_buffer = buf
+        scsicmd.packet_id = pack_id
         scsicmd.version = SCSI_VERSION_2
         scsicmd.init_sense_buffer()
         scsicmd.init_command_buffer(command.command)
@@ -373,6 +374,7 @@ class AixCommandExecuter(CommandExecuterBase):
         super(AixCommandExecuter, self).__init__(max_queue_size)
         self.io = io
         self.timeout = timeout
+        self.incoming_packets = []
 
     def _os_prepare_to_send(self, command, packet_index):
         return sc_passthru.create(packet_index, self.io, command, self.timeout)
@@ -389,12 +391,12 @@ class AixCommandExecuter(CommandExecuterBase):
                 # no valid status to parse in _handle_raw_response
                 raise AsiOSError("ioctl failed, no valid status")
         self.buffer = os_data.to_raw()
+        self.incoming_packets.append((self.buffer, os_data.packet_id))
         yield len(self.buffer)
 
-    def _handle_raw_response(self, raw):
+    def _handle_raw_response(self, raw, packet_id):
         response_cmd = sc_passthru.from_string(raw)
 
-        packet_id = 0
         request_cmd = self._get_os_data(packet_id)
 
         if response_cmd.status_validity != 0:
@@ -415,5 +417,5 @@ class AixCommandExecuter(CommandExecuterBase):
         return (data, packet_id)
 
     def _os_receive(self):
-        raw = yield self.buffer
-        yield self._handle_raw_response(raw)
+        raw, packet_id = self.incoming_packets.pop(0)
+        yield self._handle_raw_response(raw, packet_id)
diff --git a/src/infi/asi/solaris.py b/src/infi/asi/solaris.py
index e6b9bdc..1793750 100644
--- a/src/infi/asi/solaris.py
+++ b/src/infi/asi/solaris.py
@@ -155,6 +155,7 @@ class SCSICMD(Structure):
         memset(buf, 0, sizeof(SCSICMD))
         scsicmd = SCSICMD.from_buffer(buf)
         scsicmd.source_buffer = buf
+        scsicmd.packet_id = pack_id
         scsicmd.init_sense_buffer()
         scsicmd.init_command_buffer(command.command)
         scsicmd.uscsi_timeout = timeout
@@ -189,6 +190,7 @@ class SolarisCommandExecuter(CommandExecuterBase):
         super(SolarisCommandExecuter, self).__init__(max_queue_size)
         self.io = io
         self.timeout = timeout
+        self.incoming_packets = []
 
     def _os_prepare_to_send(self, command, packet_index):
         return SCSICMD.create(packet_index, command, self.timeout)
@@ -202,12 +204,12 @@ class SolarisCommandExecuter(CommandExecuterBase):
         buffer_ctypes_string = create_string_buffer(self.buffer)
         gevent_friendly(ioctl)(self.io.fd, USCSICMD, buffer_ctypes_string)
         self.buffer = buffer_ctypes_string.raw
+        self.incoming_packets.append((self.buffer, os_data.packet_id))
         yield len(self.buffer)
 
-    def _handle_raw_response(self, raw):
+    def _handle_raw_response(self, raw, packet_id):
         response_cmd = SCSICMD.from_string(raw)
 
-        packet_id = 0
         request_cmd = self._get_os_data(packet_id)
         response_status_code = response_cmd.uscsi_status & 0xFF
         response_reason_code = (response_cmd.uscsi_status >> 8) & 0xFF
@@ -232,5 +234,5 @@ class SolarisCommandExecuter(CommandExecuterBase):
         return (data, packet_id)
 
     def _os_receive(self):
-        raw = yield self.buffer
-        yield self._handle_raw_response(raw)
+        raw, packet_id = self.incoming_packets.pop(0)
+        yield self._handle_raw_response(raw, packet_id)
-- 
2.43.0


From 4c6b5155d354be1dd4a55dbe5a0e8b0e7abb38b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:13 +0000
Subject: [PATCH 56/58] fix: the Linux ioctl executer keeps the response of
 every queued command instead of only the last one

---
 src/infi/asi/linux.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index 8e12590..e2d30b0 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -281,13 +281,15 @@ class LinuxIoctlCommandExecuter(LinuxCommandExecuter):
         super(LinuxIoctlCommandExecuter, self).__init__(io, max_queue_size, timeout)
         self.io = io
         self.timeout = timeout
+        self.incoming_packets = []
 
     def _os_send(self, os_data):
         from fcntl import ioctl
         self.buffer = os_data.to_raw()
         self.buffer = gevent_friendly(ioctl)(self.io.fd, SG_IO, self.buffer)
+        self.incoming_packets.append(self.buffer)
         yield len(self.buffer)
 
     def _os_receive(self):
-        raw = yield self.buffer
+        raw = self.incoming_packets.pop(0)
         yield self._handle_raw_response(raw)
-- 
2.43.0


From 066ba5f2135eb4adbabe1b80f5955153e01dc546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:44 +0000
Subject: [PATCH 57/58] fix: the error of a failed driver status shows the
 driver and host status, not the SCSI and driver status under their names

---
 src/infi/asi/linux.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index e2d30b0..dc16587 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -251,8 +251,8 @@ class LinuxCommandExecuter(CommandExecuterBase):
 
         if (response_sgio.driver_status & 0x0F) != 0:
             error = AsiSCSIError("SCSI driver response status is not zero: %s (host status: %s)" %
-                                (prettify_status(response_sgio.status, SCSI_STATUS_CODES),
-                                 prettify_status(response_sgio.driver_status & 0x0f, DRIVER_STATUS_CODES)))
+                                (prettify_status(response_sgio.driver_status & 0x0f, DRIVER_STATUS_CODES),
+                                 prettify_status(response_sgio.host_status, HOST_STATUS_CODES)))
             return (error, packet_id)
 
         if response_sgio.host_status != 0:
-- 
2.43.0


From 71d9f314012eb68bddc641a0670e7238a82da4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:36 +0000
Subject: [PATCH 58/58] fix: wait for device files whose descriptor is 1024 or
 above

---
 src/infi/asi/unix.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/unix.py b/src/infi/asi/unix.py
index 819cd25..4d8d1fd 100644
--- a/src/infi/asi/unix.py
+++ b/src/infi/asi/unix.py
@@ -15,8 +15,12 @@ class UnixFile(OSFile):
     def read(self, size):
         start_time = time.time()
 
+        # unlike select.select, a poll object takes file descriptors of 1024 and above:
+        poll = select.poll()
+        poll.register(self.fd, select.POLLIN)
+
         # A time-out value of zero specifies a poll and never blocks:
-        while not select.select([self.fd], [], [], 0)[0]:
+        while not poll.poll(0):
             time.sleep(0.01)
             if time.time() > start_time + self._read_timeout:
                 raise IOError("Timeout while waiting for file descriptor to become readable")
-- 
2.43.0

