From cded505a36133c405e6cd682ea1f7a71ec7b847a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 01/61] fix: keep the TH bit when copying and comparing TLPs

---
 cocotbext/pcie/core/tlp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cocotbext/pcie/core/tlp.py b/cocotbext/pcie/core/tlp.py
index f5cd6ff..c668006 100644
--- a/cocotbext/pcie/core/tlp.py
+++ b/cocotbext/pcie/core/tlp.py
@@ -219,6 +219,7 @@ class Tlp:
             self.type = tlp.type
             self.tc = tlp.tc
             self.ln = tlp.ln
+            self.th = tlp.th
             self.td = tlp.td
             self.ep = tlp.ep
             self.attr = tlp.attr
@@ -620,6 +621,7 @@ class Tlp:
                 self.type == other.type and
                 self.tc == other.tc and
                 self.ln == other.ln and
+                self.th == other.th and
                 self.td == other.td and
                 self.ep == other.ep and
                 self.attr == other.attr and
-- 
2.43.0


From 98a3e8f9b5a34c8c6da07b349bbba43ac1be36a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:21 +0000
Subject: [PATCH 02/61] fix: wait for functions other than 0 that answer
 enumeration with CRS

---
 cocotbext/pcie/core/pci.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cocotbext/pcie/core/pci.py b/cocotbext/pcie/core/pci.py
index dd9ccc0..ed34fa9 100644
--- a/cocotbext/pcie/core/pci.py
+++ b/cocotbext/pcie/core/pci.py
@@ -174,6 +174,11 @@ class PciBus:
                 # read vendor ID and device ID
                 val = await self.rc.config_read_dword(dev_id, 0x000, 'little', timeout, timeout_unit)
 
+                if val == 0xffff0001:
+                    if not await self.wait_crs(dev_id, timeout, timeout_unit):
+                        continue
+                    val = await self.rc.config_read_dword(dev_id, 0x000, 'little', timeout, timeout_unit)
+
                 if val is None or val == 0xffffffff:
                     continue
 
-- 
2.43.0


From b581b7982b4192a3d813d26715e52d22c83808de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 03/61] fix: enumerating again replaces the device tree instead
 of duplicating it

---
 cocotbext/pcie/core/pci.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cocotbext/pcie/core/pci.py b/cocotbext/pcie/core/pci.py
index ed34fa9..a86e6be 100644
--- a/cocotbext/pcie/core/pci.py
+++ b/cocotbext/pcie/core/pci.py
@@ -61,6 +61,8 @@ class PciHostBridge:
         await self.assign_resources()
 
     async def scan(self, timeout=1000, timeout_unit='ns'):
+        # start over with an empty tree, the hierarchy may have been enumerated before
+        self.bus = PciBus(None, self, self.bus_num, rc=self.rc)
         last_bus = await self.bus.scan(timeout=timeout, timeout_unit=timeout_unit)
         self.bus.last_bus_num = last_bus
 
-- 
2.43.0


From 2d80b206684416781087587f6c32d2d908ab8d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 04/61] fix: lower the payload size of all functions below a
 root port that is lowered

---
 cocotbext/pcie/core/pci.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cocotbext/pcie/core/pci.py b/cocotbext/pcie/core/pci.py
index a86e6be..fa9ed24 100644
--- a/cocotbext/pcie/core/pci.py
+++ b/cocotbext/pcie/core/pci.py
@@ -757,6 +757,11 @@ class PciDevice:
                 self.pcie_id, 128 << self.pcie_mpss, 128 << parent_mps, 128 << bridge.pcie_mpss)
             parent_mps = await bridge.get_mps()
 
+            # other functions of the same device were configured for the old setting
+            for dev in self.bus.devices:
+                if dev is not self and dev.is_pcie() and await dev.get_mps() > parent_mps:
+                    await dev.set_mps(parent_mps)
+
         await self.set_mps(min(parent_mps, self.pcie_mpss))
 
         self.rc.log.info("pci %s: Max Payload Size set to %d (was %d, max %d)",
-- 
2.43.0


From c01982eb2f3f1c7584755526e620cf4311f81be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 05/61] fix: await set_master when enabling a bridge that is
 already enabled

---
 cocotbext/pcie/core/pci.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/pci.py b/cocotbext/pcie/core/pci.py
index fa9ed24..6c37458 100644
--- a/cocotbext/pcie/core/pci.py
+++ b/cocotbext/pcie/core/pci.py
@@ -550,7 +550,7 @@ class PciDevice:
 
         if self.is_enabled():
             if not self.is_busmaster:
-                self.set_master()
+                await self.set_master()
             return
 
         await self.enable_device()
-- 
2.43.0


From 805a747041ce5c7534add3f5968ba73fa3f6d412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 06/61] fix: restore the upper half of 64-bit BARs after
 probing from the right register

---
 cocotbext/pcie/core/pci.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/pci.py b/cocotbext/pcie/core/pci.py
index 6c37458..a1c4f42 100644
--- a/cocotbext/pcie/core/pci.py
+++ b/cocotbext/pcie/core/pci.py
@@ -1113,7 +1113,7 @@ class PciDevice:
                     raise Exception("Invalid BAR configuration")
 
                 # read adjacent BAR
-                orig_bar2 = await self.config_read_dword(0x010+bar*4)
+                orig_bar2 = await self.config_read_dword(0x010+(bar+1)*4)
                 await self.config_write_dword(0x010+(bar+1)*4, 0xffffffff)
                 val2 = await self.config_read_dword(0x010+(bar+1)*4)
                 await self.config_write_dword(0x010+(bar+1)*4, orig_bar2)
-- 
2.43.0


From 9ac02a30a24984a72e400451786c4729ce3eaa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:18 +0000
Subject: [PATCH 07/61] fix: align the base of a bridge window before
 allocating below the bridge

---
 cocotbext/pcie/core/pci.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cocotbext/pcie/core/pci.py b/cocotbext/pcie/core/pci.py
index a1c4f42..2e22763 100644
--- a/cocotbext/pcie/core/pci.py
+++ b/cocotbext/pcie/core/pci.py
@@ -241,6 +241,11 @@ class PciBus:
             await dev.assign_resources()
 
             if dev.subordinate:
+                # align bases against bridge registers
+                self.bridge.io_limit = align(self.bridge.io_limit, 0xfff)
+                self.bridge.mem_limit = align(self.bridge.mem_limit, 0xfffff)
+                self.bridge.prefetchable_mem_limit = align(self.bridge.prefetchable_mem_limit, 0xfffff)
+
                 dev.io_base = self.bridge.io_limit
                 dev.io_limit = dev.io_base
                 dev.mem_base = self.bridge.mem_limit
-- 
2.43.0


From 5e3e510993bdc94589a005fd3ef373c7f3b7a4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 08/61] fix: lower address of completions for zero-length reads

---
 cocotbext/pcie/core/tlp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/core/tlp.py b/cocotbext/pcie/core/tlp.py
index c668006..ff24e08 100644
--- a/cocotbext/pcie/core/tlp.py
+++ b/cocotbext/pcie/core/tlp.py
@@ -384,7 +384,10 @@ class Tlp:
 
     def get_first_be_offset(self):
         """Offset to first transferred byte from first byte enable"""
-        if self.first_be & 0x7 == 0:
+        if self.first_be & 0xf == 0:
+            # zero length request
+            return 0
+        elif self.first_be & 0x7 == 0:
             return 3
         elif self.first_be & 0x3 == 0:
             return 2
@@ -399,7 +402,7 @@ class Tlp:
             be = self.first_be
         else:
             be = self.last_be
-        if be & 0xf == 0x1:
+        if be & 0xe == 0:
             return 3
         elif be & 0xe == 0x2:
             return 2
-- 
2.43.0


From 037ba6c09841e1659b75b104fe19b3752e89b68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 09/61] fix: operator precedence in Tlp.get_lower_address

---
 cocotbext/pcie/core/tlp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/tlp.py b/cocotbext/pcie/core/tlp.py
index ff24e08..531500d 100644
--- a/cocotbext/pcie/core/tlp.py
+++ b/cocotbext/pcie/core/tlp.py
@@ -417,7 +417,7 @@ class Tlp:
 
     def get_lower_address(self):
         """Compute lower address field from address and first byte enable"""
-        return self.address & 0x7c + self.get_first_be_offset()
+        return (self.address & 0x7c) + self.get_first_be_offset()
 
     def has_data(self):
         """Return true if TLP has payload data"""
-- 
2.43.0


From bf744edc1f1b6f6f31e8c2ad3041cff23e050afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:20 +0000
Subject: [PATCH 10/61] fix: do not claim memory and I/O requests while address
 decoding is disabled

---
 cocotbext/pcie/core/function.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cocotbext/pcie/core/function.py b/cocotbext/pcie/core/function.py
index aa0e251..54e61e7 100644
--- a/cocotbext/pcie/core/function.py
+++ b/cocotbext/pcie/core/function.py
@@ -354,6 +354,10 @@ class Function:
         self.configure_bar(idx, size, io=True)
 
     def match_bar(self, addr, io=False):
+        if not (self.io_space_enable if io else self.memory_space_enable):
+            # address decoding disabled
+            return None
+
         bar = 0
         while bar < len(self.bar):
             bar_val = self.bar[bar]
-- 
2.43.0


From 36c0cf375492c3b7c0cba42d148233dc494afe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:26 +0000
Subject: [PATCH 11/61] fix: drop completions for tags that are not in use

---
 cocotbext/pcie/core/function.py | 5 +++++
 cocotbext/pcie/core/rc.py       | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/cocotbext/pcie/core/function.py b/cocotbext/pcie/core/function.py
index 54e61e7..e20b43c 100644
--- a/cocotbext/pcie/core/function.py
+++ b/cocotbext/pcie/core/function.py
@@ -452,6 +452,11 @@ class Function:
     async def handle_tlp(self, tlp):
         if tlp.fmt_type in {TlpType.CPL, TlpType.CPL_DATA, TlpType.CPL_LOCKED, TlpType.CPL_LOCKED_DATA}:
             # completion
+            if not self.tag_active[tlp.tag]:
+                # no outstanding request (e.g. it timed out)
+                self.log.warning("Unexpected completion: tag not in use: %r", tlp)
+                tlp.release_fc()
+                return
             self.rx_cpl_queues[tlp.tag].put_nowait(tlp)
             self.rx_cpl_sync[tlp.tag].set()
         elif tlp.fmt_type in self.rx_tlp_handler:
diff --git a/cocotbext/pcie/core/rc.py b/cocotbext/pcie/core/rc.py
index 8c905ca..f9dc0aa 100644
--- a/cocotbext/pcie/core/rc.py
+++ b/cocotbext/pcie/core/rc.py
@@ -207,6 +207,11 @@ class RootComplex(Switch):
 
     async def handle_tlp(self, tlp):
         if tlp.fmt_type in {TlpType.CPL, TlpType.CPL_DATA, TlpType.CPL_LOCKED, TlpType.CPL_LOCKED_DATA}:
+            if not self.tag_active[tlp.tag]:
+                # no outstanding request (e.g. it timed out)
+                self.log.warning("Unexpected completion: tag not in use: %r", tlp)
+                tlp.release_fc()
+                return
             self.rx_cpl_queues[tlp.tag].put_nowait(tlp)
             self.rx_cpl_sync[tlp.tag].set()
         elif tlp.fmt_type in self.rx_tlp_handler:
-- 
2.43.0


From fd932e6ba7dc5e7db5c4c48110ac3c30d6781036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:26 +0000
Subject: [PATCH 12/61] fix: limit the payload size of a root port to what it
 supports

---
 cocotbext/pcie/core/pci.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/pci.py b/cocotbext/pcie/core/pci.py
index 2e22763..7daca81 100644
--- a/cocotbext/pcie/core/pci.py
+++ b/cocotbext/pcie/core/pci.py
@@ -741,7 +741,7 @@ class PciDevice:
 
         if self.pcie_type() == 0x4:
             # Root port
-            await self.set_mps(self.bus.bridge.max_payload_size)
+            await self.set_mps(min(self.bus.bridge.max_payload_size, self.pcie_mpss))
             return
 
         bridge = self.upstream_bridge()
-- 
2.43.0


From 124614e4905842bd8c754cfa3fc5668470a136ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:45 +0000
Subject: [PATCH 13/61] fix: BIST register is in the upper byte of its dword

---
 cocotbext/pcie/core/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/function.py b/cocotbext/pcie/core/function.py
index e20b43c..db3cda8 100644
--- a/cocotbext/pcie/core/function.py
+++ b/cocotbext/pcie/core/function.py
@@ -285,7 +285,7 @@ class Function:
             if mask & 1:
                 # Cache line size
                 self.cache_line_size = data & 0xff
-            if mask & 4:
+            if mask & 8:
                 # BIST
                 self.start_bist = bool(data & 1 << 30)
         elif reg == 15:
-- 
2.43.0


From 2d439847c61b2671ef6376b1fceb3fb292bd3eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:45 +0000
Subject: [PATCH 14/61] fix: link capabilities register reported width, ASPM
 and latencies as zero

---
 cocotbext/pcie/core/caps/pcie.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cocotbext/pcie/core/caps/pcie.py b/cocotbext/pcie/core/caps/pcie.py
index 1fb910d..dd9acf3 100644
--- a/cocotbext/pcie/core/caps/pcie.py
+++ b/cocotbext/pcie/core/caps/pcie.py
@@ -295,10 +295,10 @@ class PcieCapability(PciCap):
         elif reg == 3:
             # Link capabilities
             val = self.max_link_speed & 0xf
-            val |= (self.max_link_width & 0x3f) >> 4
-            val |= (self.aspm_support & 0x3) >> 10
-            val |= (self.l0s_exit_latency & 0x7) >> 12
-            val |= (self.l1_exit_latency & 0x7) >> 15
+            val |= (self.max_link_width & 0x3f) << 4
+            val |= (self.aspm_support & 0x3) << 10
+            val |= (self.l0s_exit_latency & 0x7) << 12
+            val |= (self.l1_exit_latency & 0x7) << 15
             val |= bool(self.clock_power_management) << 18
             val |= bool(self.surprise_down_error_reporting_capability) << 19
             val |= bool(self.data_link_layer_link_active_reporting_capable) << 20
-- 
2.43.0


From 3cf19d59e3828b801838aebb46e946d24a5e4a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:45 +0000
Subject: [PATCH 15/61] fix: data link layer state changed is in the upper byte
 of slot status

---
 cocotbext/pcie/core/caps/pcie.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cocotbext/pcie/core/caps/pcie.py b/cocotbext/pcie/core/caps/pcie.py
index dd9acf3..34cf531 100644
--- a/cocotbext/pcie/core/caps/pcie.py
+++ b/cocotbext/pcie/core/caps/pcie.py
@@ -535,6 +535,7 @@ class PcieCapability(PciCap):
                     self.presence_detect_changed = False
                 if data & 1 << 20:
                     self.command_completed = False
+            if mask & 0x8:
                 if data & 1 << 24:
                     self.data_link_layer_state_changed = False
         elif reg == 7:
-- 
2.43.0


From 963484f44fa1d0f9d24269d7ab30411925810f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:45 +0000
Subject: [PATCH 16/61] fix: link equalization request is write one to clear
 and drs message received is in the upper byte

---
 cocotbext/pcie/core/caps/pcie.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/caps/pcie.py b/cocotbext/pcie/core/caps/pcie.py
index 34cf531..af9f7ad 100644
--- a/cocotbext/pcie/core/caps/pcie.py
+++ b/cocotbext/pcie/core/caps/pcie.py
@@ -582,7 +582,9 @@ class PcieCapability(PciCap):
                 self.compliance_preset_deemphasis = (data >> 12) & 0xff
             # Link status 2
             if mask & 0x4:
-                self.link_equalization_8gt_request = bool(data & 1 << 21)
+                if data & 1 << 21:
+                    self.link_equalization_8gt_request = False
+            if mask & 0x8:
                 if data & 1 << 31:
                     self.drs_message_received = False
 
-- 
2.43.0


From 52e2c821a5c743d670b07c07f839f43ce160c0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:45 +0000
Subject: [PATCH 17/61] fix: lane equalization control registers were shifted
 by one dword

---
 cocotbext/pcie/core/caps/pcie.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/cocotbext/pcie/core/caps/pcie.py b/cocotbext/pcie/core/caps/pcie.py
index af9f7ad..2fa93e6 100644
--- a/cocotbext/pcie/core/caps/pcie.py
+++ b/cocotbext/pcie/core/caps/pcie.py
@@ -639,16 +639,16 @@ class PcieExtendedCapability(PciExtCap):
         elif reg == 2:
             # Lane Error Status
             return self.lane_error_status & 0xffffffff
-        elif reg < 18:
+        elif reg < 19:
             # Lane equalization control
-            val = self.downstream_port_8gt_transmitter_preset[(reg-2)*2] & 0xf
-            val |= (self.downstream_port_8gt_receiver_preset_hint[(reg-2)*2] & 0x7) << 4
-            val |= (self.upstream_port_8gt_transmitter_preset[(reg-2)*2] & 0xf) << 8
-            val |= (self.upstream_port_8gt_receiver_preset_hint[(reg-2)*2] & 0x7) << 12
-            val |= (self.downstream_port_8gt_transmitter_preset[(reg-2)*2+1] & 0xf) << 16
-            val |= (self.downstream_port_8gt_receiver_preset_hint[(reg-2)*2+1] & 0x7) << 20
-            val |= (self.upstream_port_8gt_transmitter_preset[(reg-2)*2+1] & 0xf) << 24
-            val |= (self.upstream_port_8gt_receiver_preset_hint[(reg-2)*2+1] & 0x7) << 28
+            val = self.downstream_port_8gt_transmitter_preset[(reg-3)*2] & 0xf
+            val |= (self.downstream_port_8gt_receiver_preset_hint[(reg-3)*2] & 0x7) << 4
+            val |= (self.upstream_port_8gt_transmitter_preset[(reg-3)*2] & 0xf) << 8
+            val |= (self.upstream_port_8gt_receiver_preset_hint[(reg-3)*2] & 0x7) << 12
+            val |= (self.downstream_port_8gt_transmitter_preset[(reg-3)*2+1] & 0xf) << 16
+            val |= (self.downstream_port_8gt_receiver_preset_hint[(reg-3)*2+1] & 0x7) << 20
+            val |= (self.upstream_port_8gt_transmitter_preset[(reg-3)*2+1] & 0xf) << 24
+            val |= (self.upstream_port_8gt_receiver_preset_hint[(reg-3)*2+1] & 0x7) << 28
             return val
         else:
             return 0
-- 
2.43.0


From bc4e649a90b94b4cd0bf6a6bf31ce18b5293cb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:45 +0000
Subject: [PATCH 18/61] fix: AER capability did not cover its root error and
 prefix log registers

---
 cocotbext/pcie/core/caps/aer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/caps/aer.py b/cocotbext/pcie/core/caps/aer.py
index 45c99d8..6efa0d0 100644
--- a/cocotbext/pcie/core/caps/aer.py
+++ b/cocotbext/pcie/core/caps/aer.py
@@ -31,7 +31,7 @@ class AerExtendedCapability(PciExtCap):
         super().__init__(*args, **kwargs)
         self.cap_id = PciExtCapId.AER
         self.cap_ver = 2
-        self.length = 11
+        self.length = 18
 
         # Advanced Error Reporting capability registers
         # Uncorrectable error status
-- 
2.43.0


From 8450b4f24a3a5eaac4babec109208c7d771884b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:45 +0000
Subject: [PATCH 19/61] fix: bit order of the AER root error command register

---
 cocotbext/pcie/core/caps/aer.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cocotbext/pcie/core/caps/aer.py b/cocotbext/pcie/core/caps/aer.py
index 6efa0d0..62c400c 100644
--- a/cocotbext/pcie/core/caps/aer.py
+++ b/cocotbext/pcie/core/caps/aer.py
@@ -273,9 +273,9 @@ class AerExtendedCapability(PciExtCap):
             return self.header_log[reg-7] & 0xffffffff
         elif reg == 11:
             # Root error command
-            val = bool(self.fatal_error_reporting_enable)
+            val = bool(self.correctable_error_reporting_enable)
             val |= bool(self.nonfatal_error_reporting_enable) << 1
-            val |= bool(self.correctable_error_reporting_enable) << 2
+            val |= bool(self.fatal_error_reporting_enable) << 2
             return val
         elif reg == 12:
             # Root error status
@@ -428,10 +428,9 @@ class AerExtendedCapability(PciExtCap):
         elif reg == 11:
             # Root error command
             if mask & 0x1:
-                self.fatal_error_reporting_enable = bool(data & 1 << 0)
+                self.correctable_error_reporting_enable = bool(data & 1 << 0)
                 self.nonfatal_error_reporting_enable = bool(data & 1 << 1)
-                self.correctable_error_reporting_enable = bool(data & 1 << 2)
-            pass
+                self.fatal_error_reporting_enable = bool(data & 1 << 2)
         elif reg == 12:
             # Root error status
             if mask & 0x1:
-- 
2.43.0


From 060dee63a687f70bb4805af8a302cbcff9c51db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:45 +0000
Subject: [PATCH 20/61] fix: AER first error pointer is five bits wide

---
 cocotbext/pcie/core/caps/aer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/caps/aer.py b/cocotbext/pcie/core/caps/aer.py
index 62c400c..0d93ad7 100644
--- a/cocotbext/pcie/core/caps/aer.py
+++ b/cocotbext/pcie/core/caps/aer.py
@@ -258,7 +258,7 @@ class AerExtendedCapability(PciExtCap):
             return val
         elif reg == 6:
             # Advanced error capabilities and control
-            val = self.first_error_pointer & 0xf
+            val = self.first_error_pointer & 0x1f
             val |= bool(self.ecrc_generation_capable) << 5
             val |= bool(self.ecrc_generation_enable) << 6
             val |= bool(self.ecrc_check_capable) << 7
-- 
2.43.0


From 6eccf2eb0b9a2b2100c2754403d188dae02bf46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:45 +0000
Subject: [PATCH 21/61] fix: MSI extended message data enable and reads of
 reserved MSI registers

---
 cocotbext/pcie/core/caps/msi.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/caps/msi.py b/cocotbext/pcie/core/caps/msi.py
index ec91226..c34e964 100644
--- a/cocotbext/pcie/core/caps/msi.py
+++ b/cocotbext/pcie/core/caps/msi.py
@@ -135,6 +135,8 @@ class MsiCapability(PciCap):
         elif reg == (5 if self.msi_64bit_address_capable else 4) and self.msi_per_vector_mask_capable:
             # Pending bits
             return self.msi_pending_bits & 0xffffffff
+        else:
+            return 0
 
     async def _write_register(self, reg, data, mask):
         if reg == 0:
@@ -142,8 +144,9 @@ class MsiCapability(PciCap):
             if mask & 0x4:
                 self.msi_enable = bool(data & 1 << 16)
                 self.msi_multiple_message_enable = (data >> 20) & 0x7
+            if mask & 0x8:
                 if self.msi_extended_message_data_capable:
-                    self.msi_extended_message_data_enable = bool(data & 1 << 16)
+                    self.msi_extended_message_data_enable = bool(data & 1 << 26)
         elif reg == 1:
             # Message address
             self.msi_message_address = byte_mask_update(self.msi_message_address, mask, data & 0xfffffffc)
-- 
2.43.0


From 9197955eaf55af63832caa1866c2ac89585831a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:45 +0000
Subject: [PATCH 22/61] fix: expansion ROM enable must read as zero when there
 is no expansion ROM

---
 cocotbext/pcie/core/bridge.py   | 2 +-
 cocotbext/pcie/core/endpoint.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/core/bridge.py b/cocotbext/pcie/core/bridge.py
index 59ba2b1..0f183bf 100644
--- a/cocotbext/pcie/core/bridge.py
+++ b/cocotbext/pcie/core/bridge.py
@@ -262,7 +262,7 @@ class Bridge(Function):
             # Expansion ROM Base Address
             self.expansion_rom_addr = byte_mask_update(self.expansion_rom_addr,
                 mask, data, self.expansion_rom_addr_mask) & 0xfffff800
-            if mask & 0x1:
+            if mask & 0x1 and self.expansion_rom_addr_mask:
                 self.expansion_rom_enable = (data & 1) != 0
         elif reg == 15:
             # Interrupt line
diff --git a/cocotbext/pcie/core/endpoint.py b/cocotbext/pcie/core/endpoint.py
index 995b1de..3a9de87 100644
--- a/cocotbext/pcie/core/endpoint.py
+++ b/cocotbext/pcie/core/endpoint.py
@@ -156,7 +156,7 @@ class Endpoint(Function):
             # Expansion ROM Base Address
             self.expansion_rom_addr = byte_mask_update(self.expansion_rom_addr,
                 mask, data, self.expansion_rom_addr_mask) & 0xfffff800
-            if mask & 0x1:
+            if mask & 0x1 and self.expansion_rom_addr_mask:
                 self.expansion_rom_enable = (data & 1) != 0
         elif reg == 15:
             # Interrupt line
-- 
2.43.0


From 32a538a4dd6275cf807ea349de576d5e788535fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:30 +0000
Subject: [PATCH 23/61] fix: downstream component presence starts at bit 12 of
 link status 2

---
 cocotbext/pcie/core/caps/pcie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/caps/pcie.py b/cocotbext/pcie/core/caps/pcie.py
index 2fa93e6..02d3dd3 100644
--- a/cocotbext/pcie/core/caps/pcie.py
+++ b/cocotbext/pcie/core/caps/pcie.py
@@ -449,7 +449,7 @@ class PcieCapability(PciCap):
             val |= bool(self.retimer_presence_detected) << 22
             val |= bool(self.two_retimers_presence_detected) << 23
             val |= (self.crosslink_resolution & 0x3) << 24
-            val |= (self.downstream_component_presence & 0x7) << 27
+            val |= (self.downstream_component_presence & 0x7) << 28
             val |= bool(self.drs_message_received) << 31
             return val
         else:
-- 
2.43.0


From de503ac06c769c91f39d8fdb7d53f69ee43bd2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 24/61] fix: capabilities placed automatically could overlap by
 one register

---
 cocotbext/pcie/core/caps/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/caps/common.py b/cocotbext/pcie/core/caps/common.py
index 91f08b5..847ad40 100644
--- a/cocotbext/pcie/core/caps/common.py
+++ b/cocotbext/pcie/core/caps/common.py
@@ -196,7 +196,7 @@ class PciCapList:
         else:
             cap.offset = self.start
             for c in self.list:
-                if c.offset < cap.offset+cap.length-1 and cap.offset <= c.offset+c.length-1:
+                if c.offset <= cap.offset+cap.length-1 and cap.offset <= c.offset+c.length-1:
                     cap.offset = c.offset+c.length
 
         self.list.append(cap)
-- 
2.43.0


From 62a59617d3a1838bf3e2b59b93e7de1b79d39e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 25/61] fix: last remaining capability kept a pointer to a
 removed one

---
 cocotbext/pcie/core/caps/common.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cocotbext/pcie/core/caps/common.py b/cocotbext/pcie/core/caps/common.py
index 847ad40..64f2823 100644
--- a/cocotbext/pcie/core/caps/common.py
+++ b/cocotbext/pcie/core/caps/common.py
@@ -219,9 +219,11 @@ class PciCapList:
         self.list.sort(key=lambda x: x.offset)
 
         # update list next cap pointers
-        for k in range(1, len(self.list)):
-            self.list[k-1].next_cap = self.list[k].offset*4
-            self.list[k].next_cap = 0
+        for k in range(len(self.list)):
+            if k+1 < len(self.list):
+                self.list[k].next_cap = self.list[k+1].offset*4
+            else:
+                self.list[k].next_cap = 0
 
 
 class PciExtCapList(PciCapList):
-- 
2.43.0


From 7441834448bc09def59de76c5a327711a6b01f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 26/61] fix: capabilities pointer not updated when a capability
 is removed

---
 cocotbext/pcie/core/function.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cocotbext/pcie/core/function.py b/cocotbext/pcie/core/function.py
index db3cda8..0ab0e7a 100644
--- a/cocotbext/pcie/core/function.py
+++ b/cocotbext/pcie/core/function.py
@@ -308,14 +308,18 @@ class Function:
     def register_capability(self, cap, offset=None):
         cap.parent = self
         self.capabilities.register(cap, offset)
+        self._update_capabilities_ptr()
+
+    def deregister_capability(self, cap):
+        self.capabilities.deregister(cap)
+        self._update_capabilities_ptr()
+
+    def _update_capabilities_ptr(self):
         if self.capabilities.list:
             self.capabilities_ptr = self.capabilities.list[0].offset*4
         else:
             self.capabilities_ptr = 0
 
-    def deregister_capability(self, cap):
-        self.capabilities.deregister(cap)
-
     async def read_extended_capability_register(self, reg):
         return await self.ext_capabilities.read_register(reg)
 
-- 
2.43.0


From b12a1ab684c7f19bd74f3fb5f7874e7f2240c547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 27/61] fix: extended capabilities were unreachable unless one
 is located at 0x100

---
 cocotbext/pcie/core/caps/common.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cocotbext/pcie/core/caps/common.py b/cocotbext/pcie/core/caps/common.py
index 64f2823..8889fcb 100644
--- a/cocotbext/pcie/core/caps/common.py
+++ b/cocotbext/pcie/core/caps/common.py
@@ -232,3 +232,9 @@ class PciExtCapList(PciCapList):
         self.cap_type = PciExtCap
         self.start = 0x40
         self.end = 0x3ff
+
+    async def read_register(self, reg):
+        if reg == self.start and self.list and not self.find_by_reg(reg):
+            # null capability pointing to the first capability
+            return ((self.list[0].offset*4) & 0xfff) << 20
+        return await super().read_register(reg)
-- 
2.43.0


From 14ab59d20f3f233ceabba3ba9fb66d413fd51780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 28/61] fix: extended capabilities of the device models were
 registered in the standard list and unreachable

---
 cocotbext/pcie/intel/ptile/ptile_model.py | 4 ++--
 cocotbext/pcie/intel/s10/s10_model.py     | 4 ++--
 cocotbext/pcie/xilinx/us/us_model.py      | 4 ++--
 cocotbext/pcie/xilinx/us/usp_model.py     | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/cocotbext/pcie/intel/ptile/ptile_model.py b/cocotbext/pcie/intel/ptile/ptile_model.py
index d994702..c9a3e16 100644
--- a/cocotbext/pcie/intel/ptile/ptile_model.py
+++ b/cocotbext/pcie/intel/ptile/ptile_model.py
@@ -88,13 +88,13 @@ class PTilePcieFunction(Endpoint):
 
         # PCIe extended capabilities
         self.aer_ext_cap = AerExtendedCapability()
-        self.register_capability(self.aer_ext_cap, offset=0x40)
+        self.register_extended_capability(self.aer_ext_cap, offset=0x40)
 
         # VC 0x52
         # ARI 0x5e
 
         self.pcie_ext_cap = PcieExtendedCapability()
-        self.register_capability(self.pcie_ext_cap, offset=0x62)
+        self.register_extended_capability(self.pcie_ext_cap, offset=0x62)
 
         # PHY16 0x6e
         # LM 0x7a
diff --git a/cocotbext/pcie/intel/s10/s10_model.py b/cocotbext/pcie/intel/s10/s10_model.py
index 824d4a8..dffcab5 100644
--- a/cocotbext/pcie/intel/s10/s10_model.py
+++ b/cocotbext/pcie/intel/s10/s10_model.py
@@ -75,13 +75,13 @@ class S10PcieFunction(Endpoint):
 
         # PCIe extended capabilities
         self.aer_ext_cap = AerExtendedCapability()
-        self.register_capability(self.aer_ext_cap, offset=0x40)
+        self.register_extended_capability(self.aer_ext_cap, offset=0x40)
 
         # VC 0x4e
         # ARI 0x5e
 
         self.pcie_ext_cap = PcieExtendedCapability()
-        self.register_capability(self.pcie_ext_cap, offset=0x62)
+        self.register_extended_capability(self.pcie_ext_cap, offset=0x62)
 
         # SRIOV 0x6e
         # TPH 0x7e
diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index fc72913..a47e0e8 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -86,7 +86,7 @@ class UltraScalePcieFunction(Endpoint):
 
         # PCIe extended capabilities
         self.aer_ext_cap = AerExtendedCapability()
-        self.register_capability(self.aer_ext_cap, offset=0x40)
+        self.register_extended_capability(self.aer_ext_cap, offset=0x40)
 
         # ARI 0x50
         # DSN 0x54
@@ -97,7 +97,7 @@ class UltraScalePcieFunction(Endpoint):
         # TPH 0x9d
 
         self.pcie_ext_cap = PcieExtendedCapability()
-        self.register_capability(self.pcie_ext_cap, offset=0xC0)
+        self.register_extended_capability(self.pcie_ext_cap, offset=0xC0)
 
         # VSEC 0xd0 (MCAP)
         # VC 0xf0
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index 924d5e5..7591f2d 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -125,14 +125,14 @@ class UltraScalePlusPcieFunction(Endpoint):
 
         # PCIe extended capabilities
         self.aer_ext_cap = AerExtendedCapability()
-        self.register_capability(self.aer_ext_cap, offset=0x40)
+        self.register_extended_capability(self.aer_ext_cap, offset=0x40)
 
         # SRIOV 0x50
         # ARI 0x60
         # DSN 0x68
 
         self.pcie_ext_cap = PcieExtendedCapability()
-        self.register_capability(self.pcie_ext_cap, offset=0x70)
+        self.register_extended_capability(self.pcie_ext_cap, offset=0x70)
 
         # VC 0x80
         # TPH 0x88
-- 
2.43.0


From a9b258ff076184a0fcdb86b2102858b4ff77bab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 29/61] fix: MSI vector blocks were not aligned after an
 allocation that is not a multiple of 32

---
 cocotbext/pcie/core/msi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/msi.py b/cocotbext/pcie/core/msi.py
index 6d97bb7..2d69f7d 100644
--- a/cocotbext/pcie/core/msi.py
+++ b/cocotbext/pcie/core/msi.py
@@ -57,7 +57,7 @@ class MsiRegion(Region):
             self.msi_vectors[vec.data] = vec
             self.msi_msg_limit += 1
 
-        self.msi_msg_limit += self.msi_msg_limit % 32
+        self.msi_msg_limit += -self.msi_msg_limit % 32
 
         return vecs
 
-- 
2.43.0


From 57026cff27bea10b05e259afe7996b32d1d63f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 30/61] fix: switching a function between MSI and MSI-X reused
 too few vectors

---
 cocotbext/pcie/core/pci.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/core/pci.py b/cocotbext/pcie/core/pci.py
index 7daca81..f218d7f 100644
--- a/cocotbext/pcie/core/pci.py
+++ b/cocotbext/pcie/core/pci.py
@@ -858,7 +858,7 @@ class PciDevice:
         await self.msi_set_enable(False)
         self.msi_enabled = True
 
-        if not self.msi_vectors:
+        if len(self.msi_vectors) < 32:
             self.msi_vectors = self.rc.msi_alloc_vectors(32)
 
         msg_ctrl = await self.capability_read_dword(PciCapId.MSI, 0)
@@ -982,7 +982,7 @@ class PciDevice:
         self.rc.log.info("pci %s: MSI-X PBA BIR: %d", self.pcie_id, pba_bir)
         self.rc.log.info("pci %s: MSI-X PBA offset: 0x%08x", self.pcie_id, pba_offset)
 
-        if not self.msi_vectors:
+        if len(self.msi_vectors) < table_size:
             self.msi_vectors = self.rc.msi_alloc_vectors(table_size)
 
         # configure vectors
-- 
2.43.0


From 2f934ec946d2b6bd02ba1d8d4930b5e8a58a9120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 31/61] fix: masked MSI vectors were sent

---
 cocotbext/pcie/core/caps/msi.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/cocotbext/pcie/core/caps/msi.py b/cocotbext/pcie/core/caps/msi.py
index c34e964..b5c4b05 100644
--- a/cocotbext/pcie/core/caps/msi.py
+++ b/cocotbext/pcie/core/caps/msi.py
@@ -24,6 +24,8 @@ THE SOFTWARE.
 
 import struct
 
+import cocotb
+
 from .common import PciCapId, PciCap
 from ..tlp import TlpAttr, TlpTc
 from ..utils import byte_mask_update
@@ -147,6 +149,7 @@ class MsiCapability(PciCap):
             if mask & 0x8:
                 if self.msi_extended_message_data_capable:
                     self.msi_extended_message_data_enable = bool(data & 1 << 26)
+            self._issue_pending_msi_interrupts()
         elif reg == 1:
             # Message address
             self.msi_message_address = byte_mask_update(self.msi_message_address, mask, data & 0xfffffffc)
@@ -162,6 +165,16 @@ class MsiCapability(PciCap):
         elif reg == (4 if self.msi_64bit_address_capable else 3) and self.msi_per_vector_mask_capable:
             # Mask bits
             self.msi_mask_bits = byte_mask_update(self.msi_mask_bits, mask, data) & 0xffffffff
+            self._issue_pending_msi_interrupts()
+
+    def _issue_pending_msi_interrupts(self):
+        # send pending messages that are not masked any more
+        if not self.msi_enable or not self.msi_per_vector_mask_capable:
+            return
+        for number in range(2**min(self.msi_multiple_message_enable, self.msi_multiple_message_capable)):
+            if self.msi_pending_bits & ~self.msi_mask_bits & 1 << number:
+                self.msi_pending_bits &= ~(1 << number)
+                cocotb.start_soon(self.issue_msi_interrupt(number))
 
     async def issue_msi_interrupt(self, number=0, attr=TlpAttr(0), tc=TlpTc.TC0):
         if not self.msi_enable:
@@ -169,6 +182,11 @@ class MsiCapability(PciCap):
         if number < 0 or number >= 2**min(self.msi_multiple_message_enable, self.msi_multiple_message_capable):
             raise ValueError("MSI message number out of range")
 
+        if self.msi_per_vector_mask_capable and self.msi_mask_bits & 1 << number:
+            # masked, send when unmasked
+            self.msi_pending_bits |= 1 << number
+            return
+
         if self.msi_extended_message_data_capable and self.msi_extended_message_data_enable:
             data = self.msi_message_data
         else:
-- 
2.43.0


From 373aff50996c59dff6756895faf4f7e0c1c9ac34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 32/61] fix: copy the request completed flag with a Tlp_us

---
 cocotbext/pcie/xilinx/us/tlp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/xilinx/us/tlp.py b/cocotbext/pcie/xilinx/us/tlp.py
index fd7391d..ea610bf 100644
--- a/cocotbext/pcie/xilinx/us/tlp.py
+++ b/cocotbext/pcie/xilinx/us/tlp.py
@@ -120,7 +120,7 @@ class Tlp_us(Tlp):
             self.discontinue = tlp.discontinue
             self.seq_num = tlp.seq_num
             self.error_code = tlp.error_code
-            self.request_completed == tlp.request_completed
+            self.request_completed = tlp.request_completed
 
     def pack_us_cq(self):
         pkt = UsPcieFrame()
-- 
2.43.0


From 9b31dc8086f59f8e6b1796793ce625705c90b371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 33/61] fix: apply the length range and I/O and configuration
 request rules in Tlp.check

---
 cocotbext/pcie/core/tlp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/core/tlp.py b/cocotbext/pcie/core/tlp.py
index 531500d..17662d5 100644
--- a/cocotbext/pcie/core/tlp.py
+++ b/cocotbext/pcie/core/tlp.py
@@ -282,7 +282,7 @@ class Tlp:
             if self.length*4 != len(self.data):
                 print(f"TLP validation failed, length field does not match data: {self!r}")
                 ret = False
-            if 0 > self.length > 1024:
+            if self.length < 1 or self.length > 1024:
                 print(f"TLP validation failed, length out of range: {self!r}")
                 ret = False
         if self.fmt_type in {TlpType.MEM_READ, TlpType.MEM_READ_64, TlpType.MEM_READ_LOCKED,
@@ -290,7 +290,7 @@ class Tlp:
             if self.length*4 > 0x1000 - (self.address & 0xfff):
                 print(f"TLP validation failed, request crosses 4K boundary: {self!r}")
                 ret = False
-        if self.fmt_type == {TlpType.CFG_READ_0, TlpType.CFG_WRITE_0, TlpType.CFG_READ_1,
+        if self.fmt_type in {TlpType.CFG_READ_0, TlpType.CFG_WRITE_0, TlpType.CFG_READ_1,
                 TlpType.CFG_WRITE_1, TlpType.IO_READ, TlpType.IO_WRITE}:
             if self.length != 1:
                 print(f"TLP validation failed, invalid length for IO or configuration request: {self!r}")
-- 
2.43.0


From 111ecae28a8b9dcfa1a27dfef97eb4b67b3d1e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 34/61] fix: index CQ first_be and last_be by TLP rather than
 by segment

---
 cocotbext/pcie/xilinx/us/interface.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/interface.py b/cocotbext/pcie/xilinx/us/interface.py
index 35425e1..6d1a022 100644
--- a/cocotbext/pcie/xilinx/us/interface.py
+++ b/cocotbext/pcie/xilinx/us/interface.py
@@ -929,8 +929,8 @@ class CqSource(UsPcieSource):
                         first = False
 
                         if self.width == 512:
-                            transaction.tuser |= (frame.first_be & 0xf) << (seg*4)
-                            transaction.tuser |= (frame.last_be & 0xf) << (seg*4+8)
+                            transaction.tuser |= (frame.first_be & 0xf) << (sop_cnt*4)
+                            transaction.tuser |= (frame.last_be & 0xf) << (sop_cnt*4+8)
 
                             # is_sop
                             transaction.tuser |= 1 << 80+sop_cnt
@@ -1012,6 +1012,7 @@ class CqSink(UsPcieSink):
             seg_valid = 2**self.seg_count-1
             seg_sop = 0
             seg_eop = 0
+            sop_cnt = 0
 
             if self.seg_count == 1:
                 lane_valid = int(sample.tkeep)
@@ -1056,12 +1057,14 @@ class CqSink(UsPcieSink):
                     frame = UsPcieFrame()
 
                     if self.width == 512:
-                        frame.first_be = (int(sample.tuser) >> (seg*4)) & 0xf
-                        frame.last_be = (int(sample.tuser) >> (seg*4+8)) & 0xf
+                        frame.first_be = (int(sample.tuser) >> (sop_cnt*4)) & 0xf
+                        frame.last_be = (int(sample.tuser) >> (sop_cnt*4+8)) & 0xf
                     else:
                         frame.first_be = int(sample.tuser) & 0xf
                         frame.last_be = (int(sample.tuser) >> 4) & 0xf
 
+                    sop_cnt += 1
+
                 if int(sample.tuser) & (1 << self.discontinue_offset):
                     frame.discontinue = True
 
-- 
2.43.0


From 88acf050a8d9128ec3e2c163fb20bf9bdf417449 Mon Sep 17 00:00:00 2001
From: vf <a@b>
Date: Thu, 19 Nov 2026 22:29:23 +0000
Subject: [PATCH 35/61] fix: requests waiting for an internally managed tag
 were never released

---
 cocotbext/pcie/xilinx/us/us_model.py  | 1 +
 cocotbext/pcie/xilinx/us/usp_model.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index a47e0e8..55b491b 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -878,6 +878,7 @@ class UltraScalePcieDevice(Device):
                         self.local_error = True
 
                     self.tag_available_count = self.get_available_tag_count()
+                    self.tag_release.set()
 
                     return
 
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index 7591f2d..327b6b4 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -1022,6 +1022,7 @@ class UltraScalePlusPcieDevice(Device):
                         self.local_error.put_nowait(LocalError.RX_CPL_BUF_OVF_ERR)
 
                     self.tag_available_count = self.get_available_tag_count()
+                    self.tag_release.set()
 
                     return
 
-- 
2.43.0


From 6c5ca25d7d871e61f2958630cb5a0ff810490315 Mon Sep 17 00:00:00 2001
From: vf <a@b>
Date: Thu, 19 Nov 2026 22:29:23 +0000
Subject: [PATCH 36/61] fix: non-posted requests could pass one that was taken
 out of the queue and still waiting

---
 cocotbext/pcie/xilinx/us/us_model.py  | 6 +++++-
 cocotbext/pcie/xilinx/us/usp_model.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index 55b491b..a2c6962 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -335,6 +335,7 @@ class UltraScalePcieDevice(Device):
 
         self.rq_np_queue = Queue()
         self.rq_np_queue_dequeue = Event()
+        self.rq_np_pending = 0
         self.rq_np_limit = 16
 
         # PG156 lists 64 CPLH and "15872B CPLD"
@@ -1037,7 +1038,7 @@ class UltraScalePcieDevice(Device):
             if tlp.is_nonposted():
                 # non-posted request
 
-                if self.rq_np_queue.empty() and self.cpld_credit_count+tlp.get_data_credits() <= self.cpld_credit_limit and (self.enable_client_tag or self.tag_available_count > 0):
+                if self.rq_np_pending == 0 and self.cpld_credit_count+tlp.get_data_credits() <= self.cpld_credit_limit and (self.enable_client_tag or self.tag_available_count > 0):
                     # queue empty and have data credits; skip queue and send immediately to preserve ordering
 
                     if not self.functions[tlp.requester_id.function].bus_master_enable:
@@ -1071,6 +1072,7 @@ class UltraScalePcieDevice(Device):
                         self.rq_np_queue_dequeue.clear()
                         await self.rq_np_queue_dequeue.wait()
 
+                    self.rq_np_pending += 1
                     self.rq_np_queue.put_nowait(tlp)
             else:
                 # posted request; send immediately
@@ -1106,6 +1108,7 @@ class UltraScalePcieDevice(Device):
             if not self.functions[tlp.requester_id.function].bus_master_enable:
                 self.log.warning("Bus mastering disabled, dropping TLP: %r", tlp)
                 # TODO: internal response
+                self.rq_np_pending -= 1
                 continue
 
             self.cpld_credit_count += tlp.get_data_credits()
@@ -1120,6 +1123,7 @@ class UltraScalePcieDevice(Device):
 
             await self.send(Tlp(tlp))
             self.rq_seq_num.put_nowait(tlp.seq_num)
+            self.rq_np_pending -= 1
 
     async def _run_rq_seq_num_logic(self):
         clock_edge_event = RisingEdge(self.user_clk)
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index 327b6b4..0b7d7b1 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -388,6 +388,7 @@ class UltraScalePlusPcieDevice(Device):
 
         self.rq_np_queue = Queue()
         self.rq_np_queue_dequeue = Event()
+        self.rq_np_pending = 0
         self.rq_np_limit = 16
 
         # PG213 lists 128 CPLH and "32768B CPLD"
@@ -1177,7 +1178,7 @@ class UltraScalePlusPcieDevice(Device):
             if tlp.is_nonposted():
                 # non-posted request
 
-                if self.rq_np_queue.empty() and self.cpld_credit_count+tlp.get_data_credits() <= self.cpld_credit_limit and (self.enable_client_tag or self.tag_available_count > 0):
+                if self.rq_np_pending == 0 and self.cpld_credit_count+tlp.get_data_credits() <= self.cpld_credit_limit and (self.enable_client_tag or self.tag_available_count > 0):
                     # queue empty and have data credits; skip queue and send immediately to preserve ordering
 
                     if not self.functions[tlp.requester_id.function].bus_master_enable:
@@ -1211,6 +1212,7 @@ class UltraScalePlusPcieDevice(Device):
                         self.rq_np_queue_dequeue.clear()
                         await self.rq_np_queue_dequeue.wait()
 
+                    self.rq_np_pending += 1
                     self.rq_np_queue.put_nowait(tlp)
             else:
                 # posted request; send immediately
@@ -1246,6 +1248,7 @@ class UltraScalePlusPcieDevice(Device):
             if not self.functions[tlp.requester_id.function].bus_master_enable:
                 self.log.warning("Bus mastering disabled, dropping TLP: %r", tlp)
                 # TODO: internal response
+                self.rq_np_pending -= 1
                 continue
 
             self.cpld_credit_count += tlp.get_data_credits()
@@ -1260,6 +1263,7 @@ class UltraScalePlusPcieDevice(Device):
 
             await self.send(Tlp(tlp))
             self.rq_seq_num.put_nowait(tlp.seq_num)
+            self.rq_np_pending -= 1
 
     async def _run_rq_seq_num_logic(self):
         clock_edge_event = RisingEdge(self.user_clk)
-- 
2.43.0


From dc8863588531bdad79283f741a962fbb218b2bc4 Mon Sep 17 00:00:00 2001
From: vf <a@b>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 37/61] fix: the number of available tags included tags that
 are never allocated

---
 cocotbext/pcie/xilinx/us/us_model.py  | 7 +++----
 cocotbext/pcie/xilinx/us/usp_model.py | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index a2c6962..f20bed7 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -761,10 +761,9 @@ class UltraScalePcieDevice(Device):
         return None
 
     def get_available_tag_count(self):
-        if self.functions[0].pcie_cap.extended_tag_field_enable:
-            return self.active_request.count(None)
-        else:
-            return self.active_request[0:32].count(None)
+        tag_count = min(256 if self.functions[0].pcie_cap.extended_tag_field_enable else 32, self.tag_count)
+
+        return self.active_request[0:tag_count].count(None)
 
     async def upstream_recv(self, tlp):
         self.log.debug("Got downstream TLP: %r", tlp)
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index 0b7d7b1..06d1a2f 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -905,10 +905,9 @@ class UltraScalePlusPcieDevice(Device):
         return None
 
     def get_available_tag_count(self):
-        if self.functions[0].pcie_cap.extended_tag_field_enable:
-            return self.active_request.count(None)
-        else:
-            return self.active_request[0:32].count(None)
+        tag_count = min(256 if self.functions[0].pcie_cap.extended_tag_field_enable else 32, self.tag_count)
+
+        return self.active_request[0:tag_count].count(None)
 
     async def upstream_recv(self, tlp):
         self.log.debug("Got downstream TLP: %r", tlp)
-- 
2.43.0


From 11783917136c1ec1c9ffcef4b39bcc89691a2598 Mon Sep 17 00:00:00 2001
From: vf <a@b>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 38/61] fix: the range of client tags was checked on requests
 that get an internally managed tag

---
 cocotbext/pcie/xilinx/us/us_model.py  | 9 ++++-----
 cocotbext/pcie/xilinx/us/usp_model.py | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index f20bed7..c8cc32d 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -1045,14 +1045,13 @@ class UltraScalePcieDevice(Device):
                         # TODO: internal response
                         continue
 
-                    if self.functions[0].pcie_cap.extended_tag_field_enable:
-                        assert tlp.tag < 64, "tag out of range (extended tags enabled)"
-                    else:
-                        assert tlp.tag < 32, "tag out of range (extended tags disabled)"
-
                     if not self.enable_client_tag:
                         tlp.tag = self.get_free_tag()
                         self.rq_tag.put_nowait(tlp.tag)
+                    elif self.functions[0].pcie_cap.extended_tag_field_enable:
+                        assert tlp.tag < 64, "tag out of range (extended tags enabled)"
+                    else:
+                        assert tlp.tag < 32, "tag out of range (extended tags disabled)"
 
                     assert not self.active_request[tlp.tag], "active tag reused"
                     self.active_request[tlp.tag] = tlp
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index 06d1a2f..2d633ca 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -1185,14 +1185,13 @@ class UltraScalePlusPcieDevice(Device):
                         # TODO: internal response
                         continue
 
-                    if self.functions[0].pcie_cap.extended_tag_field_enable:
-                        assert tlp.tag < 256, "tag out of range (extended tags enabled)"
-                    else:
-                        assert tlp.tag < 32, "tag out of range (extended tags disabled)"
-
                     if not self.enable_client_tag:
                         tlp.tag = self.get_free_tag()
                         self.rq_tag.put_nowait(tlp.tag)
+                    elif self.functions[0].pcie_cap.extended_tag_field_enable:
+                        assert tlp.tag < 256, "tag out of range (extended tags enabled)"
+                    else:
+                        assert tlp.tag < 32, "tag out of range (extended tags disabled)"
 
                     assert not self.active_request[tlp.tag], "active tag reused"
                     self.active_request[tlp.tag] = tlp
-- 
2.43.0


From a055cc46364d597704947c66657ab372669c4e87 Mon Sep 17 00:00:00 2001
From: vf <a@b>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 39/61] fix: data credits taken by non-posted requests with
 data were never released

---
 cocotbext/pcie/xilinx/us/us_model.py  | 6 +++---
 cocotbext/pcie/xilinx/us/usp_model.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index c8cc32d..f4a6293 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -861,9 +861,9 @@ class UltraScalePcieDevice(Device):
                         tlp.request_completed = True
                         self.active_request[tlp.tag] = None
 
-                    # TODO track individual operations
-                    self.cpld_credit_count = max(self.cpld_credit_count-tlp.get_data_credits(), 0)
-                    self.cpld_credit_released.set()
+                    if tlp.request_completed:
+                        self.cpld_credit_count = max(self.cpld_credit_count-req.get_data_credits(), 0)
+                        self.cpld_credit_released.set()
 
                     # check and track buffer occupancy
                     data_fc = tlp.get_data_credits()
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index 2d633ca..a080e5b 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -1005,9 +1005,9 @@ class UltraScalePlusPcieDevice(Device):
                         tlp.request_completed = True
                         self.active_request[tlp.tag] = None
 
-                    # TODO track individual operations
-                    self.cpld_credit_count = max(self.cpld_credit_count-tlp.get_data_credits(), 0)
-                    self.cpld_credit_released.set()
+                    if tlp.request_completed:
+                        self.cpld_credit_count = max(self.cpld_credit_count-req.get_data_credits(), 0)
+                        self.cpld_credit_released.set()
 
                     # check and track buffer occupancy
                     data_fc = tlp.get_data_credits()
-- 
2.43.0


From f07ec5abef965daac627b941b50d8c68dd1979cc Mon Sep 17 00:00:00 2001
From: vf <a@b>
Date: Thu, 19 Nov 2026 23:00:37 +0000
Subject: [PATCH 40/61] fix: 64-bit BARs of 4 GB and more were never matched

---
 cocotbext/pcie/core/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/function.py b/cocotbext/pcie/core/function.py
index 0ab0e7a..db52cd0 100644
--- a/cocotbext/pcie/core/function.py
+++ b/cocotbext/pcie/core/function.py
@@ -370,7 +370,7 @@ class Function:
             orig_bar = bar
             bar += 1
 
-            if bar_mask == 0:
+            if bar_mask == 0 and bar_val & 0xf == 0:
                 # unimplemented BAR
                 continue
 
-- 
2.43.0


From 9503ae27b9b3d22a9b45681ca334b4eb3bb0f1b8 Mon Sep 17 00:00:00 2001
From: vf <a@b>
Date: Thu, 19 Nov 2026 23:00:37 +0000
Subject: [PATCH 41/61] fix: 32-bit memory BARs matched addresses above 4 GB

---
 cocotbext/pcie/core/function.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cocotbext/pcie/core/function.py b/cocotbext/pcie/core/function.py
index db52cd0..2e3fc32 100644
--- a/cocotbext/pcie/core/function.py
+++ b/cocotbext/pcie/core/function.py
@@ -393,6 +393,9 @@ class Function:
                     bar_mask |= self.bar_mask[bar] << 32
 
                     bar += 1
+                else:
+                    # 32 bit BAR
+                    bar_mask |= 0xffffffff << 32
 
                 if not io and (addr ^ bar_val) & bar_mask == 0:
                     return (orig_bar, addr & ~bar_mask)
-- 
2.43.0


From fb91b820483e87ef89a7a6ec95bd8d91324dd84d Mon Sep 17 00:00:00 2001
From: vf <a@b>
Date: Thu, 19 Nov 2026 23:00:37 +0000
Subject: [PATCH 42/61] fix: the BAR aperture of a completer request was taken
 from function 0

---
 cocotbext/pcie/xilinx/us/us_model.py  | 10 +++++-----
 cocotbext/pcie/xilinx/us/usp_model.py | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index f4a6293..e838558 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -897,7 +897,7 @@ class UltraScalePcieDevice(Device):
 
                     tlp = Tlp_us(tlp)
                     tlp.bar_id = bar[0]
-                    tlp.bar_aperture = (~self.functions[0].bar_mask[bar[0]] & 0xffffffff).bit_length()
+                    tlp.bar_aperture = (~f.bar_mask[bar[0]] & 0xffffffff).bit_length()
                     tlp.completer_id = f.pcie_id
                     self.cq_queue.put_nowait(tlp)
 
@@ -917,11 +917,11 @@ class UltraScalePcieDevice(Device):
 
                     tlp = Tlp_us(tlp)
                     tlp.bar_id = bar[0]
-                    if self.functions[0].bar[bar[0]] & 4:
-                        tlp.bar_aperture = (~(self.functions[0].bar_mask[bar[0]] |
-                            (self.functions[0].bar_mask[bar[0]+1] << 32)) & 0xffffffffffffffff).bit_length()
+                    if f.bar[bar[0]] & 4:
+                        tlp.bar_aperture = (~(f.bar_mask[bar[0]] |
+                            (f.bar_mask[bar[0]+1] << 32)) & 0xffffffffffffffff).bit_length()
                     else:
-                        tlp.bar_aperture = (~self.functions[0].bar_mask[bar[0]] & 0xffffffff).bit_length()
+                        tlp.bar_aperture = (~f.bar_mask[bar[0]] & 0xffffffff).bit_length()
                     tlp.completer_id = tlp.completer_id._replace(bus=self.bus_num)
                     self.cq_queue.put_nowait(tlp)
 
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index a080e5b..36e7906 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -1041,7 +1041,7 @@ class UltraScalePlusPcieDevice(Device):
 
                     tlp = Tlp_us(tlp)
                     tlp.bar_id = bar[0]
-                    tlp.bar_aperture = (~self.functions[0].bar_mask[bar[0]] & 0xffffffff).bit_length()
+                    tlp.bar_aperture = (~f.bar_mask[bar[0]] & 0xffffffff).bit_length()
                     tlp.completer_id = tlp.completer_id._replace(bus=self.bus_num)
                     self.cq_queue.put_nowait(tlp)
 
@@ -1061,11 +1061,11 @@ class UltraScalePlusPcieDevice(Device):
 
                     tlp = Tlp_us(tlp)
                     tlp.bar_id = bar[0]
-                    if self.functions[0].bar[bar[0]] & 4:
-                        tlp.bar_aperture = (~(self.functions[0].bar_mask[bar[0]] |
-                            (self.functions[0].bar_mask[bar[0]+1] << 32)) & 0xffffffffffffffff).bit_length()
+                    if f.bar[bar[0]] & 4:
+                        tlp.bar_aperture = (~(f.bar_mask[bar[0]] |
+                            (f.bar_mask[bar[0]+1] << 32)) & 0xffffffffffffffff).bit_length()
                     else:
-                        tlp.bar_aperture = (~self.functions[0].bar_mask[bar[0]] & 0xffffffff).bit_length()
+                        tlp.bar_aperture = (~f.bar_mask[bar[0]] & 0xffffffff).bit_length()
                     tlp.completer_id = f.pcie_id
                     self.cq_queue.put_nowait(tlp)
 
-- 
2.43.0


From e7d322a0b7657896a339e03cb73206bfb9cea4b9 Mon Sep 17 00:00:00 2001
From: vf <a@b>
Date: Thu, 19 Nov 2026 23:00:37 +0000
Subject: [PATCH 43/61] fix: completer requests were not marked with the
 function they are for

---
 cocotbext/pcie/xilinx/us/us_model.py  | 2 +-
 cocotbext/pcie/xilinx/us/usp_model.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index e838558..038796b 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -922,7 +922,7 @@ class UltraScalePcieDevice(Device):
                             (f.bar_mask[bar[0]+1] << 32)) & 0xffffffffffffffff).bit_length()
                     else:
                         tlp.bar_aperture = (~f.bar_mask[bar[0]] & 0xffffffff).bit_length()
-                    tlp.completer_id = tlp.completer_id._replace(bus=self.bus_num)
+                    tlp.completer_id = f.pcie_id
                     self.cq_queue.put_nowait(tlp)
 
                     return
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index 36e7906..bdd5c2d 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -1042,7 +1042,7 @@ class UltraScalePlusPcieDevice(Device):
                     tlp = Tlp_us(tlp)
                     tlp.bar_id = bar[0]
                     tlp.bar_aperture = (~f.bar_mask[bar[0]] & 0xffffffff).bit_length()
-                    tlp.completer_id = tlp.completer_id._replace(bus=self.bus_num)
+                    tlp.completer_id = f.pcie_id
                     self.cq_queue.put_nowait(tlp)
 
                     return
-- 
2.43.0


From d4ac7d35d9de7489540781766d0d631bc7b7cd96 Mon Sep 17 00:00:00 2001
From: vf <a@b>
Date: Thu, 19 Nov 2026 23:01:20 +0000
Subject: [PATCH 44/61] fix: credits for non-posted completer requests were
 lost while the CQ stream was stalled

---
 cocotbext/pcie/xilinx/us/us_model.py  | 15 +++++++++++++--
 cocotbext/pcie/xilinx/us/usp_model.py | 15 +++++++++++++--
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index 038796b..e60dc2a 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -735,6 +735,7 @@ class UltraScalePcieDevice(Device):
         if self.rc_source:
             cocotb.start_soon(self._run_rc_logic())
         if self.cq_source:
+            cocotb.start_soon(self._run_cq_np_req_logic())
             cocotb.start_soon(self._run_cq_logic())
         if self.cc_sink:
             cocotb.start_soon(self._run_cc_logic())
@@ -975,7 +976,7 @@ class UltraScalePcieDevice(Device):
             # pcie_perstn0_out
             # pcie_perstn1_out
 
-    async def _run_cq_logic(self):
+    async def _run_cq_np_req_logic(self):
         clock_edge_event = RisingEdge(self.user_clk)
 
         while True:
@@ -985,6 +986,16 @@ class UltraScalePcieDevice(Device):
             if self.pcie_cq_np_req is None or self.pcie_cq_np_req.value:
                 self.cq_np_req_count = min(self.cq_np_req_count+1, 32)
 
+            # output new cq_np_req_count
+            if self.pcie_cq_np_req_count is not None:
+                self.pcie_cq_np_req_count.value = self.cq_np_req_count
+
+    async def _run_cq_logic(self):
+        clock_edge_event = RisingEdge(self.user_clk)
+
+        while True:
+            await clock_edge_event
+
             # handle completer requests
             # send any queued non-posted requests first
             while not self.cq_np_queue.empty() and self.cq_np_req_count > 0:
@@ -998,7 +1009,7 @@ class UltraScalePcieDevice(Device):
 
                 if tlp.fmt_type in {TlpType.IO_READ, TlpType.IO_WRITE, TlpType.MEM_READ, TlpType.MEM_READ_64}:
                     # non-posted request
-                    if self.cq_np_req_count > 0:
+                    if self.cq_np_queue.empty() and self.cq_np_req_count > 0:
                         # have credit, can forward
                         self.cq_np_req_count -= 1
                         await self.cq_source.send(tlp.pack_us_cq())
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index bdd5c2d..890ffed 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -879,6 +879,7 @@ class UltraScalePlusPcieDevice(Device):
         if self.rc_source:
             cocotb.start_soon(self._run_rc_logic())
         if self.cq_source:
+            cocotb.start_soon(self._run_cq_np_req_logic())
             cocotb.start_soon(self._run_cq_logic())
         if self.cc_sink:
             cocotb.start_soon(self._run_cc_logic())
@@ -1115,7 +1116,7 @@ class UltraScalePlusPcieDevice(Device):
             else:
                 return
 
-    async def _run_cq_logic(self):
+    async def _run_cq_np_req_logic(self):
         clock_edge_event = RisingEdge(self.user_clk)
 
         while True:
@@ -1125,6 +1126,16 @@ class UltraScalePlusPcieDevice(Device):
             if self.pcie_cq_np_req is None or self.pcie_cq_np_req.value:
                 self.cq_np_req_count = min(self.cq_np_req_count+1, 32)
 
+            # output new cq_np_req_count
+            if self.pcie_cq_np_req_count is not None:
+                self.pcie_cq_np_req_count.value = self.cq_np_req_count
+
+    async def _run_cq_logic(self):
+        clock_edge_event = RisingEdge(self.user_clk)
+
+        while True:
+            await clock_edge_event
+
             # handle completer requests
             # send any queued non-posted requests first
             while not self.cq_np_queue.empty() and self.cq_np_req_count > 0:
@@ -1138,7 +1149,7 @@ class UltraScalePlusPcieDevice(Device):
 
                 if tlp.fmt_type in {TlpType.IO_READ, TlpType.IO_WRITE, TlpType.MEM_READ, TlpType.MEM_READ_64}:
                     # non-posted request
-                    if self.cq_np_req_count > 0:
+                    if self.cq_np_queue.empty() and self.cq_np_req_count > 0:
                         # have credit, can forward
                         self.cq_np_req_count -= 1
                         await self.cq_source.send(tlp.pack_us_cq())
-- 
2.43.0


From 1643e32f850193a6116b58d1b849ac16a5ebe7e4 Mon Sep 17 00:00:00 2001
From: vf <a@b>
Date: Thu, 19 Nov 2026 23:21:07 +0000
Subject: [PATCH 45/61] fix: MSI and MSI-X requests that cannot be issued
 crashed or were ignored instead of signalling failure

---
 cocotbext/pcie/xilinx/us/us_model.py  | 22 ++++++++++++++++++++--
 cocotbext/pcie/xilinx/us/usp_model.py | 22 ++++++++++++++++++++--
 2 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index e60dc2a..6f774f4 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -1497,11 +1497,20 @@ class UltraScalePcieDevice(Device):
                 self.cfg_interrupt_msi_fail.value = 0
             if msi_int:
                 bits = [i for i in range(32) if msi_int >> i & 1]
+                sent = False
                 if len(bits) == 1 and msi_function_number < len(self.functions):
                     self.log.info("Issue MSI interrupt (index %d)", bits[0])
-                    await self.functions[msi_function_number].msi_cap.issue_msi_interrupt(bits[0], attr=msi_attr)
+                    try:
+                        await self.functions[msi_function_number].msi_cap.issue_msi_interrupt(bits[0], attr=msi_attr)
+                        sent = True
+                    except Exception as e:
+                        self.log.warning("Failed to issue MSI interrupt (index %d): %s", bits[0], e)
+                if sent:
                     if self.cfg_interrupt_msi_sent is not None:
                         self.cfg_interrupt_msi_sent.value = 1
+                else:
+                    if self.cfg_interrupt_msi_fail is not None:
+                        self.cfg_interrupt_msi_fail.value = 1
 
             if self.cfg_interrupt_msi_mmenable is not None:
                 val = 0
@@ -1544,11 +1553,20 @@ class UltraScalePcieDevice(Device):
             if self.cfg_interrupt_msix_fail is not None:
                 self.cfg_interrupt_msix_fail.value = 0
             if msix_int:
+                sent = False
                 if msi_function_number < len(self.functions):
                     self.log.info("Issue MSI-X interrupt (addr 0x%08x, data 0x%08x)", msix_address, msix_data)
-                    await self.functions[msi_function_number].msix_cap.issue_msix_interrupt(msix_address, msix_data, attr=msi_attr)
+                    try:
+                        await self.functions[msi_function_number].msix_cap.issue_msix_interrupt(msix_address, msix_data, attr=msi_attr)
+                        sent = True
+                    except Exception as e:
+                        self.log.warning("Failed to issue MSI-X interrupt (addr 0x%08x, data 0x%08x): %s", msix_address, msix_data, e)
+                if sent:
                     if self.cfg_interrupt_msix_sent is not None:
                         self.cfg_interrupt_msix_sent.value = 1
+                else:
+                    if self.cfg_interrupt_msix_fail is not None:
+                        self.cfg_interrupt_msix_fail.value = 1
 
             # MSI/MSI-X
             # cfg_interrupt_msi_tph_present
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index 890ffed..9634e84 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -1623,11 +1623,20 @@ class UltraScalePlusPcieDevice(Device):
                 self.cfg_interrupt_msi_fail.value = 0
             if msi_int:
                 bits = [i for i in range(32) if msi_int >> i & 1]
+                sent = False
                 if len(bits) == 1 and msi_function_number < len(self.functions):
                     self.log.info("Issue MSI interrupt (index %d)", bits[0])
-                    await self.functions[msi_function_number].msi_cap.issue_msi_interrupt(bits[0], attr=msi_attr)
+                    try:
+                        await self.functions[msi_function_number].msi_cap.issue_msi_interrupt(bits[0], attr=msi_attr)
+                        sent = True
+                    except Exception as e:
+                        self.log.warning("Failed to issue MSI interrupt (index %d): %s", bits[0], e)
+                if sent:
                     if self.cfg_interrupt_msi_sent is not None:
                         self.cfg_interrupt_msi_sent.value = 1
+                else:
+                    if self.cfg_interrupt_msi_fail is not None:
+                        self.cfg_interrupt_msi_fail.value = 1
 
             if self.cfg_interrupt_msi_mmenable is not None:
                 val = 0
@@ -1670,11 +1679,20 @@ class UltraScalePlusPcieDevice(Device):
             if self.cfg_interrupt_msix_fail is not None:
                 self.cfg_interrupt_msix_fail.value = 0
             if msix_int:
+                sent = False
                 if msi_function_number < len(self.functions):
                     self.log.info("Issue MSI-X interrupt (addr 0x%08x, data 0x%08x)", msix_address, msix_data)
-                    await self.functions[msi_function_number].msix_cap.issue_msix_interrupt(msix_address, msix_data, attr=msi_attr)
+                    try:
+                        await self.functions[msi_function_number].msix_cap.issue_msix_interrupt(msix_address, msix_data, attr=msi_attr)
+                        sent = True
+                    except Exception as e:
+                        self.log.warning("Failed to issue MSI-X interrupt (addr 0x%08x, data 0x%08x): %s", msix_address, msix_data, e)
+                if sent:
                     if self.cfg_interrupt_msix_sent is not None:
                         self.cfg_interrupt_msix_sent.value = 1
+                else:
+                    if self.cfg_interrupt_msix_fail is not None:
+                        self.cfg_interrupt_msix_fail.value = 1
 
             # MSI/MSI-X
             # cfg_interrupt_msi_tph_present
-- 
2.43.0


From b835db6cf73f9c4c1d8fca4f90af6c23f48a9f6f Mon Sep 17 00:00:00 2001
From: vf <a@b>
Date: Thu, 19 Nov 2026 23:21:07 +0000
Subject: [PATCH 46/61] fix: selecting receive credits consumed on the
 UltraScale+ flow control interface raised AttributeError

---
 cocotbext/pcie/xilinx/us/usp_model.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index 9634e84..0f01842 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -1477,12 +1477,12 @@ class UltraScalePlusPcieDevice(Device):
 
             if (sel == 0b010):
                 # Receive credits consumed
-                cfg_fc_ph = self.upstream_port.fc_state[0].ph.rx_credits_consumed
-                cfg_fc_pd = self.upstream_port.fc_state[0].pd.rx_credits_consumed
-                cfg_fc_nph = self.upstream_port.fc_state[0].nph.rx_credits_consumed
-                cfg_fc_npd = self.upstream_port.fc_state[0].npd.rx_credits_consumed
-                cfg_fc_cplh = self.upstream_port.fc_state[0].cplh.rx_credits_consumed
-                cfg_fc_cpld = self.upstream_port.fc_state[0].cpld.rx_credits_consumed
+                cfg_fc_ph = self.upstream_port.fc_state[0].ph.rx_credits_received
+                cfg_fc_pd = self.upstream_port.fc_state[0].pd.rx_credits_received
+                cfg_fc_nph = self.upstream_port.fc_state[0].nph.rx_credits_received
+                cfg_fc_npd = self.upstream_port.fc_state[0].npd.rx_credits_received
+                cfg_fc_cplh = self.upstream_port.fc_state[0].cplh.rx_credits_received
+                cfg_fc_cpld = self.upstream_port.fc_state[0].cpld.rx_credits_received
             elif (sel == 0b100):
                 # Transmit credits available
                 cfg_fc_ph = self.upstream_port.fc_state[0].ph.tx_credits_available
-- 
2.43.0


From 61ecb7cc9f38326ab1a3f174567a43d38d75f599 Mon Sep 17 00:00:00 2001
From: vf <a@b>
Date: Thu, 19 Nov 2026 23:21:07 +0000
Subject: [PATCH 47/61] fix: cfg_function_status reported memory and I/O space
 enable from bus master enable

---
 cocotbext/pcie/xilinx/us/us_model.py  | 6 +++++-
 cocotbext/pcie/xilinx/us/usp_model.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index 6f774f4..8e12334 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -1252,8 +1252,12 @@ class UltraScalePcieDevice(Device):
             if self.cfg_function_status is not None:
                 status = 0
                 for k in range(len(self.functions)):
+                    if self.functions[k].io_space_enable:
+                        status |= 0x01 << k*4
+                    if self.functions[k].memory_space_enable:
+                        status |= 0x02 << k*4
                     if self.functions[k].bus_master_enable:
-                        status |= 0x07 << k*4
+                        status |= 0x04 << k*4
                     if self.functions[k].interrupt_disable:
                         status |= 0x08 << k*4
                 self.cfg_function_status.value = status
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index 0f01842..5c6ee82 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -1403,8 +1403,12 @@ class UltraScalePlusPcieDevice(Device):
             if self.cfg_function_status is not None:
                 status = 0
                 for k in range(len(self.functions)):
+                    if self.functions[k].io_space_enable:
+                        status |= 0x01 << k*4
+                    if self.functions[k].memory_space_enable:
+                        status |= 0x02 << k*4
                     if self.functions[k].bus_master_enable:
-                        status |= 0x07 << k*4
+                        status |= 0x04 << k*4
                     if self.functions[k].interrupt_disable:
                         status |= 0x08 << k*4
                 self.cfg_function_status.value = status
-- 
2.43.0


From 35c60a37a04bcf6d959bfbdd41382e11d2ea2ba4 Mon Sep 17 00:00:00 2001
From: vf <a@b>
Date: Thu, 19 Nov 2026 23:21:07 +0000
Subject: [PATCH 48/61] fix: UltraScale+ MSI enable and multiple message enable
 outputs omitted functions 2 and 3

---
 cocotbext/pcie/xilinx/us/usp_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index 5c6ee82..e27cff3 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -1616,7 +1616,7 @@ class UltraScalePlusPcieDevice(Device):
             # MSI
             if self.cfg_interrupt_msi_enable is not None:
                 val = 0
-                for k in range(min(len(self.functions), 2)):
+                for k in range(min(len(self.functions), 4)):
                     if self.functions[k].msi_cap.msi_enable:
                         val |= 1 << k
                 self.cfg_interrupt_msi_enable.value = val
@@ -1644,7 +1644,7 @@ class UltraScalePlusPcieDevice(Device):
 
             if self.cfg_interrupt_msi_mmenable is not None:
                 val = 0
-                for k in range(min(len(self.functions), 2)):
+                for k in range(min(len(self.functions), 4)):
                     val |= (self.functions[k].msi_cap.msi_multiple_message_enable & 0x7) << k*3
                 self.cfg_interrupt_msi_mmenable.value = val
 
-- 
2.43.0


From ebe42ba739fa17099c97a2617b0ab8370f5d28e2 Mon Sep 17 00:00:00 2001
From: vf <a@b>
Date: Thu, 19 Nov 2026 23:21:07 +0000
Subject: [PATCH 49/61] fix: UltraScale+ MSI vector count of physical functions
 2 and 3 was computed incorrectly

---
 cocotbext/pcie/xilinx/us/usp_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index e27cff3..1fd92e3 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -828,7 +828,7 @@ class UltraScalePlusPcieDevice(Device):
             self.make_function()
 
             if self.pf2_msi_enable:
-                self.functions[2].msi_cap.msi_multiple_message_capable = (self.pf2_msi_count-2).bit_length()
+                self.functions[2].msi_cap.msi_multiple_message_capable = (self.pf2_msi_count-1).bit_length()
             else:
                 self.functions[2].deregister_capability(self.functions[2].msi_cap)
 
@@ -845,7 +845,7 @@ class UltraScalePlusPcieDevice(Device):
             self.make_function()
 
             if self.pf3_msi_enable:
-                self.functions[3].msi_cap.msi_multiple_message_capable = (self.pf3_msi_count-3).bit_length()
+                self.functions[3].msi_cap.msi_multiple_message_capable = (self.pf3_msi_count-1).bit_length()
             else:
                 self.functions[3].deregister_capability(self.functions[3].msi_cap)
 
-- 
2.43.0


From 644fc460c8b1cad9f7491a058ea6713e28ca97f3 Mon Sep 17 00:00:00 2001
From: vf <a@b>
Date: Thu, 19 Nov 2026 23:23:56 +0000
Subject: [PATCH 50/61] fix: MSI vectors unmasked while bus mastering is
 disabled raised an exception and lost the message

---
 cocotbext/pcie/core/caps/msi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/caps/msi.py b/cocotbext/pcie/core/caps/msi.py
index b5c4b05..4b3f7bc 100644
--- a/cocotbext/pcie/core/caps/msi.py
+++ b/cocotbext/pcie/core/caps/msi.py
@@ -169,7 +169,7 @@ class MsiCapability(PciCap):
 
     def _issue_pending_msi_interrupts(self):
         # send pending messages that are not masked any more
-        if not self.msi_enable or not self.msi_per_vector_mask_capable:
+        if not self.msi_enable or not self.msi_per_vector_mask_capable or not self.parent.bus_master_enable:
             return
         for number in range(2**min(self.msi_multiple_message_enable, self.msi_multiple_message_capable)):
             if self.msi_pending_bits & ~self.msi_mask_bits & 1 << number:
-- 
2.43.0


From 1e36a3bc4a90a09b2fdd640f8b4e0c9310c839f8 Mon Sep 17 00:00:00 2001
From: vf <a@b>
Date: Thu, 19 Nov 2026 23:49:57 +0000
Subject: [PATCH 51/61] fix: function number of Stratix 10 segments after the
 first was misplaced

---
 cocotbext/pcie/intel/s10/interface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/intel/s10/interface.py b/cocotbext/pcie/intel/s10/interface.py
index fab4a5e..13d5aa4 100644
--- a/cocotbext/pcie/intel/s10/interface.py
+++ b/cocotbext/pcie/intel/s10/interface.py
@@ -447,7 +447,7 @@ class S10PcieSource(S10PcieBase):
                         transaction.sop |= 1 << seg
 
                     transaction.bar_range |= frame.bar_range << seg*3
-                    transaction.func_num |= frame.func_num << seg*3
+                    transaction.func_num |= frame.func_num << seg*2
                     if frame.vf_num is not None:
                         transaction.vf_active |= 1 << seg
                         transaction.vf_num |= frame.vf_num << seg*11
@@ -612,7 +612,7 @@ class S10PcieSink(S10PcieBase):
                         dword_count += count
 
                     frame.bar_range = (int(sample.bar_range) >> seg*3) & 0x7
-                    frame.func_num = (int(sample.func_num) >> seg*3) & 0x7
+                    frame.func_num = (int(sample.func_num) >> seg*2) & 0x3
                     if int(sample.vf_active) & (1 << seg):
                         frame.vf_num = (int(sample.vf_num) >> seg*11) & 0x7ff
                     frame.err = (int(sample.err) >> seg) & 0x1
-- 
2.43.0


From 04c192a890a00d9372da230df1a10b4b3467d7ff Mon Sep 17 00:00:00 2001
From: vf <a@b>
Date: Thu, 19 Nov 2026 23:49:57 +0000
Subject: [PATCH 52/61] fix: tlp_abort of P-Tile frames was not transferred

---
 cocotbext/pcie/intel/ptile/interface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cocotbext/pcie/intel/ptile/interface.py b/cocotbext/pcie/intel/ptile/interface.py
index cdf0c85..3a3d9d5 100644
--- a/cocotbext/pcie/intel/ptile/interface.py
+++ b/cocotbext/pcie/intel/ptile/interface.py
@@ -490,6 +490,7 @@ class PTilePcieSource(PTilePcieBase):
                         transaction.vf_active |= 1 << seg
                         transaction.vf_num |= frame.vf_num << seg*11
                     transaction.err |= frame.err << seg
+                    transaction.tlp_abort |= frame.tlp_abort << seg
 
                     empty = 0
                     if frame.data:
@@ -652,6 +653,7 @@ class PTilePcieSink(PTilePcieBase):
                     if int(sample.vf_active) & (1 << seg):
                         frame.vf_num = (int(sample.vf_num) >> seg*11) & 0x7ff
                     frame.err = (int(sample.err) >> seg) & 0x1
+                    frame.tlp_abort = (int(sample.tlp_abort) >> seg) & 0x1
 
                 assert frame is not None, "framing error: data transferred outside of frame"
 
-- 
2.43.0


From 4c7fdef28a26ca05b58584f2ed233bf43a1d254c Mon Sep 17 00:00:00 2001
From: vf <a@b>
Date: Fri, 20 Nov 2026 00:24:18 +0000
Subject: [PATCH 53/61] fix: Intel models reported requests to the function
 number of their requester

---
 cocotbext/pcie/intel/ptile/ptile_model.py | 4 ++--
 cocotbext/pcie/intel/s10/s10_model.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cocotbext/pcie/intel/ptile/ptile_model.py b/cocotbext/pcie/intel/ptile/ptile_model.py
index c9a3e16..73ad495 100644
--- a/cocotbext/pcie/intel/ptile/ptile_model.py
+++ b/cocotbext/pcie/intel/ptile/ptile_model.py
@@ -817,7 +817,7 @@ class PTilePcieDevice(Device):
                     frame = PTilePcieFrame.from_tlp(tlp)
 
                     frame.bar_range = 6
-                    frame.func_num = tlp.requester_id.function
+                    frame.func_num = f.pcie_id.function
 
                     await self.rx_queue.put((tlp, frame))
 
@@ -838,7 +838,7 @@ class PTilePcieDevice(Device):
                     frame = PTilePcieFrame.from_tlp(tlp)
 
                     frame.bar_range = bar[0]
-                    frame.func_num = tlp.requester_id.function
+                    frame.func_num = f.pcie_id.function
 
                     await self.rx_queue.put((tlp, frame))
 
diff --git a/cocotbext/pcie/intel/s10/s10_model.py b/cocotbext/pcie/intel/s10/s10_model.py
index dffcab5..c279312 100644
--- a/cocotbext/pcie/intel/s10/s10_model.py
+++ b/cocotbext/pcie/intel/s10/s10_model.py
@@ -671,7 +671,7 @@ class S10PcieDevice(Device):
                     frame = S10PcieFrame.from_tlp(tlp)
 
                     frame.bar_range = 6
-                    frame.func_num = tlp.requester_id.function
+                    frame.func_num = f.pcie_id.function
 
                     await self.rx_queue.put((tlp, frame))
 
@@ -692,7 +692,7 @@ class S10PcieDevice(Device):
                     frame = S10PcieFrame.from_tlp(tlp)
 
                     frame.bar_range = bar[0]
-                    frame.func_num = tlp.requester_id.function
+                    frame.func_num = f.pcie_id.function
 
                     await self.rx_queue.put((tlp, frame))
 
-- 
2.43.0


From 90cfaaed3ad02fb38c6649bbd249f90819f78135 Mon Sep 17 00:00:00 2001
From: vf <a@b>
Date: Fri, 20 Nov 2026 00:24:19 +0000
Subject: [PATCH 54/61] fix: Stratix 10 model truncated the MSI message count
 of PF2 and PF3

---
 cocotbext/pcie/intel/s10/s10_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/intel/s10/s10_model.py b/cocotbext/pcie/intel/s10/s10_model.py
index c279312..cdbea0a 100644
--- a/cocotbext/pcie/intel/s10/s10_model.py
+++ b/cocotbext/pcie/intel/s10/s10_model.py
@@ -553,7 +553,7 @@ class S10PcieDevice(Device):
             self.make_function()
 
             if self.pf2_msi_enable:
-                self.functions[2].msi_cap.msi_multiple_message_capable = (self.pf2_msi_count-2).bit_length()
+                self.functions[2].msi_cap.msi_multiple_message_capable = (self.pf2_msi_count-1).bit_length()
             else:
                 self.functions[2].deregister_capability(self.functions[2].msi_cap)
 
@@ -570,7 +570,7 @@ class S10PcieDevice(Device):
             self.make_function()
 
             if self.pf3_msi_enable:
-                self.functions[3].msi_cap.msi_multiple_message_capable = (self.pf3_msi_count-3).bit_length()
+                self.functions[3].msi_cap.msi_multiple_message_capable = (self.pf3_msi_count-1).bit_length()
             else:
                 self.functions[3].deregister_capability(self.functions[3].msi_cap)
 
-- 
2.43.0


From 927bfcb91ac89827518fb58bafd7ba513b8ff9b1 Mon Sep 17 00:00:00 2001
From: vf <a@b>
Date: Fri, 20 Nov 2026 00:24:19 +0000
Subject: [PATCH 55/61] fix: Stratix 10 MSI requests that cannot be sent
 stopped the interrupt interface

---
 cocotbext/pcie/intel/s10/s10_model.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cocotbext/pcie/intel/s10/s10_model.py b/cocotbext/pcie/intel/s10/s10_model.py
index cdbea0a..a7f4b6c 100644
--- a/cocotbext/pcie/intel/s10/s10_model.py
+++ b/cocotbext/pcie/intel/s10/s10_model.py
@@ -31,7 +31,7 @@ from cocotbext.pcie.core import Device, Endpoint, __version__
 from cocotbext.pcie.core.caps import MsiCapability, MsixCapability
 from cocotbext.pcie.core.caps import AerExtendedCapability, PcieExtendedCapability
 from cocotbext.pcie.core.utils import PcieId
-from cocotbext.pcie.core.tlp import Tlp, TlpType
+from cocotbext.pcie.core.tlp import Tlp, TlpType, TlpTc
 
 from .interface import S10PcieFrame, S10PcieSource, S10PcieSink
 
@@ -834,8 +834,11 @@ class S10PcieDevice(Device):
             # issue MSI interrupt
             app_msi_func_num = int(self.app_msi_func_num.value)
             app_msi_num = int(self.app_msi_num.value)
-            app_msi_tc = int(self.app_msi_tc.value)
-            await self.functions[app_msi_func_num].msi_cap.issue_msi_interrupt(app_msi_num, tc=app_msi_tc)
+            app_msi_tc = TlpTc(int(self.app_msi_tc.value))
+            try:
+                await self.functions[app_msi_func_num].msi_cap.issue_msi_interrupt(app_msi_num, tc=app_msi_tc)
+            except Exception as e:
+                self.log.warning("Failed to issue MSI interrupt %d on function %d: %r", app_msi_num, app_msi_func_num, e)
 
             self.app_msi_ack.value = 1
             await clock_edge_event
-- 
2.43.0


From b5d233d54935a6ec5982e1c7161ee47efabb3f6d Mon Sep 17 00:00:00 2001
From: vf <a@b>
Date: Fri, 20 Nov 2026 00:24:19 +0000
Subject: [PATCH 56/61] fix: L-tile configuration output misplaced the AER
 interrupt message number

---
 cocotbext/pcie/intel/s10/s10_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/intel/s10/s10_model.py b/cocotbext/pcie/intel/s10/s10_model.py
index a7f4b6c..3769a63 100644
--- a/cocotbext/pcie/intel/s10/s10_model.py
+++ b/cocotbext/pcie/intel/s10/s10_model.py
@@ -972,7 +972,7 @@ class S10PcieDevice(Device):
                 val = bool(func.pcie_cap.system_error_on_fatal_error_enable) << 31
                 val |= bool(func.pcie_cap.system_error_on_non_fatal_error_enable) << 30
                 val |= bool(func.pcie_cap.system_error_on_correctable_error_enable) << 29
-                val |= (func.aer_ext_cap.advanced_error_interrupt_message_number & 0x1f) << 28
+                val |= (func.aer_ext_cap.advanced_error_interrupt_message_number & 0x1f) << 24
                 val |= (func.pcie_cap.negotiated_link_width & 0x3f) << 18
                 val |= bool(func.pm_cap.no_soft_reset) << 17
                 val |= bool(func.pcie_cap.read_completion_boundary) << 16
-- 
2.43.0


From f1d23dc04e72af0acb6fe6fada48df902eaf312f Mon Sep 17 00:00:00 2001
From: vf <a@b>
Date: Fri, 20 Nov 2026 00:24:19 +0000
Subject: [PATCH 57/61] fix: Intel models freed completion buffer space when
 delivering requests

---
 cocotbext/pcie/intel/ptile/ptile_model.py | 5 +++--
 cocotbext/pcie/intel/s10/s10_model.py     | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/cocotbext/pcie/intel/ptile/ptile_model.py b/cocotbext/pcie/intel/ptile/ptile_model.py
index 73ad495..644cd7b 100644
--- a/cocotbext/pcie/intel/ptile/ptile_model.py
+++ b/cocotbext/pcie/intel/ptile/ptile_model.py
@@ -899,8 +899,9 @@ class PTilePcieDevice(Device):
             tlp, frame = await self.rx_queue.get()
             await self.rx_source.send(frame)
 
-            self.rx_buf_cplh_fc_count = max(self.rx_buf_cplh_fc_count-1, 0)
-            self.rx_buf_cpld_fc_count = max(self.rx_buf_cpld_fc_count-tlp.get_data_credits(), 0)
+            if tlp.fmt_type in {TlpType.CPL, TlpType.CPL_DATA, TlpType.CPL_LOCKED, TlpType.CPL_LOCKED_DATA}:
+                self.rx_buf_cplh_fc_count = max(self.rx_buf_cplh_fc_count-1, 0)
+                self.rx_buf_cpld_fc_count = max(self.rx_buf_cpld_fc_count-tlp.get_data_credits(), 0)
 
     async def _run_tx_logic(self):
         while True:
diff --git a/cocotbext/pcie/intel/s10/s10_model.py b/cocotbext/pcie/intel/s10/s10_model.py
index 3769a63..dd57020 100644
--- a/cocotbext/pcie/intel/s10/s10_model.py
+++ b/cocotbext/pcie/intel/s10/s10_model.py
@@ -757,8 +757,9 @@ class S10PcieDevice(Device):
             tlp, frame = await self.rx_queue.get()
             await self.rx_source.send(frame)
 
-            self.rx_buf_cplh_fc_count = max(self.rx_buf_cplh_fc_count-1, 0)
-            self.rx_buf_cpld_fc_count = max(self.rx_buf_cpld_fc_count-tlp.get_data_credits(), 0)
+            if tlp.fmt_type in {TlpType.CPL, TlpType.CPL_DATA, TlpType.CPL_LOCKED, TlpType.CPL_LOCKED_DATA}:
+                self.rx_buf_cplh_fc_count = max(self.rx_buf_cplh_fc_count-1, 0)
+                self.rx_buf_cpld_fc_count = max(self.rx_buf_cpld_fc_count-tlp.get_data_credits(), 0)
 
     async def _run_tx_logic(self):
         while True:
-- 
2.43.0


From c826cb02149d418fd87d91865d206e09cf5d5bf0 Mon Sep 17 00:00:00 2001
From: vf <a@b>
Date: Fri, 20 Nov 2026 00:24:19 +0000
Subject: [PATCH 58/61] fix: P-Tile model selected a link width its port does
 not support

---
 cocotbext/pcie/intel/ptile/ptile_model.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/cocotbext/pcie/intel/ptile/ptile_model.py b/cocotbext/pcie/intel/ptile/ptile_model.py
index 644cd7b..add1b09 100644
--- a/cocotbext/pcie/intel/ptile/ptile_model.py
+++ b/cocotbext/pcie/intel/ptile/ptile_model.py
@@ -572,13 +572,12 @@ class PTilePcieDevice(Device):
                 if self.pld_clk_frequency is not None and self.pld_clk_frequency != config[3]:
                     continue
 
-                if self.pcie_link_width is not None:
-                    if self.port_num == 1 and config[1] > 8:
-                        # port 1 only supports x4 and x8
-                        continue
-                    if self.port_num >= 2 and config[1] > 4:
-                        # ports 2 and 3 only supports x4
-                        continue
+                if self.port_num == 1 and config[1] > 8:
+                    # port 1 only supports x4 and x8
+                    continue
+                if self.port_num >= 2 and config[1] > 4:
+                    # ports 2 and 3 only supports x4
+                    continue
 
                 # set the unspecified parameters
                 if self.pcie_generation is None:
-- 
2.43.0


From 48355769c78abc44d59a79ce1c361c526ec94eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:23 +0000
Subject: [PATCH 59/61] fix: capability accesses of the root complex raised
 AttributeError

RootComplex.capability_read and capability_write looked the device up with a
method that no longer exists.
---
 cocotbext/pcie/core/rc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/core/rc.py b/cocotbext/pcie/core/rc.py
index f9dc0aa..8026b31 100644
--- a/cocotbext/pcie/core/rc.py
+++ b/cocotbext/pcie/core/rc.py
@@ -676,7 +676,7 @@ class RootComplex(Switch):
         await self.config_write_qwords(dev, addr, [data], byteorder, timeout, timeout_unit)
 
     async def capability_read(self, dev, cap_id, addr, length, timeout=0, timeout_unit='ns'):
-        ti = self.host_bridge.find_child_dev(dev)
+        ti = self.host_bridge.find_device(dev)
 
         if not ti:
             raise Exception("Device not found")
@@ -714,7 +714,7 @@ class RootComplex(Switch):
         return (await self.capability_read_qwords(dev, cap_id, addr, 1, byteorder, timeout, timeout_unit))[0]
 
     async def capability_write(self, dev, cap_id, addr, data, timeout=0, timeout_unit='ns'):
-        ti = self.host_bridge.find_child_dev(dev)
+        ti = self.host_bridge.find_device(dev)
 
         if not ti:
             raise Exception("Device not found")
-- 
2.43.0


From 9831f7991140c1e4e8ff46dc26e418e9f974b86f Mon Sep 17 00:00:00 2001
From: vf <a@b>
Date: Fri, 20 Nov 2026 03:23:50 +0000
Subject: [PATCH 60/61] fix: a bridge reports a target abort it signals on its
 secondary side in the secondary status register

---
 cocotbext/pcie/core/bridge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/bridge.py b/cocotbext/pcie/core/bridge.py
index 0f183bf..0d7c7d0 100644
--- a/cocotbext/pcie/core/bridge.py
+++ b/cocotbext/pcie/core/bridge.py
@@ -452,7 +452,7 @@ class Bridge(Function):
         if self.match_tlp_secondary(tlp):
             if tlp.is_completion() and tlp.status == CplStatus.CA:
                 self.log.warning("Sending completion with CA status on secondary interface, reporting target abort")
-                self.signaled_target_abort = True
+                self.sec_signaled_target_abort = True
             await self.route_downstream_tlp(tlp, False)
         else:
             if tlp.is_completion() and tlp.status == CplStatus.CA:
-- 
2.43.0


From 448513f34be711d08b224bcc644314d0b2e2c034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:45 +0000
Subject: [PATCH 61/61] fix: endpoints can sit directly on the internal bus of
 a switch or root complex

---
 cocotbext/pcie/core/function.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cocotbext/pcie/core/function.py b/cocotbext/pcie/core/function.py
index 2e3fc32..8c72d65 100644
--- a/cocotbext/pcie/core/function.py
+++ b/cocotbext/pcie/core/function.py
@@ -425,6 +425,10 @@ class Function:
             raise Exception("TODO")
         return False
 
+    def match_tlp_secondary(self, tlp):
+        # nothing behind an endpoint
+        return False
+
     async def upstream_send(self, tlp):
         self.log.debug("Sending upstream TLP: %r", tlp)
         assert tlp.check()
-- 
2.43.0

