From 64ba592744d4c1460563a166cfd081e43982a9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 001/187] fix: reject Compact SSR orbit/clock/bias messages
 whose IOD SSR differs from the mask in force

---
 src/cssrlib/cssrlib.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 00800c3..f63915a 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -693,6 +693,8 @@ class cssr:
     def decode_cssr_orb(self, msg, i, inet=0):
         """decode MT4073,2 Orbit Correction message """
         head, i = self.decode_head(msg, i)
+        if self.iodssr != head['iodssr']:
+            return -1
         self.flg_net = False
         self.udi[sCType.ORBIT] = head['udi']
         self.lc[inet].dorb = {}
@@ -712,8 +714,8 @@ class cssr:
         head, i = self.decode_head(msg, i)
         self.flg_net = False
         self.udi[sCType.CLOCK] = head['udi']
-        # if self.iodssr != head['iodssr']:
-        #    return -1
+        if self.iodssr != head['iodssr']:
+            return -1
 
         if (self.lc[0].cstat & (1 << sCType.MASK)) != (1 << sCType.MASK):
             return -1
@@ -740,6 +742,8 @@ class cssr:
     def decode_cssr_cbias(self, msg, i, inet=0):
         """decode MT4073,4 Code Bias Correction message """
         head, i = self.decode_head(msg, i)
+        if self.iodssr != head['iodssr']:
+            return -1
         nsat = self.nsat_n
         self.flg_net = False
         self.udi[sCType.CBIAS] = head['udi']
@@ -760,6 +764,8 @@ class cssr:
     def decode_cssr_pbias(self, msg, i, inet=0):
         """decode MT4073,5 Phase Bias Correction message """
         head, i = self.decode_head(msg, i)
+        if self.iodssr != head['iodssr']:
+            return -1
         nsat = self.nsat_n
         self.flg_net = False
         self.udi[sCType.PBIAS] = head['udi']
@@ -784,8 +790,8 @@ class cssr:
         nsat = self.nsat_n
         head, i = self.decode_head(msg, i)
 
-        # if self.iodssr != head['iodssr']:
-        #    return -1
+        if self.iodssr != head['iodssr']:
+            return -1
         dfm = bs.unpack_from_dict('b1b1b1', ['cb', 'pb', 'net'], msg, i)
         self.flg_net = dfm['net']
         i += 3
-- 
2.43.0


From b036ac51d41b6edcbfc27afd24dd33da073bbbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 002/187] fix: decode Compact SSR bias messages without a
 network mask

---
 src/cssrlib/cssrlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index f63915a..95065fe 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -813,7 +813,7 @@ class cssr:
             self.udi[sCType.PBIAS] = head['udi']
         ki = 0
         for k in range(self.nsat_n):
-            if not self.isset(v['svmaskn'], self.nsat_n, k):
+            if dfm['net'] and not self.isset(v['svmaskn'], self.nsat_n, k):
                 continue
             sat = self.sat_n[k]
             if dfm['cb']:
-- 
2.43.0


From d8f2d707111f4210c8040cfe434a913d00523633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 003/187] fix: map the QZSS L1C pilot signal of Compact SSR to
 L1L

---
 src/cssrlib/cssrlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 95065fe..e07344a 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -431,7 +431,7 @@ class cssr:
         qzs_tbl = {
             sSigQZS.L1C: uSIG.L1C,
             sSigQZS.L1S: uSIG.L1S,
-            sSigQZS.L1L: uSIG.L1C,
+            sSigQZS.L1L: uSIG.L1L,
             sSigQZS.L1X: uSIG.L1X,
             sSigQZS.L2S: uSIG.L2S,
             sSigQZS.L2L: uSIG.L2L,
-- 
2.43.0


From a930f750eec6b61b9a669c04ed6019c3452e0fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:37 +0000
Subject: [PATCH 004/187] fix: expiry check of corrections fails for satellites
 without corrections

---
 src/cssrlib/cssrlib.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index e07344a..9d8008f 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -1214,10 +1214,14 @@ class cssr:
     def check_validity(self, time):
         """ check validity time of correction """
         for sat in self.sat_n:
-            if timediff(time, self.lc[0].t0[sat][sCType.CLOCK]) > \
+            if sat not in self.lc[0].t0:  # no correction received yet
+                continue
+            if self.lc[0].dclk is not None and \
+                timediff(time, self.lc[0].t0[sat][sCType.CLOCK]) > \
                     self.tmax[sCType.CLOCK]:
                 self.lc[0].dclk[sat] = 0.0
-            if timediff(time, self.lc[0].t0[sat][sCType.ORBIT]) > \
+            if self.lc[0].dorb is not None and \
+                timediff(time, self.lc[0].t0[sat][sCType.ORBIT]) > \
                     self.tmax[sCType.ORBIT]:
                 self.lc[0].iode[sat] = -1
                 self.lc[0].dorb[sat] = np.zeros(3)
-- 
2.43.0


From 7ad0c7ac878e5ee5f6789b05e2a569587c91c600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 005/187] fix: ignore Galileo HAS corrections that refer to a
 mask not received

---
 src/cssrlib/cssr_has.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/cssr_has.py b/src/cssrlib/cssr_has.py
index e9577f4..aa3194b 100644
--- a/src/cssrlib/cssr_has.py
+++ b/src/cssrlib/cssr_has.py
@@ -86,7 +86,7 @@ class cssr_has(cssr):
         # time of hour
         # flags: mask,orbit,clock,clock subset,cbias,pbias,mask_id,iodset_id
         try:
-            self.toh, flags, res, mask_id, self.iodssr = \
+            self.toh, flags, res, mask_id, iodssr = \
                 bs.unpack_from('u12u6u4u5u5', msg, i)
         except:
             print(f"invalid content={self.msgtype}")
@@ -95,12 +95,18 @@ class cssr_has(cssr):
 
         if self.monlevel > 0 and self.fh is not None:
             self.fh.write("##### Galileo HAS SSR: TOH{:6d} flags={:12s} mask_id={:2d} iod_s={:1d}\n"
-                          .format(self.toh, bin(flags), mask_id, self.iodssr))
+                          .format(self.toh, bin(flags), mask_id, iodssr))
 
         if self.toh >= 3600:
             print(f"invalid TOH={self.toh}")
             return False
 
+        if not (flags >> 5) & 1 and mask_id != self.mask_id:
+            print(f"mask not available mask_id={mask_id}")
+            return False
+
+        self.iodssr = iodssr
+
         if (flags >> 5) & 1:  # mask block
             self.mask_id = mask_id
             self.subtype = sCSSR.MASK
-- 
2.43.0


From 568093e34ac75b9276405793a1fb447bfd3cdb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 006/187] fix: decode the Galileo HAS clock subset block

---
 src/cssrlib/cssr_has.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/cssrlib/cssr_has.py b/src/cssrlib/cssr_has.py
index aa3194b..acc1d18 100644
--- a/src/cssrlib/cssr_has.py
+++ b/src/cssrlib/cssr_has.py
@@ -9,7 +9,7 @@ Galileo HAS correction data decoder
 import numpy as np
 import bitstruct as bs
 import galois
-from cssrlib.cssrlib import cssr, sCSSR, sCSSRTYPE
+from cssrlib.cssrlib import cssr, sCSSR, sCSSRTYPE, sCType
 from cssrlib.gnss import gpst2time
 from binascii import unhexlify
 
@@ -41,20 +41,26 @@ class cssr_has(cssr):
         if self.iodssr != head['iodssr']:
             return -1
 
+        if self.lc[0].dclk is None:
+            self.lc[0].dclk = {}
+
         nclk_sub = bs.unpack_from('u4', msg, i)[0]
         i += 4
         for j in range(nclk_sub):
             gnss, dcm = bs.unpack_from('u4u2', msg, i)
             i += 6
-            idx_s = np.where(np.array(self.gnss_n) == gnss)
-            mask_s = bs.unpack_from('u'+str(self.nsat_g[gnss]), msg, i)[0]
-            i += self.nsat_g[gnss]
-            idx, nclk = self.decode_mask(mask_s, self.nsat_g[gnss])
+            sat_g = [s for s, g in zip(self.sat_n, self.gnss_n) if g == gnss]
+            nsat = self.nsat_g[gnss]
+            mask_s = bs.unpack_from('u'+str(nsat), msg, i)[0]
+            i += nsat
+            idx, nclk = self.decode_mask(mask_s, nsat, 0)
             for k in range(nclk):
-                dclk = bs.unpack_from('s'+str(self.dclk_blen), msg, i) \
-                    * self.dclk_scl*(dcm+1)
-                self.lc[0].dclk[idx_s[idx[k]]] = dclk
+                dclk = bs.unpack_from('s'+str(self.dclk_blen), msg, i)[0]
                 i += self.dclk_blen
+                sat = sat_g[idx[k]]
+                self.lc[0].dclk[sat] = self.sval(
+                    dclk, self.dclk_blen, self.dclk_scl)*(dcm+1)
+                self.set_t0(0, sat, sCType.CLOCK, self.time)
         return i
 
     def decode_head(self, msg, i, st=-1):
-- 
2.43.0


From 0ed55bc94eaac4aff25b78e52553438d088f1406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 007/187] fix: restart the HAS page time-out when a new message
 is collected

---
 src/cssrlib/cssr_has.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/cssr_has.py b/src/cssrlib/cssr_has.py
index acc1d18..35bea74 100644
--- a/src/cssrlib/cssr_has.py
+++ b/src/cssrlib/cssr_has.py
@@ -211,6 +211,7 @@ class cnav_msg():
             if self.mid_ == -1 and mid not in self.mid_decoded:
                 self.mid_ = mid
                 self.ms_ = ms
+                self.icnt = 0
             if mid == self.mid_ and pid-1 not in self.rec:
                 page = bs.unpack_from('u8'*53, buff, i)
                 self.rec += [pid-1]
-- 
2.43.0


From bbb147bbf28b7f4caff7156cf3f30f0d5373f2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 008/187] fix: HAS message decoding fails when more than 32
 pages are collected

---
 src/cssrlib/cssr_has.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/cssr_has.py b/src/cssrlib/cssr_has.py
index 35bea74..62c8397 100644
--- a/src/cssrlib/cssr_has.py
+++ b/src/cssrlib/cssr_has.py
@@ -174,8 +174,9 @@ class cnav_msg():
     def decode_has_page(self, idx, has_pages, gMat, ms):
         """ HPVRS decoding for RS(255,32,224) """
         HASmsg = bytes()
-        k = len(idx)
-        if k >= ms:
+        if len(idx) >= ms:
+            k = ms
+            idx = idx[:k]
             Wd = self.GF(has_pages[idx, :])  # kx53
             Dinv = np.linalg.inv(self.GF(gMat[idx, :k]))  # kxk
             Md = Dinv@Wd  # decoded message (kx53)
-- 
2.43.0


From be28476decfaff3157214ca0840a9b30736fa00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 009/187] fix: L6 message assembly fails when the next subframe
 starts are lost

---
 src/cssrlib/cssrlib.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 9d8008f..0579b11 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -1429,6 +1429,10 @@ class cssr:
             print(f"facility changed: {facility_p} -> {facility}")
             return -1
 
+        if 1695*(self.fcnt+1) > len(self.buff)*8:  # start of subframe lost
+            self.fcnt = -1
+            return -1
+
         copy_buff(msg, self.buff, i, 1695*self.fcnt, 1695)
         self.fcnt = self.fcnt + 1
 
-- 
2.43.0


From 7c898c47d6da3633a84b77477ed62fed6fa185b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:27 +0000
Subject: [PATCH 010/187] fix: computing satellite positions alters the stored
 SBAS/PVS orbit corrections

---
 src/cssrlib/ephemeris.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index 5a1c699..8b2b744 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -356,7 +356,7 @@ def satpos(sat, t, nav, cs=None, orb=None):
 
             if cs.cssrmode in (sc.PVS_PPP, sc.SBAS_L1, sc.SBAS_L5):
 
-                dorb += cs.lc[0].dvel[sat] * \
+                dorb = dorb + cs.lc[0].dvel[sat] * \
                     (timediff(t, cs.lc[0].t0[sat][sCType.ORBIT]))
 
             if cs.cssrmode == sc.BDS_PPP:  # consistency check for IOD corr
@@ -588,7 +588,7 @@ def satposs(obs, nav, cs=None, orb=None):
                 dorb = cs.lc[0].dorb[sat]  # radial,along-track,cross-track
 
                 if cs.cssrmode in (sc.PVS_PPP, sc.SBAS_L1, sc.SBAS_L5):
-                    dorb += cs.lc[0].dvel[sat] * \
+                    dorb = dorb + cs.lc[0].dvel[sat] * \
                         (timediff(obs.t, cs.lc[0].t0[sat][sCType.ORBIT]))
 
                 if cs.cssrmode == sc.BDS_PPP:  # consistency check for IOD corr
-- 
2.43.0


From 041700454f9b51339d534504b953ff0cd9ce571b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 011/187] fix: satellite position fails when the clock
 correction was not received yet

---
 src/cssrlib/ephemeris.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index 8b2b744..61a8bb5 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -361,9 +361,9 @@ def satpos(sat, t, nav, cs=None, orb=None):
 
             if cs.cssrmode == sc.BDS_PPP:  # consistency check for IOD corr
 
-                if cs.lc[0].iodc[sat] == cs.lc[0].iodc_c[sat]:
+                if cs.lc[0].iodc[sat] == cs.lc[0].iodc_c.get(sat):
                     dclk = cs.lc[0].dclk[sat]
-                elif cs.lc[0].iodc[sat] == cs.lc[0].iodc_c_p[sat]:
+                elif cs.lc[0].iodc[sat] == cs.lc[0].iodc_c_p.get(sat):
                     dclk = cs.lc[0].dclk_p[sat]
                 else:
                     return rs, vs, dts, svh
@@ -385,6 +385,9 @@ def satpos(sat, t, nav, cs=None, orb=None):
                     else:
                         return rs, vs, dts, svh
 
+                if sat not in cs.lc[0].dclk:
+                    return rs, vs, dts, svh
+
                 dclk = cs.lc[0].dclk[sat]
 
                 if cs.lc[0].cstat & (1 << sCType.HCLOCK) and \
@@ -593,10 +596,10 @@ def satposs(obs, nav, cs=None, orb=None):
 
                 if cs.cssrmode == sc.BDS_PPP:  # consistency check for IOD corr
 
-                    if cs.lc[0].iodc[sat] == cs.lc[0].iodc_c[sat]:
+                    if cs.lc[0].iodc[sat] == cs.lc[0].iodc_c.get(sat):
                         dclk = cs.lc[0].dclk[sat]
                     else:
-                        if cs.lc[0].iodc[sat] == cs.lc[0].iodc_c_p[sat]:
+                        if cs.lc[0].iodc[sat] == cs.lc[0].iodc_c_p.get(sat):
                             dclk = cs.lc[0].dclk_p[sat]
                         else:
                             continue
-- 
2.43.0


From aadd630774ca5eb0f3916cd02ee5f708bf2561d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 012/187] fix: carrier frequencies of the NavIC L5 and GLONASS
 G2a signals

---
 src/cssrlib/gnss.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index f5bd40f..bcfbc93 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -55,7 +55,7 @@ class rCST():
     FREQ_R2 = 1246.000e6     # [Hz] GLO G2   FDMA center frequency
     FREQ_R2k = 437.500e3     # [Hz] GLO G2   FDMA frequency separation
     FREQ_R1a = 1600.995e6    # [Hz] GLO G1a
-    FREQ_R2a = 1248.065e6    # [Hz] GLO G2a
+    FREQ_R2a = 1248.060e6    # [Hz] GLO G2a
     FREQ_R3 = 1202.025e6     # [Hz] GLO G3
 
     FREQ_E1 = 1575.42e6      # [Hz] GAL E1
@@ -81,7 +81,7 @@ class rCST():
     FREQ_S5 = 1176.45e6      # [Hz] SBS L5
 
     FREQ_I1 = 1575.42e6      # [Hz] IRS L1
-    FREQ_I5 = 1191.795e6     # [Hz] IRS L5
+    FREQ_I5 = 1176.45e6      # [Hz] IRS L5
     FREQ_IS = 2492.028e6     # [Hz] IRS S
 
     COS_5 = 0.9961946980917456
@@ -574,7 +574,7 @@ class rSigRnx():
                 return rCST.FREQ_R3
             elif int(self.sig / 100) == 4:
                 return rCST.FREQ_R1a
-            elif int(self.sig / 100) == 5:
+            elif int(self.sig / 100) in (5, 6):
                 return rCST.FREQ_R2a
             else:
                 return None
-- 
2.43.0


From ed1ada46eeb0e77f3dfe21b860cd394b4e96b8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 013/187] fix: check the tracking attribute of GPS observation
 codes

---
 src/cssrlib/gnss.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index bcfbc93..1104606 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -476,9 +476,9 @@ class rSigRnx():
         #
         if len(s) == 3:
             if sys == uGNSS.GPS:
-                if (s[1] == '1' and s[2] not in 'CSLXPWYM') or \
-                   (s[2] == '2' and s[2] not in 'CDSLXPWYMN') or \
-                   (s[2] == '5' and s[2] not in 'IQX'):
+                if (s[1] == '1' and s[2] not in 'CSLXPWYMN') or \
+                   (s[1] == '2' and s[2] not in 'CDSLXPWYMN') or \
+                   (s[1] == '5' and s[2] not in 'IQX'):
                     raise ValueError
             elif sys == uGNSS.GLO:
                 if (s[1] == '1' and s[2] not in 'CPX') or \
-- 
2.43.0


From 32dc868b9770f93c0cd20787eb97f06f97a5c274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:57 +0000
Subject: [PATCH 014/187] fix: reject truncated RTCM frames

---
 src/cssrlib/rtcm.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 65d8739..10dfff4 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -971,10 +971,14 @@ class rtcm(cssr, rtcmUtil):
 
     def checksum(self, msg, k, maxlen=0):
         """ check the checksum of the message """
+        if maxlen <= 0 or maxlen > len(msg):
+            maxlen = len(msg)
+        if k+3 > maxlen:
+            return False
         len_ = st.unpack_from('>H', msg, k+1)[0] & 0x3ff
         if len_ < 6:
             return False
-        if maxlen > 0 and k+len_ >= maxlen:
+        if k+len_+6 > maxlen:
             return False
         cs = Crc24LteA.calc(msg[k:k+len_+6])
         if self.monlevel > 0 and cs != 0:
-- 
2.43.0


From b8c37b1d238f46774d4d60bf2029a26386d2eb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:40 +0000
Subject: [PATCH 015/187] fix: leap seconds are applied twice to GLONASS time
 of RTCM messages

---
 src/cssrlib/gnss.py | 2 +-
 src/cssrlib/rtcm.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index 1104606..eea93b0 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -1015,7 +1015,7 @@ def glo2time(tref: gtime_t, tod):
     elif tod > tod_p+43200.0:
         tod -= 86400.0
     time = gpst2time(week, tow+tod)
-    return utc2gpst(timeadd(time, -10800.0))
+    return timeadd(time, -10800.0)
 
 
 def gpst2utc(t: gtime_t):
diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 10dfff4..c2f75b8 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -996,7 +996,7 @@ class rtcm(cssr, rtcmUtil):
             i += 17
             self.time = utc2gpst(glo2time(self.time, self.tod))
             if self.workaround_sc134:
-                self.time = timeadd(self.time, -36) # work-around
+                self.time = timeadd(self.time, -18) # work-around
         else:
             self.tow = bs.unpack_from('u20', msg, i)[0]   
             i += 20               
@@ -1535,7 +1535,7 @@ class rtcm(cssr, rtcmUtil):
             if sys == uGNSS.GLO:
                 t = utc2gpst(glo2time(self.time, tow))
                 if self.workaround_sc134:
-                    t = timeadd(t, -36) # work-around on sc134
+                    t = timeadd(t, -18) # work-around on sc134
                 return t
             else:
                 self.tow = tow
-- 
2.43.0


From 2a1bab9eda7f267183c62262f9524e3268d134be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:40 +0000
Subject: [PATCH 016/187] fix: scale of the SSR clock rate and acceleration
 terms

---
 src/cssrlib/rtcm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index c2f75b8..9d03716 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1087,8 +1087,8 @@ class rtcm(cssr, rtcmUtil):
         dclk, ddclk, dddclk = bs.unpack_from('s22s21s27', msg, i)
         i += 70
         self.dclk_n[k] = self.sval(dclk, 22, 0.1e-3)
-        self.ddclk_n[k] = self.sval(ddclk, 21, 0.4e-3)
-        self.dddclk_n[k] = self.sval(dddclk, 27, 4e-6)
+        self.ddclk_n[k] = self.sval(ddclk, 21, 1e-6)
+        self.dddclk_n[k] = self.sval(dddclk, 27, 2e-8)
         return i
 
     def decode_hclk_sat(self, msg, i, k, inet=0):
@@ -4618,8 +4618,8 @@ class rtcme(cssre, rtcmUtil):
         dclk = self.ival(self.lc[inet].dclk[sat], 22, 0.1e-3)
 
         if self.lc[inet].ddclk is not None:
-            ddclk = self.ival(self.lc[inet].ddclk[sat], 21, 0.4e-3)
-            dddclk = self.ival(self.lc[inet].dddclk[sat], 27, 4e-6)
+            ddclk = self.ival(self.lc[inet].ddclk[sat], 21, 1e-6)
+            dddclk = self.ival(self.lc[inet].dddclk[sat], 27, 2e-8)
         else:
             ddclk, dddclk = 0, 0
 
-- 
2.43.0


From 5a2b4fbec78c647a847bb9d016bfa4849f29dcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:40 +0000
Subject: [PATCH 017/187] fix: decode SSR high-rate clock messages

---
 src/cssrlib/rtcm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 9d03716..7959cf6 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1392,6 +1392,8 @@ class rtcm(cssr, rtcmUtil):
         self.udi[sCType.HCLOCK] = v['udi']
         self.mi = v['mi']
 
+        self.dclk_n = np.zeros(v['nsat'])
+
         for k in range(v['nsat']):
             i, sat_ = self.decode_sat(msg, i, sys)
             i = self.decode_hclk_sat(msg, i, k)
-- 
2.43.0


From e613789be1ff092ab6f6e298091fe60dc76865fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:40 +0000
Subject: [PATCH 018/187] fix: keep the clocks of combined SSR messages when
 other messages of the same epoch follow

---
 src/cssrlib/rtcm.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 7959cf6..6e3d228 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1311,13 +1311,15 @@ class rtcm(cssr, rtcmUtil):
             self.nsat_n = 0
             self.sys_n = []
             self.sat_n = []
-            self.lc[inet].dclk = {}
-            self.lc[inet].ddclk = {}
-            self.lc[inet].dddclk = {}
             self.lc[inet].iode = {}
             self.lc[inet].dorb = {}
             self.lc[inet].ddorb = {}
 
+        if timediff(self.time, self.lc[inet].t0s[sCType.CLOCK]) > 0:
+            self.lc[inet].dclk = {}
+            self.lc[inet].ddclk = {}
+            self.lc[inet].dddclk = {}
+
         self.iodssr = v['iodssr']
         self.udi[sCType.ORBIT] = v['udi']
         self.udi[sCType.CLOCK] = v['udi']
@@ -1349,6 +1351,7 @@ class rtcm(cssr, rtcmUtil):
         self.lc[inet].cstat |= (1 << sCType.ORBIT)
         self.lc[inet].cstat |= (1 << sCType.CLOCK)
         self.lc[inet].t0s[sCType.ORBIT] = self.time
+        self.lc[inet].t0s[sCType.CLOCK] = self.time
 
         return i
 
-- 
2.43.0


From 70048f7fb7d9058a9ecc5a9ae5b71f254b758b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:40 +0000
Subject: [PATCH 019/187] fix: VTEC messages destroy the reference times of the
 satellite numbered as VTEC

---
 src/cssrlib/rtcm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 6e3d228..e974f96 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1439,8 +1439,7 @@ class rtcm(cssr, rtcmUtil):
 
         self.iodssr_c[sCType.VTEC] = v['iodssr']
         self.lc[inet].cstat |= (1 << sCType.VTEC)
-        self.lc[inet].t0[sCType.VTEC] = self.time
-        self.set_t0(ctype=sCType.VTEC, t=self.time)
+        self.lc[inet].t0s[sCType.VTEC] = self.time
 
         return i
 
-- 
2.43.0


From 63cc97b8048186ea305220572aceefb618ff3045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:40 +0000
Subject: [PATCH 020/187] fix: SSR signal identifier of QZSS L1C pilot

---
 src/cssrlib/rtcm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index e974f96..699f2b2 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -570,7 +570,7 @@ class rtcmUtil:
         qzs_tbl = {
             0: uSIG.L1C,
             1: uSIG.L1S,
-            2: uSIG.L1C,
+            2: uSIG.L1L,
             3: uSIG.L2S,
             4: uSIG.L2L,
             5: uSIG.L2X,
@@ -924,7 +924,7 @@ class rtcm(cssr, rtcmUtil):
         qzs_tbl = {
             0: uSIG.L1C,
             1: uSIG.L1S,
-            2: uSIG.L1C,
+            2: uSIG.L1L,
             3: uSIG.L2S,
             4: uSIG.L2L,
             5: uSIG.L2X,
-- 
2.43.0


From 53dd258ff81902a77172d6f83bd89d50664a4f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:40 +0000
Subject: [PATCH 021/187] fix: time of IGS SSR messages

---
 src/cssrlib/rtcm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 699f2b2..19a6a2d 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1535,6 +1535,8 @@ class rtcm(cssr, rtcmUtil):
         sys, ssr = self.ssrtype(self.msgtype)
         if ssr > 0 or self.msgtype == 4076:
             sz = 20 if self.msgtype == 4076 or sys != uGNSS.GLO else 17
+            if self.msgtype == 4076:  # IGS SSR: version and subtype
+                i += 11
             tow = bs.unpack_from('u'+str(sz), msg, i)[0]
             if sys == uGNSS.GLO:
                 t = utc2gpst(glo2time(self.time, tow))
-- 
2.43.0


From 623fb1f73f1d23e1882b65cd1aa684f86058b721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:34 +0000
Subject: [PATCH 022/187] fix: quality index of SSR accuracy values is
 truncated

---
 src/cssrlib/cssrlib.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 0579b11..baac6ed 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -1517,8 +1517,7 @@ class cssre():
 
     def quality2qi(self, y):
         """ convert from quality to quality index (class, value) """
-        n3 = np.log(3)
-        n_ = np.log(y*1000+1)/n3
-        cls_ = int(n_)
-        val_ = int((np.exp((n_-cls_)*n3)-1)/0.25)
+        v = y*1000+1
+        cls_ = min(int(np.log(v)/np.log(3)+1e-9), 7)
+        val_ = min(round((v/3**cls_-1)/0.25), 7)
         return cls_, val_
-- 
2.43.0


From 96ec275274fcb24cccf2e157605ab694879ff1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:34 +0000
Subject: [PATCH 023/187] fix: encode SSR biases as stored (signal names,
 rounding, unavailable values)

---
 src/cssrlib/rtcm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 19a6a2d..8efba49 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -4708,8 +4708,8 @@ class rtcme(cssre, rtcmUtil):
             i += 5
 
             for rsig_ in cbias:
-                cb = int(cbias[rsig_]/0.01)
-                code = self.rsig2code(rsig_)
+                cb = self.ival(cbias[rsig_], 14, 0.01)
+                code = self.rsig2code(rSigRnx(sys, rsig_))
                 bs.pack_into('u5s14', msg, i, code, cb)
                 i += 19
 
@@ -4749,7 +4749,7 @@ class rtcme(cssre, rtcmUtil):
             for rsig_ in pbias:
 
                 pb = self.ival(pbias[rsig_], 20, 1e-4)
-                code = self.rsig2code(rsig_)
+                code = self.rsig2code(rSigRnx(sys, rsig_))
                 if sat in self.lc[inet].si:
                     si = self.lc[inet].si[sat][rsig_]
                 else:
-- 
2.43.0


From d99f7126a933f9009366005a5145a3615a09c4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:34 +0000
Subject: [PATCH 024/187] fix: satellite counts, GLONASS numbers and yaw
 information of encoded SSR messages

---
 src/cssrlib/rtcm.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 8efba49..0cf4ffc 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -4518,7 +4518,7 @@ class rtcme(cssre, rtcmUtil):
 
         return i
 
-    def encode_head(self, msg, i, sys=uGNSS.NONE):
+    def encode_head(self, msg, i, sys=uGNSS.NONE, sats=None):
         """ encode the header of ssr message """
         if self.msgtype == 4076 or sys != uGNSS.GLO:
             blen = 20
@@ -4551,7 +4551,7 @@ class rtcme(cssre, rtcmUtil):
         if self.subtype not in [sCSSR.VTEC, sRTCM.SSR_PBIAS, sRTCM.SSR_STEC,
                                 sRTCM.SSR_TROP]:
             nsat = 0
-            for sat in self.sat_n:
+            for sat in (self.sat_n if sats is None else sats):
                 sys_, _ = sat2prn(sat)
                 if sys_ != sys:
                     continue
@@ -4575,6 +4575,8 @@ class rtcme(cssre, rtcmUtil):
             if sys == uGNSS.QZS:
                 blen = 4
                 svid = prn-192
+            elif sys == uGNSS.GLO:
+                blen = 5
             else:
                 blen = 6
 
@@ -4675,8 +4677,8 @@ class rtcme(cssre, rtcmUtil):
     def encode_cssr_ura(self, msg, i, inet=0):
         """ encode RTCM SSR URA message """
         sys = self.get_ssr_sys(self.msgtype)
-        i = self.encode_head(msg, i, sys)
         ura = self.lc[inet].ura
+        i = self.encode_head(msg, i, sys, ura)
 
         for sat in ura:
             sys_, _ = sat2prn(sat)
@@ -4695,7 +4697,7 @@ class rtcme(cssre, rtcmUtil):
     def encode_cssr_cbias(self, msg, i, inet=0):
         """ encode RTCM SSR code bias message """
         sys = self.get_ssr_sys(self.msgtype)
-        i = self.encode_head(msg, i, sys)
+        i = self.encode_head(msg, i, sys, self.lc[inet].cbias)
 
         for sat in self.lc[inet].cbias:
             sys_, _ = sat2prn(sat)
@@ -4740,9 +4742,11 @@ class rtcme(cssre, rtcmUtil):
             bs.pack_into('u5', msg, i, nsig)
             i += 5
 
-            if sat in self.lc[inet].yaw:
-                yaw = int(self.lc[inet].yaw[sat]*256.0)
-                dyaw = int(self.lc[inet].dyaw[sat]*8192.0)
+            if self.subtype != sRTCM.SSR_PBIAS or self.iyaw:
+                yaw, dyaw = 0, 0
+                if sat in self.lc[inet].yaw:
+                    yaw = round(self.lc[inet].yaw[sat]*256.0)
+                    dyaw = self.ival(self.lc[inet].dyaw[sat], 8, 1.0/8192.0)
                 bs.pack_into('u9s8', msg, i, yaw, dyaw)
                 i += 17
 
-- 
2.43.0


From 5577adb028865e1e32269267c227f0c7ea3fda89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:53 +0000
Subject: [PATCH 025/187] fix: VTEC messages could not be decoded

---
 src/cssrlib/rtcm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 0cf4ffc..ed26ace 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1427,13 +1427,13 @@ class rtcm(cssr, rtcmUtil):
             s = np.zeros((n+1, m+1))
             for j in range(m+1):
                 for l_ in range(j, n+1):
-                    c_ = bs.unpack_from('s16', msg, i)
+                    c_ = bs.unpack_from('s16', msg, i)[0]
                     i += 16
                     c[l_, j] = self.sval(c_, 16, 5e-3)
 
             for j in range(1, m+1):
                 for l_ in range(j, n+1):
-                    s_ = bs.unpack_from('s16', msg, i)
+                    s_ = bs.unpack_from('s16', msg, i)[0]
                     i += 16
                     s[l_, j] = self.sval(s_, 16, 5e-3)
 
-- 
2.43.0


From aff05a2007c5d158583358ad230d66fbf5b6902a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:54 +0000
Subject: [PATCH 026/187] fix: B2b code biases of satellites out of the mask
 and of unknown signals

The biases of a satellite that is not in the mask were not skipped, so
the rest of the message was misread; an unassigned signal identifier
raised KeyError.
---
 src/cssrlib/cssr_bds.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cssrlib/cssr_bds.py b/src/cssrlib/cssr_bds.py
index e64ff58..b177dd1 100644
--- a/src/cssrlib/cssr_bds.py
+++ b/src/cssrlib/cssr_bds.py
@@ -69,6 +69,8 @@ class cssr_bds(cssr):
         }
 
         usig_tbl = usig_tbl_[sys]
+        if ssig not in usig_tbl:
+            return None
         return rSigRnx(sys, utyp, usig_tbl[ssig])
 
     def sval(self, u, n, scl):
@@ -250,6 +252,7 @@ class cssr_bds(cssr):
             sys, prn = self.slot2prn(slot)
             sat = prn2sat(sys, prn)
             if sat not in sat_n:
+                i += (4+self.cb_blen)*nsig
                 continue
             if sat not in self.lc[inet].t0:
                 self.lc[inet].t0[sat] = {}
@@ -261,6 +264,8 @@ class cssr_bds(cssr):
                     'u4s{:d}'.format(self.cb_blen), msg, i)
                 i += 4+self.cb_blen
                 sig_ = self.ssig2rsig(sys, uTYP.C, sig)
+                if sig_ is None:  # unsupported signal
+                    continue
                 self.lc[inet].cbias[sat][sig_] = self.sval(
                     cb, self.cb_blen, self.cb_scl)
 
-- 
2.43.0


From 48a1f8772672e32344b102a7222dde78ddb67bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:54 +0000
Subject: [PATCH 027/187] fix: B2b URA message of another mask issue was
 applied to the current mask

---
 src/cssrlib/cssr_bds.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cssrlib/cssr_bds.py b/src/cssrlib/cssr_bds.py
index b177dd1..f16548a 100644
--- a/src/cssrlib/cssr_bds.py
+++ b/src/cssrlib/cssr_bds.py
@@ -323,6 +323,9 @@ class cssr_bds(cssr):
 
         iodp, st2 = bs.unpack_from('u4u3', msg, i)
         i += 7
+        if iodp != self.iodp:
+            i += 70*6
+            return i
 
         for k in range(70):
             v = bs.unpack_from_dict('u3u3', ['class', 'val'], msg, i)
-- 
2.43.0


From d75ae7ae9427f85fd80e7ac1d097ced89aa92d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:54 +0000
Subject: [PATCH 028/187] fix: B2b combined messages (types 6 and 7)

The counts at the head were not skipped, the slot of a type 7 clock
correction was left as a tuple, the issues of the data and of the mask
were not checked and the reference times were not stored.
---
 src/cssrlib/cssr_bds.py | 73 +++++++++++++++++++++++++----------------
 1 file changed, 45 insertions(+), 28 deletions(-)

diff --git a/src/cssrlib/cssr_bds.py b/src/cssrlib/cssr_bds.py
index f16548a..38178f6 100644
--- a/src/cssrlib/cssr_bds.py
+++ b/src/cssrlib/cssr_bds.py
@@ -287,6 +287,9 @@ class cssr_bds(cssr):
         # note: the sign of the clock correction reversed
         self.lc[inet].dclk[sat] = - \
             self.sval(dclk, self.dclk_blen, self.dclk_scl)
+        if sat not in self.lc[inet].t0:
+            self.lc[inet].t0[sat] = {}
+        self.lc[inet].t0[sat][sCType.CLOCK] = self.time
         return i
 
     def decode_cssr_clk(self, msg, i, inet=0):
@@ -305,9 +308,6 @@ class cssr_bds(cssr):
             if idx < self.nsat_n:
                 sat = self.sat_n[idx]
                 i = self.decode_cssr_clk_sat(msg, i, inet, sat)
-                if sat not in self.lc[inet].t0:
-                    self.lc[inet].t0[sat] = {}
-                self.lc[inet].t0[sat][sCType.CLOCK] = self.time
 
         self.iodssr_c[sCType.CLOCK] = head['iodssr']
         self.lc[inet].cstat |= (1 << sCType.CLOCK)
@@ -342,45 +342,62 @@ class cssr_bds(cssr):
     def decode_cssr_comb1(self, msg, i, inet=0):
         """decode MT6 combined message #1 """
         numc, numo = bs.unpack_from('u5u3', msg, i)
-        sat_n = np.array(self.sat_n)
+        i += 8
 
         if numc > 0:
-            tod, _, iodssr, iodp, slot_s = \
-                bs.unpack_from('u17u4u2u4u9', msg, i)
-            i += 36
-            for k in range(numc):
-                idx = slot_s+k
-                sat = self.sat_n[idx]
-                i = self.decode_cssr_clk_sat(msg, i, inet, sat)
+            head, i = self.decode_head(msg, i)
+            iodp, slot_s = bs.unpack_from('u4u9', msg, i)
+            i += 13
+            if self.iodssr == head['iodssr'] and self.iodp == iodp:
+                for k in range(numc):
+                    idx = slot_s+k
+                    if idx < self.nsat_n:
+                        self.decode_cssr_clk_sat(msg, i+k*(3+self.dclk_blen),
+                                                 inet, self.sat_n[idx])
+                self.iodssr_c[sCType.CLOCK] = head['iodssr']
+                self.lc[inet].cstat |= (1 << sCType.CLOCK)
+            i += numc*(3+self.dclk_blen)
 
         if numo > 0:
-            tod, _, iodssr = bs.unpack_from('u17u4u2', msg, i)
-            i += 23
-            for k in range(numo):
-                i = self.decode_cssr_orb_sat(msg, i, inet, sat_n)
+            i = self.decode_cssr_comb_orb(msg, i, inet, numo)
 
         return i
 
+    def decode_cssr_comb_orb(self, msg, i, inet, numo):
+        """decode orbit + URA part of the combined messages """
+        head, i = self.decode_head(msg, i)
+        if self.iodssr != head['iodssr']:
+            return -1
+
+        sat_n = np.array(self.sat_n)
+        for k in range(numo):
+            i = self.decode_cssr_orb_sat(msg, i, inet, sat_n)
+
+        self.iodssr_c[sCType.ORBIT] = head['iodssr']
+        self.lc[inet].cstat |= (1 << sCType.ORBIT)
+        return i
+
     def decode_cssr_comb2(self, msg, i, inet=0):
         """decode MT7 combined message #2 """
         numc, numo = bs.unpack_from('u5u3', msg, i)
-        sat_n = np.array(self.sat_n)
+        i += 8
 
         if numc > 0:
-            tod, _, iodssr = bs.unpack_from('u17u4u2', msg, i)
-            i += 23
-            for k in range(numc):
-                slot = bs.unpack_from('u9', msg, i)
-                i += 9
-                sys, prn = self.slot2prn(slot)
-                sat = prn2sat(sys, prn)
-                i = self.decode_cssr_clk_sat(msg, i, inet, sat)
+            head, i = self.decode_head(msg, i)
+            if self.iodssr == head['iodssr']:
+                for k in range(numc):
+                    j = i+k*(12+self.dclk_blen)
+                    slot = bs.unpack_from('u9', msg, j)[0]
+                    sys, prn = self.slot2prn(slot)
+                    sat = prn2sat(sys, prn)
+                    if sat in self.sat_n:
+                        self.decode_cssr_clk_sat(msg, j+9, inet, sat)
+                self.iodssr_c[sCType.CLOCK] = head['iodssr']
+                self.lc[inet].cstat |= (1 << sCType.CLOCK)
+            i += numc*(12+self.dclk_blen)
 
         if numo > 0:
-            tod, _, iodssr = bs.unpack_from('u17u4u2', msg, i)
-            i += 23
-            for k in range(numo):
-                i = self.decode_cssr_orb_sat(msg, i, inet, sat_n)
+            i = self.decode_cssr_comb_orb(msg, i, inet, numo)
 
         return i
 
-- 
2.43.0


From 2d475e7d0e41d0bcb4a941c06e7cf5f320f142e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 029/187] fix: GPS LNAV time of transmission in GPS time

---
 src/cssrlib/rawnav.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index c4c66e3..4142945 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -462,7 +462,7 @@ class RawNav():
         eph.idot = idot*rCST.P2_43*rCST.SC2RAD
         eph.mode = 0  # LNAV
 
-        eph.tot = bdt2time(eph.week, tow)
+        eph.tot = gpst2time(eph.week, tow)
         if toc < tow - rCST.HALFWEEK_SEC:
             eph.week += 1
         elif toc > tow + rCST.HALFWEEK_SEC:
-- 
2.43.0


From 12f232f25a0e92a8b75007f630d39baa0ed021e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 030/187] fix: GPS LNAV eccentricity is unsigned

---
 src/cssrlib/rawnav.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 4142945..2484e55 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -408,7 +408,7 @@ class RawNav():
         M0 = bs.unpack('s32', bs.pack('u8u24', M0_, M0))[0]
         cuc, e_ = bs.unpack_from('s16u8', buff, i0+32*5+2)
         e = bs.unpack_from('u24', buff, i0+32*6+2)[0]
-        e = bs.unpack('s32', bs.pack('u8u24', e_, e))[0]
+        e = bs.unpack('u32', bs.pack('u8u24', e_, e))[0]
         cus, sa_ = bs.unpack_from('s16u8', buff, i0+32*7+2)
         sa = bs.unpack_from('u24', buff, i0+32*8+2)[0]
         sqrtA = bs.unpack('u32', bs.pack('u8u24', sa_, sa))[0]
-- 
2.43.0


From 911526b5c095e1063b68a29fa1ef2ac3e76bd9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 031/187] fix: compare the SVID of F/NAV page 1 with the
 satellite, not with bits of the IODnav of pages 2-4

---
 src/cssrlib/rawnav.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 2484e55..72a1e28 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -281,9 +281,9 @@ class RawNav():
         eph = Eph(sat)
         # 244bit => type(6) + svid(6) + iodnav(10) + body () + crc(24)+tail(6)
 
-        sid, svid, iodnav = bs.unpack_from('u6u6u10', msg, 0)
+        sid = bs.unpack_from('u6', msg, 0)[0]
 
-        if sid > 4:
+        if sid == 0 or sid > 4:
             return None
 
         buff = self.gal_fnav[prn-1]
@@ -296,7 +296,7 @@ class RawNav():
         sid3, iodnav3 = bs.unpack_from('u6u10', buff, 248*2)
         sid4, iodnav4 = bs.unpack_from('u6u10', buff, 248*3)
 
-        if svid != svid1 or sid1 != 1 or sid2 != 2 or sid3 != 3 or sid4 != 4:
+        if svid1 != prn or sid1 != 1 or sid2 != 2 or sid3 != 3 or sid4 != 4:
             return None
         if iodnav1 != iodnav2 or iodnav1 != iodnav3 or iodnav1 != iodnav4:
             return None
-- 
2.43.0


From a33190ef87bc7fd91ef6e14bfeff7a4368432a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 032/187] fix: Galileo week number goes with toe at week
 roll-over

---
 src/cssrlib/rawnav.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 72a1e28..1e8f9e3 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -263,6 +263,7 @@ class RawNav():
             week_gst += 1
         elif toc > tow + rCST.HALFWEEK_SEC:
             week_gst -= 1
+        eph.week = week_gst + 1024
         eph.toe = gst2time(week_gst, eph.toes)
         eph.toc = gst2time(week_gst, toc)
 
@@ -349,6 +350,7 @@ class RawNav():
             week_gst += 1
         elif toc > tow + rCST.HALFWEEK_SEC:
             week_gst -= 1
+        eph.week = week_gst + 1024
 
         eph.toe = gst2time(week_gst, eph.toes)
         eph.toc = gst2time(week_gst, toc)
-- 
2.43.0


From ae2a4d8c046a4656528c8d7a3d5537e8f6540040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:11 +0000
Subject: [PATCH 033/187] fix: BDS D1 subframes of different frames are not
 combined

---
 src/cssrlib/rawnav.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 1e8f9e3..0c10fba 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -1101,8 +1101,8 @@ class RawNav():
         if id1 != 1 or id2 != 2 or id3 != 3:
             return None
 
-        # if sow2 != sow1+6 or sow3 != sow2+6:
-        #    return None
+        if sow2 != sow1+6 or sow3 != sow2+6:
+            return None
 
         eph = Eph(sat)
 
-- 
2.43.0


From 0443243b9aebcc044a204d681c673b6a4947a0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:11 +0000
Subject: [PATCH 034/187] fix: BDS D2 page 1 of another cycle is not combined
 with pages 3-10

---
 src/cssrlib/rawnav.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 0c10fba..c434e62 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -1191,7 +1191,8 @@ class RawNav():
                 return None
             sow_[k] = self.getbitu2(buff, 160*k+18, 8, 160*k+30, 12)
             if k == 2:
-                sow_[k] != sow_[k-2]+6
+                if sow_[k] != sow_[k-2]+6:
+                    return None
             elif k > 0 and sow_[k] != sow_[k-1]+3:
                 return None
 
-- 
2.43.0


From 003baf6ada6953cb48af062db5d84f97e6a40f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:11 +0000
Subject: [PATCH 035/187] fix: BDS D2 square root of the semi-major axis

---
 src/cssrlib/rawnav.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index c434e62..f6ff240 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -1230,7 +1230,7 @@ class RawNav():
         # page 6
         i = 160*5
         ep6 = self.getbitu2(buff, i+46, 6, i+60, 16)
-        sqrtA = self.getbitu3(buff, i+76, 6, i+90, 22, 120, 4)*rCST.P2_19
+        sqrtA = self.getbitu3(buff, i+76, 6, i+90, 22, i+120, 4)*rCST.P2_19
         eph.A = sqrtA**2
         cicp6 = bs.unpack_from('s10', buff, i+124)[0]
 
-- 
2.43.0


From e8d492ca515dba5b8ed8463fe2c5b1d1884df663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:11 +0000
Subject: [PATCH 036/187] fix: BDS D2 mean anomaly and eccentricity

---
 src/cssrlib/rawnav.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index f6ff240..839e7cc 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -1222,10 +1222,10 @@ class RawNav():
         # page 5
         i = 160*4
         cucp5 = bs.unpack_from('u4', buff, i+46)[0]
-        eph.M0 = self.getbits3(buff, i+50, 2, i+60, 12, i+90, 8) * \
+        eph.M0 = self.getbits3(buff, i+50, 2, i+60, 22, i+90, 8) * \
             rCST.P2_31*rCST.SC2RAD
         eph.cus = self.getbits2(buff, i+98, 14, i+120, 4)*rCST.P2_31
-        ep5 = bs.unpack_from('s10', buff, i+124)[0]
+        ep5 = bs.unpack_from('u10', buff, i+124)[0]
 
         # page 6
         i = 160*5
-- 
2.43.0


From a05022b12c741e85c14c5d5c916d6cd9d0280f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:11 +0000
Subject: [PATCH 037/187] fix: BDS D1/D2 week roll-over and reference times in
 GPS time

---
 src/cssrlib/rawnav.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 839e7cc..851913a 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -1153,11 +1153,11 @@ class RawNav():
         eph.toes = ((toe1 << 15)+toe2)*8.0
         eph.tot = bdt2gpst(bdt2time(eph.week, sow1))
         if eph.toes > sow1+rCST.HALFWEEK_SEC:
-            eph.week += 1
-        elif eph.toes < sow1-rCST.HALFWEEK_SEC:
             eph.week -= 1
-        eph.toc = bdt2time(eph.week, toc)
-        eph.toe = bdt2time(eph.week, eph.toes)
+        elif eph.toes < sow1-rCST.HALFWEEK_SEC:
+            eph.week += 1
+        eph.toc = bdt2gpst(bdt2time(eph.week, toc))
+        eph.toe = bdt2gpst(bdt2time(eph.week, eph.toes))
 
         eph.flag = 1  # IGSO/MEO
         eph.mode = 0
@@ -1273,11 +1273,11 @@ class RawNav():
 
         eph.tot = bdt2gpst(bdt2time(eph.week, sow_[0]))
         if eph.toes > sow_[0]+302400.0:
-            eph.week += 1
-        elif eph.toes < sow_[0]-302400.0:
             eph.week -= 1
-        eph.toc = bdt2time(eph.week, toc)
-        eph.toe = bdt2time(eph.week, eph.toes)
+        elif eph.toes < sow_[0]-302400.0:
+            eph.week += 1
+        eph.toc = bdt2gpst(bdt2time(eph.week, toc))
+        eph.toe = bdt2gpst(bdt2time(eph.week, eph.toes))
 
         eph.flag = 2  # GEO
         eph.mode = 0
-- 
2.43.0


From 8d2c7e943b5bd1748ffc14d3cd25fa59cbf3cff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:11 +0000
Subject: [PATCH 038/187] fix: BDS CNAV time of transmission in GPS time

---
 src/cssrlib/rawnav.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 851913a..f712fbb 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -894,7 +894,7 @@ class RawNav():
             return None
 
         tow = how*3600+soh
-        eph.tot = bdt2time(eph.week, tow)
+        eph.tot = bdt2gpst(bdt2time(eph.week, tow))
 
         i = self.decode_bds_cnav_eph1(msg, eph, i)
         i = self.decode_bds_cnav_eph2(msg, eph, i)
@@ -1011,7 +1011,7 @@ class RawNav():
         eph.tgd_b = tgd_b2ap*rCST.P2_34
 
         eph.svh = hs
-        eph.tot = bdt2time(eph.week, sow1)
+        eph.tot = bdt2gpst(bdt2time(eph.week, sow1))
         eph.mode = 2  # B-CNAV2
 
         return eph
@@ -1068,7 +1068,7 @@ class RawNav():
         eph.sisai[0], eph.svh = bs.unpack_from('u5u2', buff, i)
         i += 7
 
-        eph.tot = bdt2time(eph.week, sow1)
+        eph.tot = bdt2gpst(bdt2time(eph.week, sow1))
         eph.mode = 3  # B-CNAV3
 
         return eph
-- 
2.43.0


From 14db1e04571c9898a009baefc3dbfce05e4a5a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:53 +0000
Subject: [PATCH 039/187] fix: BDS CNAV reference times at week roll-over and
 week number of B-CNAV3

---
 src/cssrlib/rawnav.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index f712fbb..4ba05dd 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -27,7 +27,7 @@ import bitstruct.c as bs
 import struct as st
 from cssrlib.gnss import gpst2time, gst2time, bdt2time, rCST
 from cssrlib.gnss import uGNSS, sat2prn, bdt2gpst, utc2gpst, time2gpst
-from cssrlib.gnss import Eph, Geph, uTYP, copy_buff, gtime_t, timeadd, Seph
+from cssrlib.gnss import Eph, Geph, uTYP, copy_buff, gtime_t, timeadd, timediff, Seph
 from cssrlib.gnss import tod2tow, char2sys
 from cssrlib.rinex import rnxenc, rSigRnx
 
@@ -773,6 +773,16 @@ class RawNav():
 
         return eph
 
+    def bds_cnav_time(self, eph, sec):
+        """ reference time of BDS CNAV closest to the transmission time """
+        time = bdt2gpst(bdt2time(eph.week, sec))
+        dt = timediff(time, eph.tot)
+        if dt < -rCST.HALFWEEK_SEC:
+            return timeadd(time, rCST.WEEK_SEC), 1
+        elif dt > rCST.HALFWEEK_SEC:
+            return timeadd(time, -rCST.WEEK_SEC), -1
+        return time, 0
+
     def decode_bds_cnav_eph1(self, msg, eph, i):
         """ BDS CNAV message decoder for Ephemeris I """
         toe, sattype, dA, Adot, deln, delnd, M0, ecc, omg = \
@@ -789,7 +799,8 @@ class RawNav():
 
         Aref = 27906100.0 if eph.sattype == 3 else 42162200.0
         eph.A = Aref + dA*2**-9
-        eph.toe = bdt2gpst(bdt2time(eph.week, eph.toes))
+        eph.toe, dw = self.bds_cnav_time(eph, eph.toes)
+        eph.week += dw
         return i
 
     def decode_bds_cnav_eph2(self, msg, eph, i):
@@ -819,7 +830,7 @@ class RawNav():
         eph.af0 = a0*rCST.P2_34
         eph.af1 = a1*rCST.P2_50
         eph.af2 = a2*rCST.P2_66
-        eph.toc = bdt2gpst(bdt2time(eph.week, tocs))
+        eph.toc, _ = self.bds_cnav_time(eph, tocs)
         return i
 
     def decode_bds_cnav_iono(self, msg, i):
@@ -984,6 +995,7 @@ class RawNav():
         eph.week, ib2a, eph.sismai, ib1c, eph.iode = bs.unpack_from(
             'u13u3s4u3u8', buff, i)
         i += 31
+        eph.tot = bdt2gpst(bdt2time(eph.week, sow1))
         i = self.decode_bds_cnav_eph1(buff, eph, i)
         eph.integ = (ib2a << 3)+ib1c
 
@@ -1011,7 +1023,6 @@ class RawNav():
         eph.tgd_b = tgd_b2ap*rCST.P2_34
 
         eph.svh = hs
-        eph.tot = bdt2gpst(bdt2time(eph.week, sow1))
         eph.mode = 2  # B-CNAV2
 
         return eph
@@ -1046,6 +1057,9 @@ class RawNav():
         eph.sisai = np.zeros(4, dtype=int)
         eph.isc = np.zeros(6)
 
+        eph.week = bs.unpack_from('u13', buff, 512+ofst+26)[0]
+        eph.tot = bdt2gpst(bdt2time(eph.week, sow1))
+
         # decode MT10
         i = ofst+30
         i = self.decode_bds_cnav_eph1(buff, eph, i)
@@ -1055,9 +1069,7 @@ class RawNav():
         i += 7
 
         # decode MT30
-        i = 512+ofst+26
-        eph.week = bs.unpack_from('u13', buff, i)[0]
-        i += 13+4
+        i = 512+ofst+26+13+4
         i = self.decode_bds_cnav_clk(buff, eph, i)
         eph.tgd = bs.unpack_from('s12', buff, i)[0]*rCST.P2_34  # tgd-B2bI
         i += 12
@@ -1068,7 +1080,6 @@ class RawNav():
         eph.sisai[0], eph.svh = bs.unpack_from('u5u2', buff, i)
         i += 7
 
-        eph.tot = bdt2gpst(bdt2time(eph.week, sow1))
         eph.mode = 3  # B-CNAV3
 
         return eph
-- 
2.43.0


From ba44d9db78a04c2da21742b439bcdc75285cadd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:53 +0000
Subject: [PATCH 040/187] fix: NavIC LNAV week roll-over

---
 src/cssrlib/rawnav.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 4ba05dd..8923cb1 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -1372,14 +1372,13 @@ class RawNav():
         eph.OMGd = OMGd*rCST.P2_41*rCST.SC2RAD
         eph.i0 = i0*rCST.P2_31*rCST.SC2RAD
 
-        eph.toc = gpst2time(eph.week, toc)
-        eph.toe = gpst2time(eph.week, eph.toes)
-
+        eph.tot = gpst2time(eph.week, tow1)
         if eph.toes > tow1+302400.0:
-            week += 1
+            eph.week -= 1
         elif eph.toes < tow1-302400.0:
-            week -= 1
-        eph.tot = gpst2time(week, tow1)
+            eph.week += 1
+        eph.toc = gpst2time(eph.week, toc)
+        eph.toe = gpst2time(eph.week, eph.toes)
 
         eph.mode = 0
         return eph
-- 
2.43.0


From cb68d306a18bc88145d4bdbfa84bc130c97a8388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:53 +0000
Subject: [PATCH 041/187] fix: NavIC L1NAV week roll-over

---
 src/cssrlib/rawnav.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 8923cb1..6747b7f 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -1557,9 +1557,13 @@ class RawNav():
         eph.cuc = cuc*rCST.P2_30
 
         eph.mode = 2  # L1NAV
+        eph.tot = gst2time(eph.week, tow)
+        if eph.toes > tow+rCST.HALFWEEK_SEC:
+            eph.week -= 1
+        elif eph.toes < tow-rCST.HALFWEEK_SEC:
+            eph.week += 1
         eph.toe = gst2time(eph.week, eph.toes)
         eph.toc = eph.toe
-        eph.tot = gst2time(eph.week, tow)
 
         return eph
 
-- 
2.43.0


From 476ece1c2a06a2f74b23d6f70de44b490efcb5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:07 +0000
Subject: [PATCH 042/187] fix: GLONASS CDMA strings of different packets are
 not combined

---
 src/cssrlib/rawnav.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 6747b7f..a65cf15 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -1757,6 +1757,14 @@ class RawNav():
         if sid10 != 10 or sid11 != 11 or sid12 != 12:
             return None
 
+        # strings 10,11,12 are transmitted one after another
+        pos, fmt = (22, 'u16') if stype == 1 else (6, 'u15')
+        ts10 = bs.unpack_from(fmt, buff, pos)[0]
+        ts11 = bs.unpack_from(fmt, buff, 32*8+pos)[0]
+        ts12 = bs.unpack_from(fmt, buff, 32*2*8+pos)[0]
+        if ts11 != ts10+1 or ts12 != ts11+1:
+            return None
+
         geph = Geph(sat)
 
         # MT10
-- 
2.43.0


From 3b7d4335b8d19eba3f4b3ef347e1acfbbfa0af7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:05 +0000
Subject: [PATCH 043/187] fix: CNAV-2 reference time at week roll-over

---
 src/cssrlib/rawnav.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index a65cf15..9e3fcc0 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -763,9 +763,9 @@ class RawNav():
 
         eph.mode = 2  # CNAV/2
         eph.tot = gpst2time(eph.week, tow)
-        if toe < tow - rCST.HALFWEEK_SEC:
+        if eph.toes < tow - rCST.HALFWEEK_SEC:
             eph.week += 1
-        elif toe > tow + rCST.HALFWEEK_SEC:
+        elif eph.toes > tow + rCST.HALFWEEK_SEC:
             eph.week -= 1
         eph.toe = gpst2time(eph.week, eph.toes)
         eph.toc = eph.toe
-- 
2.43.0


From b228048920c8cdae035d647029d3cf3784f2eab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:05 +0000
Subject: [PATCH 044/187] fix: NavIC LNAV ephemeris from subframe 2 only

---
 src/cssrlib/rawnav.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 9e3fcc0..04d6c9f 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -106,7 +106,8 @@ class RawNav():
 
         self.irn_nav = {}
         for k in range(uGNSS.IRNMAX):
-            self.irn_nav[k] = bytearray(200)
+            # id of subframe 1 is zero: not to be confused with no data
+            self.irn_nav[k] = bytearray([0xff]*200)
 
     def u2s(self, u, blen):
         if u & (1 << (blen-1)):
-- 
2.43.0


From 5b9e2af3d1943b013d00f0fce9f43ffda27b433b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:02 +0000
Subject: [PATCH 045/187] fix: read all continuation lines of SYS / # / OBS
 TYPES

---
 src/cssrlib/rinex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 332823b..1896755 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -838,7 +838,7 @@ class rnxdec:
                 # Extract string list of signal codes
                 #
                 sigs = line[7:60].split()
-                for _ in range(int(nsig/14)):
+                for _ in range((nsig-1)//13):
                     line2 = self.fobs.readline()
                     sigs += line2[7:60].split()
 
-- 
2.43.0


From aaa77140be170aa5dc9f1e0afa9d541ccacccb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:02 +0000
Subject: [PATCH 046/187] fix: RINEX observations with a different number of
 signals per constellation

---
 src/cssrlib/rinex.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 1896755..a1746b0 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -919,16 +919,11 @@ class rnxdec:
                     prn += 100
                 sat = prn2sat(sys, prn)
 
-                pr = np.zeros(len(self.getSignals(sys, uTYP.C)),
-                              dtype=np.float64)
-                cp = np.zeros(len(self.getSignals(sys, uTYP.L)),
-                              dtype=np.float64)
-                ll = np.zeros(len(self.getSignals(sys, uTYP.L)),
-                              dtype=np.int32)
-                dp = np.zeros(len(self.getSignals(sys, uTYP.D)),
-                              dtype=np.float64)
-                cn = np.zeros(len(self.getSignals(sys, uTYP.S)),
-                              dtype=np.float64)
+                pr = np.zeros(self.nsig[uTYP.C], dtype=np.float64)
+                cp = np.zeros(self.nsig[uTYP.L], dtype=np.float64)
+                ll = np.zeros(self.nsig[uTYP.L], dtype=np.int32)
+                dp = np.zeros(self.nsig[uTYP.D], dtype=np.float64)
+                cn = np.zeros(self.nsig[uTYP.S], dtype=np.float64)
 
                 for i, sig in self.sig_map[sys].items():
 
-- 
2.43.0


From 284a083edab852767857b108afa1ec56602a80b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:02 +0000
Subject: [PATCH 047/187] fix: skip event records of RINEX observation files

---
 src/cssrlib/rinex.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index a1746b0..5431489 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -877,6 +877,13 @@ class rnxdec:
 
             nsat = int(line[32:35])
 
+            # Skip event records
+            #
+            if line[31] not in '01 ':
+                for _ in range(nsat):
+                    self.fobs.readline()
+                continue
+
             year = int(line[2:6])
             month = int(line[7:9])
             day = int(line[10:12])
-- 
2.43.0


From 12ec5881e0b0049fc3714e895fb65947cdb2fc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:02 +0000
Subject: [PATCH 048/187] fix: loss of lock is bit 0 of the RINEX loss-of-lock
 indicator

---
 src/cssrlib/rinex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 5431489..c743515 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -948,7 +948,7 @@ class rnxdec:
                     # Convert from string to numerical value
                     #
                     val = 0.0 if not sval else float(sval)
-                    lli = 1 if slli == '1' else 0
+                    lli = int(slli) & 1 if slli.isdigit() else 0
 
                     # Signal index in data structure
                     #
-- 
2.43.0


From 0f048c30864bcad4edc27a66d44dab9163c84921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:02 +0000
Subject: [PATCH 049/187] fix: sync_obs() ends at the end of the observation
 files

---
 src/cssrlib/rinex.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index c743515..00e6cba 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -991,6 +991,8 @@ def sync_obs(dec, decb, dt_th=0.1):
     obs = dec.decode_obs()
     obsb = decb.decode_obs()
     while True:
+        if obs.t.time == 0 or obsb.t.time == 0:  # end of file
+            return Obs(), Obs()
         dt = timediff(obs.t, obsb.t)
         if np.abs(dt) <= dt_th:
             break
-- 
2.43.0


From 32a08a622079e935f13d730704098af12b62f02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 050/187] fix: Cus and af2 of RTCM BDS ephemerides

---
 src/cssrlib/rtcm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index ed26ace..4891e73 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2811,8 +2811,8 @@ class rtcm(cssr, rtcmUtil):
         i += 5+17+11+22+24
         aodc, crs, deln, M0, cuc = bs.unpack_from('u5s18s16s32s18', msg, i)
         i += 5+18+16+32+18
-        e, cus, Asq, toe, cic = bs.unpack_from('u32s16u32u17s18', msg, i)
-        i += 32+16+32+17+18
+        e, cus, Asq, toe, cic = bs.unpack_from('u32s18u32u17s18', msg, i)
+        i += 32+18+32+17+18
         Omg0, cis, i0, crc, omg = bs.unpack_from('s32s18s32s18s32', msg, i)
         i += 32+18+32+18+32
         OMGd, tgd1, tgd2, svh = bs.unpack_from('s24s10s10u1', msg, i)
@@ -2825,7 +2825,7 @@ class rtcm(cssr, rtcmUtil):
         eph.idot = idot*rCST.P2_43*rCST.SC2RAD
         eph.iode = aode
         toc *= 8.0
-        eph.af2 = af0*rCST.P2_66
+        eph.af2 = af2*rCST.P2_66
         eph.af1 = af1*rCST.P2_50
         eph.af0 = af0*rCST.P2_33
         eph.iodc = aodc
-- 
2.43.0


From 27ef090f1ad480e9480c4591270d443eed060b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 051/187] fix: af2 of RTCM NavIC ephemerides

---
 src/cssrlib/rtcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 4891e73..8040d90 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2876,7 +2876,7 @@ class rtcm(cssr, rtcmUtil):
         eph.week = week
         eph.af0 = af0*rCST.P2_31
         eph.af1 = af1*rCST.P2_43
-        eph.af2 = af0*rCST.P2_55
+        eph.af2 = af2*rCST.P2_55
         eph.sva = ura
         toc *= 16.0
         eph.tgd = tgd*rCST.P2_31
-- 
2.43.0


From b649b7291b62ec0cc223a70b38b9b938870e831d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 052/187] fix: RTCM SBAS ephemerides (attribute error, day
 roll-over)

---
 src/cssrlib/rtcm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 8040d90..1bae9ec 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2937,11 +2937,11 @@ class rtcm(cssr, rtcmUtil):
         seph.acc[0] = ax*0.0000125
         seph.acc[1] = ay*0.0000125
         seph.acc[2] = az*0.0000625
-        seph.af0 = af0*self.P2_31
-        seph.af1 = af1*self.P2_40
+        seph.af0 = af0*rCST.P2_31
+        seph.af1 = af1*rCST.P2_40
         week, tow = time2gpst(self.time)
-        tod = (tow//86400)*86400
-        seph.t0 = gpst2time(week, toc+tod)
+        dt = (toc-tow+43200) % 86400-43200  # within half a day
+        seph.t0 = gpst2time(week, tow+dt)
         seph.mode = 0
 
         return i, seph
-- 
2.43.0


From 81c1b8301eb9ae14c3d2005dcb6ca1db33c93233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 053/187] fix: week roll-over of RTCM ephemerides

---
 src/cssrlib/rtcm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 1bae9ec..054485e 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -797,8 +797,7 @@ class rtcmUtil:
     def adjustweek(self, week: int, tref: gtime_t):
         """ adjust week number considering reference time """
         week_, _ = time2gpst(tref)
-        week_ref = (week_//1024)*1024
-        return (week % 1024) + week_ref
+        return week + (week_-week+512)//1024*1024
 
     def sys2str(self, sys: uGNSS):
         """ convert system enum to string """
-- 
2.43.0


From ea1167bccd5269e52b088959c1ad854422af8135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 054/187] fix: health and data source of RTCM Galileo F/NAV
 ephemerides

---
 src/cssrlib/rtcm.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 054485e..e71be4c 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2734,10 +2734,12 @@ class rtcm(cssr, rtcmUtil):
         eph.toc = gpst2time(eph.week, toc)
         eph.tot = self.time
         eph.A = sqrtA*sqrtA
-        eph.svh = (hs << 7)+(dvs << 6)
-        if self.msgtype == 1046:
-            eph.svh |= (hs1 << 1)+(dvs1)
-        eph.code = (1 << 0)+(1 << 2)+(1 << 9)
+        if self.msgtype == 1046:  # I/NAV E5b, E1-B
+            eph.svh = (hs << 7)+(dvs << 6)+(hs1 << 1)+(dvs1)
+            eph.code = (1 << 0)+(1 << 2)+(1 << 9)
+        else:  # F/NAV E5a
+            eph.svh = (hs << 4)+(dvs << 3)
+            eph.code = (1 << 1)+(1 << 8)
         eph.iodc = eph.iode
 
         eph.mode = 0 if self.msgtype == 1046 else 1
-- 
2.43.0


From b359ded204264cfa55129ad72f210b7bf435080e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 055/187] fix: state vector of RTCM GLONASS ephemerides

---
 src/cssrlib/rtcm.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index e71be4c..36b13f6 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -799,6 +799,11 @@ class rtcmUtil:
         week_, _ = time2gpst(tref)
         return week + (week_-week+512)//1024*1024
 
+    def sgn_mag(self, v: int, n: int):
+        """ value of a n-bit sign-magnitude integer """
+        m = v & ((1 << (n-1))-1)
+        return -m if v >> (n-1) else m
+
     def sys2str(self, sys: uGNSS):
         """ convert system enum to string """
         gnss_t = {uGNSS.GPS: "GPS", uGNSS.GLO: "GLO", uGNSS.GAL: "GAL",
@@ -2618,14 +2623,21 @@ class rtcm(cssr, rtcmUtil):
         i += 12
         bn, P2, tb = bs.unpack_from('u1u1u7', msg, i)
         i += 9
-        xd, x, xdd = bs.unpack_from('s24s27s5', msg, i)
+        # sign-magnitude representation
+        xd, x, xdd = (self.sgn_mag(v, n) for v, n in zip(
+            bs.unpack_from('u24u27u5', msg, i), (24, 27, 5)))
         i += 56
-        yd, y, ydd = bs.unpack_from('s24s27s5', msg, i)
+        yd, y, ydd = (self.sgn_mag(v, n) for v, n in zip(
+            bs.unpack_from('u24u27u5', msg, i), (24, 27, 5)))
         i += 56
-        zd, z, zdd = bs.unpack_from('s24s27s5', msg, i)
+        zd, z, zdd = (self.sgn_mag(v, n) for v, n in zip(
+            bs.unpack_from('u24u27u5', msg, i), (24, 27, 5)))
         i += 56
-        P3, gamn, P, ln, taun, dtaun = bs.unpack_from('u1s11u2u1s22s5', msg, i)
+        P3, gamn, P, ln, taun, dtaun = bs.unpack_from('u1u11u2u1u22u5', msg, i)
         i += 42
+        gamn = self.sgn_mag(gamn, 11)
+        taun = self.sgn_mag(taun, 22)
+        dtaun = self.sgn_mag(dtaun, 5)
         En, P4, Ft, Nt, M, ad, Na, tauc, N4, taugps, ln = bs.unpack_from(
             'u5u1u4u11u2u1u11s32u5s22u1', msg, i)
         i += 102
@@ -2640,12 +2652,12 @@ class rtcm(cssr, rtcmUtil):
         geph.vel[0] = xd*rCST.P2_20*1e3
         geph.pos[0] = x*rCST.P2_11*1e3
         geph.acc[0] = xdd*rCST.P2_30*1e3
-        geph.vel[1] = xd*rCST.P2_20*1e3
-        geph.pos[1] = x*rCST.P2_11*1e3
-        geph.acc[1] = xdd*rCST.P2_30*1e3
-        geph.vel[2] = xd*rCST.P2_20*1e3
-        geph.pos[2] = x*rCST.P2_11*1e3
-        geph.acc[2] = xdd*rCST.P2_30*1e3
+        geph.vel[1] = yd*rCST.P2_20*1e3
+        geph.pos[1] = y*rCST.P2_11*1e3
+        geph.acc[1] = ydd*rCST.P2_30*1e3
+        geph.vel[2] = zd*rCST.P2_20*1e3
+        geph.pos[2] = z*rCST.P2_11*1e3
+        geph.acc[2] = zdd*rCST.P2_30*1e3
         geph.gamn = gamn*rCST.P2_40
         geph.taun = taun*rCST.P2_30
         geph.dtaun = dtaun*rCST.P2_30
-- 
2.43.0


From 7796bd8f116d321cd74c06e2c4681bbec9db5146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 056/187] fix: week of MSM epochs next to the GPS week change

---
 src/cssrlib/rtcm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 36b13f6..ca3c388 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2283,9 +2283,11 @@ class rtcm(cssr, rtcmUtil):
             tow = (t & 0x7ffffff)*1e-3
             time = gpst2time(week, tow+dow*86400.0)
             time = utc2gpst(timeadd(time, -10800.0))
+            time = gpst2time(week, time2gpst(time)[1])  # week of the receiver
         elif sys == uGNSS.BDS:
             tow = t*1e-3
             time = bdt2gpst(gpst2time(week, tow))
+            time = gpst2time(week, time2gpst(time)[1])  # week of the receiver
         else:
             tow = t*1e-3
             time = gpst2time(week, tow)
-- 
2.43.0


From 2c35e86e6cdc87f4d0f54d87533a5e4594dc37da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 057/187] fix: rough ranges of MSM1-3 and of unavailable
 satellites

---
 src/cssrlib/rtcm.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index ca3c388..8c3c586 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2330,16 +2330,16 @@ class rtcm(cssr, rtcmUtil):
             self.sig_n += [sig_n]
             ncell += nsig_
 
-        r = np.zeros(self.nsat)
+        r = np.ones(self.nsat)*np.nan
         pr = np.ones(ncell)*np.nan
         cp = np.ones(ncell)*np.nan
         lock = np.zeros(ncell, dtype=int)
         half = np.zeros(ncell, dtype=int)
         cnr = np.zeros(ncell)
-        rrf = np.zeros(ncell)
+        rrf = np.ones(ncell)*np.nan
 
-        ex = np.zeros(self.nsat, dtype=int)
-        rr = np.zeros(self.nsat)
+        ex = np.ones(self.nsat, dtype=int)*15
+        rr = np.ones(self.nsat)*np.nan
 
         rms = rCST.CLIGHT*1e-3
 
@@ -2347,8 +2347,7 @@ class rtcm(cssr, rtcmUtil):
         if msm >= 1 and msm <= 3:
             for k in range(self.nsat):
                 v = bs.unpack_from('u10', msg, i)[0]
-                if v != 2**10-1:
-                    r[k] = v*rms
+                r[k] = v*rCST.P2_10*rms
                 i += 10
         else:
             for k in range(self.nsat):
@@ -2361,7 +2360,7 @@ class rtcm(cssr, rtcmUtil):
                     ex[k] = bs.unpack_from('u4', msg, i)[0]
                     i += 4
             for k in range(self.nsat):
-                if r[k] != 0.0:
+                if not np.isnan(r[k]):
                     r[k] += bs.unpack_from('u10', msg, i)[0]*rCST.P2_10*rms
                 i += 10
             if msm == 5 or msm == 7:
-- 
2.43.0


From d7cb74d4456bb902c6f4aa17ba207af4f78085bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 058/187] fix: channel of GLONASS carrier phases in MSM without
 extended information

---
 src/cssrlib/rtcm.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 8c3c586..630032c 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -824,6 +824,7 @@ class rtcm(cssr, rtcmUtil):
         self.sysref = -1
         self.nsig_max = 4
         self.lock = {}
+        self.glo_frq = {}
         self.mask_pbias = False
 
         self.pid = 0  # SSR Provider ID
@@ -2439,10 +2440,12 @@ class rtcm(cssr, rtcmUtil):
             hf_ = np.zeros(self.nsig, dtype=np.int32)
             cn_ = np.zeros(self.nsig, dtype=np.float64)
 
-            fcn = 0
+            fcn = None
             if sys == uGNSS.GLO:
                 if ex[k] <= 13:
-                    fcn = ex[k]-7
+                    self.glo_frq[sat_] = ex[k]-7
+                if sat_ in self.glo_frq:
+                    fcn = self.glo_frq[sat_]
 
             for j, sig_ in enumerate(self.sig_n[k]):
                 idx = sig.index(sig_)
@@ -2451,6 +2454,8 @@ class rtcm(cssr, rtcmUtil):
                 else:
                     freq = obs.sig[sys][uTYP.C][idx].frequency(fcn)
 
+                if freq is None:
+                    freq = np.nan
                 pr_[idx] = pr[j+ofst]+r[k]
                 cp_[idx] = (cp[j+ofst]+r[k])*freq/rCST.CLIGHT
                 cn_[idx] = cnr[j+ofst]
@@ -2649,6 +2654,7 @@ class rtcm(cssr, rtcmUtil):
         geph.acc = np.zeros(3)
 
         geph.frq = frq-7
+        self.glo_frq[prn2sat(uGNSS.GLO, prn)] = geph.frq
         tk_s *= 30.0
         geph.vel[0] = xd*rCST.P2_20*1e3
         geph.pos[0] = x*rCST.P2_11*1e3
-- 
2.43.0


From 77d9d8025dd45b3c01a7ac52fcf1628f8bbe8776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 059/187] fix: Doppler shift of MSM5 and MSM7

---
 src/cssrlib/rtcm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 630032c..7370d73 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2424,10 +2424,12 @@ class rtcm(cssr, rtcmUtil):
         obs.sig[sys][uTYP.C] = []
         obs.sig[sys][uTYP.L] = []
         obs.sig[sys][uTYP.S] = []
+        obs.sig[sys][uTYP.D] = []
         for sig_ in sig:
             obs.sig[sys][uTYP.C].append(self.msm2rsig(sys, uTYP.C, sig_))
             obs.sig[sys][uTYP.L].append(self.msm2rsig(sys, uTYP.L, sig_))
             obs.sig[sys][uTYP.S].append(self.msm2rsig(sys, uTYP.S, sig_))
+            obs.sig[sys][uTYP.D].append(self.msm2rsig(sys, uTYP.D, sig_))
 
         ofst = 0
         for k in range(self.nsat):
@@ -2439,6 +2441,7 @@ class rtcm(cssr, rtcmUtil):
             ll_ = np.zeros(self.nsig, dtype=np.int32)
             hf_ = np.zeros(self.nsig, dtype=np.int32)
             cn_ = np.zeros(self.nsig, dtype=np.float64)
+            dp_ = np.zeros(self.nsig, dtype=np.float64)
 
             fcn = None
             if sys == uGNSS.GLO:
@@ -2459,6 +2462,7 @@ class rtcm(cssr, rtcmUtil):
                 pr_[idx] = pr[j+ofst]+r[k]
                 cp_[idx] = (cp[j+ofst]+r[k])*freq/rCST.CLIGHT
                 cn_[idx] = cnr[j+ofst]
+                dp_[idx] = -(rr[k]+rrf[j+ofst])*freq/rCST.CLIGHT
                 ll_[idx] = lock[j+ofst]
                 hf_[idx] = half[j+ofst]
 
@@ -2467,6 +2471,7 @@ class rtcm(cssr, rtcmUtil):
             obs.P[k, :] = pr_
             obs.L[k, :] = cp_
             obs.S[k, :] = cn_
+            obs.D[k, :] = dp_
             obs.sat[k] = sat_
 
             if sat_ in self.lock:
-- 
2.43.0


From d74729b50c6d8ac13432262bf9145893211368c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 060/187] fix: loss of lock indicators of MSM

---
 src/cssrlib/rtcm.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 7370d73..853c4e7 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2474,18 +2474,15 @@ class rtcm(cssr, rtcmUtil):
             obs.D[k, :] = dp_
             obs.sat[k] = sat_
 
-            if sat_ in self.lock:
-                for j, ll in enumerate(ll_):
-                    if sig[j] not in self.sig_n:
-                        continue
-                    idx = sig.index(sig[j])
-                    ll_p = self.lock[sat_][j]
-                    if (ll == 0 & ll_p != 0) | ll < ll_p:
+            if msm > 1:
+                lock_p = self.lock.setdefault(sat_, {})
+                for sig_ in self.sig_n[k]:
+                    idx = sig.index(sig_)
+                    if ll_[idx] < lock_p.get(sig_, 0):
                         obs.lli[k, idx] |= 1
-                    if hf_[j] > 0:
+                    if hf_[idx] > 0:
                         obs.lli[k, idx] |= 3
-
-            self.lock[sat_] = ll_
+                    lock_p[sig_] = ll_[idx]
 
         return i, obs
 
-- 
2.43.0


From bd0dea4c19587bbc0499109f36934a884e3a7ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:04 +0000
Subject: [PATCH 061/187] fix: standard deviation of precise clocks

---
 src/cssrlib/peph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index b588583..6e8537d 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -370,11 +370,11 @@ class peph:
         elif t[1] >= 0.0:
             dts[0] = c[1]
             if dts[0] != 0.0:
-                std = p_[1].std[sat-1, 3]*rCST.CLIGHT-EXTERR_CLK*t[1]
+                std = p_[1].std[sat-1, 3]*rCST.CLIGHT+EXTERR_CLK*t[1]
         elif c[0] != np.nan and c[1] != np.nan:
             dts[0] = (c[1]*t[0]-c[0]*t[1])/(t[0]-t[1])
             i = 0 if t[0] < -t[1] else 1
-            std = p_[i].std[sat-1, 3]+EXTERR_CLK*abs(t[i])
+            std = p_[i].std[sat-1, 3]*rCST.CLIGHT+EXTERR_CLK*abs(t[i])
         else:
             dts[0] = np.nan
 
@@ -415,11 +415,11 @@ class peph:
             dts[0] = c[1]
             if dts[0] == 0.0:
                 return None, False
-            std = p_[1].std[sat-1]*rCST.CLIGHT-EXTERR_CLK*t[1]
+            std = p_[1].std[sat-1]*rCST.CLIGHT+EXTERR_CLK*t[1]
         elif c[0] != 0.0 and c[1] != 0.0:
             dts[0] = (c[1]*t[0]-c[0]*t[1])/(t[0]-t[1])
             i = 0 if t[0] < -t[1] else 1
-            std = p_[i].std[sat-1]+EXTERR_CLK*abs(t[i])
+            std = p_[i].std[sat-1]*rCST.CLIGHT+EXTERR_CLK*abs(t[i])
         else:
             return None, False
 
-- 
2.43.0


From 16671ed3d19b36a5a7cd8376fa11f0187635c048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:04 +0000
Subject: [PATCH 062/187] fix: do not interpolate across missing SP3 positions
 with clock values

---
 src/cssrlib/peph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index 6e8537d..db58b56 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -331,7 +331,7 @@ class peph:
 
         for j in range(NMAX+1):
             t[j] = timediff(nav.peph[i+j].time, time)
-            if np.linalg.norm(nav.peph[i+j].pos[sat-1, :]) <= 0.0:
+            if np.linalg.norm(nav.peph[i+j].pos[sat-1, 0:3]) <= 0.0:
                 return None, None, False, False
 
         for j in range(NMAX+1):
-- 
2.43.0


From 5f3736843bcea7aaf51bf4ca9a09bbb59fc0c66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:04 +0000
Subject: [PATCH 063/187] fix: type error of peph2pos() at the end of the SP3
 table

---
 src/cssrlib/peph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index db58b56..2933a25 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -454,7 +454,7 @@ class peph:
         #
         time_tt = timeadd(time, tt)
         rst, dtst, _, _ = self.pephpos(time_tt, sat, nav)
-        if rss is None:
+        if rst is None:
             return None, None, False
 
         # Get clock offset from Clock-RINEX
-- 
2.43.0


From f362e2040388956a3bc8515410377e787135e66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 064/187] fix: number of SP3 epochs when epochs without values
 are dropped

---
 src/cssrlib/peph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index 2933a25..a76283d 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -141,7 +141,6 @@ class peph:
                 if self.status == 10:  # body
                     if line[0:2] == '* ':  # epoch header
                         v = False
-                        nav.ne += 1
                         self.cnt = 0
                         peph = peph_t(str2time(line, 3, 27))
                         # ep = time2epoch(peph.time)
@@ -198,8 +197,9 @@ class peph:
                                             peph.std[sat_-1, j] = v
                                         else:
                                             peph.vst[sat_-1, j] = v*1e-4
-                    if v:
-                        nav.peph.append(peph)
+                        if v:
+                            nav.ne += 1
+                            nav.peph.append(peph)
 
         return nav
 
-- 
2.43.0


From f93dea4cd73516e1b0f59ea002c6bb0f38ef93f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 065/187] fix: SP3 files with EP/EV records or unsupported
 satellites

---
 src/cssrlib/peph.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index a76283d..2eaca6e 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -148,13 +148,18 @@ class peph:
                         #       .format(ep[0], ep[1], ep[2], ep[3], ep[4], ep[5]))
 
                         nline = self.nsat if self.flag == 'P' else self.nsat*2
-                        for _ in range(nline):
+                        while nline > 0:
                             line = fh.readline()
+                            if not line:  # end of file
+                                break
                             if line[0] != 'P' and line[0] != 'V':
                                 continue
+                            nline -= 1
 
                             svid = line[1:4]
                             sat_ = id2sat(svid)
+                            if sat_ <= 0:  # unsupported satellite
+                                continue
 
                             # clk_ev   = line[74] # clock event flag
                             # clk_pred = line[75] # clock pred. flag
-- 
2.43.0


From f4d7c7f7134818837bc9d4d9dcf6b1bbe2afdd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 066/187] fix: accuracy codes of the SP3 header

---
 src/cssrlib/peph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index 2eaca6e..0c87138 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -61,7 +61,7 @@ class peph:
                 self.cnt += 1
 
     def parse_acclist(self, line):
-        n = len(line[9:60].strip())//3
+        n = len(line[9:60].rstrip())//3
         for k in range(n):
             acc = int(line[9+3*k:12+3*k])
             if self.cnt < self.nsat:
-- 
2.43.0


From d62c35c25509be3af1b5842eb286b1005b17ecb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 067/187] fix: SBAS and unsupported satellites of RINEX clock
 files

---
 src/cssrlib/rinex.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 00e6cba..59a0a98 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -773,11 +773,9 @@ class rnxdec:
             if line[0:2] != 'AS':
                 continue
 
-            sys = char2sys(line[3])
-            prn = int(line[4:7])
-            if sys == uGNSS.QZS:
-                prn += 192
-            sat = prn2sat(sys, prn)
+            sat = id2sat(line[3:6])
+            if sat <= 0:  # unsupported satellite
+                continue
 
             t = self.decode_time(line, offs+8, 9)
 
-- 
2.43.0


From 758004a88bdc2d964a7cebf35908393a749e4969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 068/187] fix: reading a second RINEX clock file

---
 src/cssrlib/rinex.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 59a0a98..9a1f24a 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -753,6 +753,7 @@ class rnxdec:
         offs = None
 
         nav.pclk = []
+        nav.nc = 0
         fnav = open(clkfile, 'rt')
 
         # Read header section
-- 
2.43.0


From 893edebfba193a583aa320449936f7ca0cd34eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 069/187] fix: receiver antennas with serial number in ANTEX
 files

---
 src/cssrlib/peph.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index 0c87138..f5348e3 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -539,10 +539,12 @@ class atxdec():
                 if "TYPE / SERIAL NO" in line[60:]:
                     pcv.type = line[0:20]
                     pcv.code = line[20:40].strip()
-                    if not pcv.code:
-                        pcv.sat = None
-                    else:
+                    # satellite code, otherwise serial number of the receiver
+                    if len(pcv.code) == 3 and pcv.code[1:].isdigit() and \
+                            id2sat(pcv.code) > 0:
                         pcv.sat = id2sat(pcv.code)
+                    else:
+                        pcv.sat = None
                 elif "VALID FROM" in line[60:]:
                     pcv.ts = str2time(line, 2, 40)
                 elif "VALID UNTIL" in line[60:]:
-- 
2.43.0


From d1910c6541780c1197d22a1ad5339ac5893b6d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 070/187] fix: key error of antModelTx() for signals without
 calibration

---
 src/cssrlib/peph.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index f5348e3..df7abf2 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -836,7 +836,7 @@ def antModelTx(nav, e, sigs, sat, time, rs, sig0=None):
                 off0 += fac0_*ant.off[sig]
             else:
                 print(f"sig={sig} not in antenna database.")
-                off0 = np.ones((1,3))*np.nan
+                off0 = np.ones(3)*np.nan
 
     # Interpolate PCV and map PCO on line-of-sight vector
     #
@@ -847,19 +847,20 @@ def antModelTx(nav, e, sigs, sat, time, rs, sig0=None):
         #
         sig = substSigTx(ant, sig_)
 
-        # Satellite PCO in local antenna frame
-        #
-        off = ant.off[sig] - off0
-
-        # Convert satellite PCO from antenna frame into ECEF frame
-        #
-        pco_v = off@A
-
         # Interpolate PCV and map PCO on line-of-sight vector
         #
         if sig not in ant.off or sig not in ant.var:
             dant[i] = None
         else:
+
+            # Satellite PCO in local antenna frame
+            #
+            off = ant.off[sig] - off0
+
+            # Convert satellite PCO from antenna frame into ECEF frame
+            #
+            pco_v = off@A
+
             pcv = np.interp(za, za_t, ant.var[sig])
             pco = -np.dot(pco_v, -e)
             dant[i] = (pco+pcv)*1e-3
-- 
2.43.0


From 75c422e7b6d6d0149cf2728c9597ec4ad1c8b3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 071/187] fix: skip GLONASS DSBs of other stations

---
 src/cssrlib/peph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index df7abf2..fd90b7b 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -1348,7 +1348,7 @@ class biasdec():
 
                     # Skip GLONASS biases if site ID does not match
                     #
-                    if sys == 'R' and not site == siteID:
+                    if sys == uGNSS.GLO and not site == siteID:
                         continue
 
                     sig1 = rSigRnx(sys, line[25:28])
-- 
2.43.0


From 0bca0487ddf2bd04e93ca60d6b717e720ec0cbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 072/187] fix: attribute error of getdcb()

---
 src/cssrlib/peph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index fd90b7b..8cef877 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -1286,7 +1286,7 @@ class biasdec():
                     timediff(time, dcb.ted) < 0.0:
                 bias = dcb.bias
                 std = dcb.std
-                bcode = dcb.code1
+                bcode = dcb.sig1
                 break
 
         return bias, std, bcode
-- 
2.43.0


From d6cd731da7e8eee401f7286765932d6545f0872b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 073/187] fix: open start time of Bias-SINEX records

---
 src/cssrlib/peph.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index 8cef877..1ba6d01 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -1265,13 +1265,13 @@ class biasdec():
         self.dcb = []
         self.osb = []
 
-    def doy2time(self, ep):
-        """ calculate time from doy """
+    def doy2time(self, ep, undef=3000):
+        """ calculate time from doy, undef: year of undefined times """
         year = int(ep[0])
         doy = int(ep[1])
         sec = int(ep[2])
         if year == 0 and doy == 0 and sec == 0:  # undef
-            year = 3000
+            year = undef
         days = (year-1970)*365+(year-1969)//4+doy-1
         return gtime_t(days*86400+sec)
 
@@ -1359,7 +1359,7 @@ class biasdec():
                         line[40:43]), int(line[44:49])]
                     ep2 = [int(line[50:54]), int(
                         line[55:58]), int(line[59:64])]
-                    tst = self.doy2time(ep1)
+                    tst = self.doy2time(ep1, 1970)
                     ted = self.doy2time(ep2)
                     unit = line[65:69]
 
@@ -1409,7 +1409,7 @@ class biasdec():
                         line[40:43]), int(line[44:49])]
                     ep2 = [int(line[50:54]), int(
                         line[55:58]), int(line[59:64])]
-                    tst = self.doy2time(ep1)
+                    tst = self.doy2time(ep1, 1970)
                     ted = self.doy2time(ep2)
                     unit = line[65:69]
                     # if (type1 == 0 and unit[0:2] != 'ns') or (type1 == 1 and unit[0:3] != 'cyc'):
-- 
2.43.0


From 0c15f55b79939a3b50f7b412a296d07544dad5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 074/187] fix: short NOAZI records of ANTEX files

---
 src/cssrlib/peph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index 1ba6d01..389243b 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -523,7 +523,8 @@ class atxdec():
 
         with open(fname, "r") as fh:
             for line in fh:
-                if len(line) < 60 or "COMMENT" in line[60:]:
+                if "COMMENT" in line[60:] or \
+                        (len(line) < 60 and "NOAZI" not in line[3:8]):
                     continue
                 if "START OF ANTENNA" in line[60:]:
                     pcv = pcv_t()
-- 
2.43.0


From 1b1bd63c4caff4af91d3c84859aef1745f0a7fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 075/187] fix: SP3 epochs with standard deviations but without
 values

---
 src/cssrlib/peph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index 389243b..f3bdc5c 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -197,11 +197,11 @@ class peph:
                                     s = line[61+j*3:61+j*3+slen]
                                     std = int(s) if s[-1] != ' ' else 0
                                     if self.scl[ofst] > 0.0 and std > 0.0:
-                                        v = pow(self.scl[ofst], std)*scl
+                                        sd = pow(self.scl[ofst], std)*scl
                                         if line[0] == 'P':
-                                            peph.std[sat_-1, j] = v
+                                            peph.std[sat_-1, j] = sd
                                         else:
-                                            peph.vst[sat_-1, j] = v*1e-4
+                                            peph.vst[sat_-1, j] = sd*1e-4
                         if v:
                             nav.ne += 1
                             nav.peph.append(peph)
-- 
2.43.0


From a9ff4ca4cab4e216742117b4dfff354da03c057d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 076/187] fix: standard deviations of short SP3 records

---
 src/cssrlib/peph.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index f3bdc5c..ace31e0 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -188,20 +188,19 @@ class peph:
                                     elif v:
                                         peph.vel[sat_-1, j] = val*scl*1e-4
 
-                            if len(line) >= 74:
-                                for j in range(4):
-                                    if j < 3:
-                                        slen, scl, ofst = 2, 1e-3, 0
+                            for j in range(4):
+                                if j < 3:
+                                    slen, scl, ofst = 2, 1e-3, 0
+                                else:
+                                    slen, scl, ofst = 3, 1e-12, 1
+                                s = line[61+j*3:61+j*3+slen].strip()
+                                std = int(s) if s else 0
+                                if self.scl[ofst] > 0.0 and std > 0.0:
+                                    sd = pow(self.scl[ofst], std)*scl
+                                    if line[0] == 'P':
+                                        peph.std[sat_-1, j] = sd
                                     else:
-                                        slen, scl, ofst = 3, 1e-12, 1
-                                    s = line[61+j*3:61+j*3+slen]
-                                    std = int(s) if s[-1] != ' ' else 0
-                                    if self.scl[ofst] > 0.0 and std > 0.0:
-                                        sd = pow(self.scl[ofst], std)*scl
-                                        if line[0] == 'P':
-                                            peph.std[sat_-1, j] = sd
-                                        else:
-                                            peph.vst[sat_-1, j] = sd*1e-4
+                                        peph.vst[sat_-1, j] = sd*1e-4
                         if v:
                             nav.ne += 1
                             nav.peph.append(peph)
-- 
2.43.0


From 10cc36371a0f25307fb1fd5b26bd491a1494eadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 077/187] fix: antenna corrections at the zenith and the nadir
 (NaN by rounding)

---
 src/cssrlib/peph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index ace31e0..d5d197e 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -807,7 +807,7 @@ def antModelTx(nav, e, sigs, sat, time, rs, sig0=None):
 
     # Zenith angle and zenith angle grid
     #
-    za = np.rad2deg(np.arccos(np.dot(ez, -e)))
+    za = np.rad2deg(np.arccos(np.clip(np.dot(ez, -e), -1.0, 1.0)))
     za_t = np.arange(ant.zen[0], ant.zen[1]+ant.zen[2], ant.zen[2])
 
     # CoM offset of reference signals
@@ -908,7 +908,7 @@ def antModelRx(nav, pos, e, sigs, rtype=1):
 
     # Elevation angle, zenith angle and zenith angle grid
     #
-    za = np.rad2deg(np.arccos(e[2]))
+    za = np.rad2deg(np.arccos(np.clip(e[2], -1.0, 1.0)))
     za_t = np.arange(ant.zen[0], ant.zen[1]+ant.zen[2], ant.zen[2])
 
     # Loop over signals
-- 
2.43.0


From 5a03d6dfb83690a474a0f09db06610e27475551f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 078/187] fix: OSNMA tags of the last sub-frame of a week

---
 src/cssrlib/osnma.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 57592c8..9685edd 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -895,8 +895,12 @@ class osnma():
                 return status
 
             # 6.5 MAC Look-up Table Verification
+            gst_wn_p = gst_wn
             self.gst_tow_p = self.gst_tow-30
-            self.gst_sf_p = self.set_gst_sf(gst_wn, self.gst_tow_p)
+            if self.gst_tow_p < 0:
+                self.gst_tow_p += 86400*7
+                gst_wn_p -= 1
+            self.gst_sf_p = self.set_gst_sf(gst_wn_p, self.gst_tow_p)
             result = self.verify_maclt()
             if self.monlevel > 0:
                 s = f"on {wn:4d}/{tow:6d} prn={prn}"\
-- 
2.43.0


From f8bd20c35f7919b06fc5b4ec1a70b6472ff55cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 079/187] fix: OSNMA key chain over the start of a week

---
 src/cssrlib/osnma.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 9685edd..2c0e0a5 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -350,8 +350,9 @@ class osnma():
         """ return next key from key chanin """
         # k_l=trunc(lk,hash(k_l+1||GST_SF_l||alp))
         klen_b = self.klen_t[self.ks]//8
+        gst_tow = gst_tow0
         for k in range(ki):
-            gst_tow = gst_tow0 - 30*(k+1)
+            gst_tow -= 30
             if gst_tow < 0:
                 gst_tow += 86400*7
                 gst_wn -= 1
-- 
2.43.0


From 0583359b1bb3b50b1d75221368084f69963aa26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 080/187] fix: OSNMA keys are verified against verified keys
 only

---
 src/cssrlib/osnma.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 2c0e0a5..d43eaec 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -366,13 +366,17 @@ class osnma():
         if not self.status & uOSNMA.ROOTKEY_VERIFIED:  # root-key verified
             return False
         if self.status & uOSNMA.KEYCHAIN_VERIFIED:
-            key = self.update_key_chain(key, gst_wn, gst_tow0, 1)
-            result = (key == self.key_p)
+            # against the last verified key (the keys of other MACKs are not)
+            key_t = self.key
+            ki = self.difftime(self.gst_sf, self.gst_sf_c)//30
         else:
+            key_t = self.kroot
             ki = ((gst_wn-self.wn)*86400*7 +
                   (self.gst_tow-self.towh*3600))//30+1
+        result = False
+        if ki > 0:
             key = self.update_key_chain(key, gst_wn, gst_tow0, ki)
-            result = (key == self.kroot)
+            result = (key == key_t)
         if result:
             self.status |= uOSNMA.KEYCHAIN_VERIFIED  # key-chain verified
         else:
-- 
2.43.0


From b943be78e3ad77744b24797662eee0aea855f597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 081/187] fix: OSNMA root key parameters are not replaced by
 unverified ones

---
 src/cssrlib/osnma.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index d43eaec..002effc 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -316,6 +316,8 @@ class osnma():
         msg = bytearray([self.nma_header]) + self.dsm[did][1:13+lk_b]
 
         result = False
+        if did not in self.dsm:
+            return False
         hash_func = self.hash_table[self.hf]
         ds_der = raw2der(self.ds)
         if self.pkid not in self.pk_list.keys():
@@ -386,7 +388,21 @@ class osnma():
         return result
 
     def decode_dsm_kroot(self, did):
-        """ decode DSM-KROOT """
+        """ decode DSM-KROOT, a verified root key is replaced only by another
+        one with valid signature """
+        params = ('pkid', 'cidkr', 'hf', 'mf', 'ks', 'ts', 'maclt', 'wn',
+                  'towh', 'alp', 'kroot', 'ds', 'did0')
+        prev = [getattr(self, p) for p in params]
+        result = self.unpack_dsm_kroot(did)
+        if result and self.status & uOSNMA.ROOTKEY_VERIFIED:
+            result = self.verify_root_key()
+        if not result:
+            for p, v in zip(params, prev):
+                setattr(self, p, v)
+        return result
+
+    def unpack_dsm_kroot(self, did):
+        """ unpack DSM-KROOT """
         v = bs.unpack_from('u4u4u2u2u2u2u4u4u8u4u12u8', self.dsm[did], 0)
         nb = v[0]+6   # number of blocks
         self.pkid = v[1]  # Public Key ID
@@ -400,6 +416,9 @@ class osnma():
         self.wn = v[10]  # KROOT week number, tow[h]
         self.towh = v[11]
         self.alp = self.dsm[did][7:13]  # random pattern alpha
+        if self.hf not in self.hash_table or self.ks >= len(self.klen_t) or \
+                self.tag_len_t[self.ts] == 0 or self.mf > 1:  # reserved
+            return False
         l_dk = nb*104
         l_ds = 512  # P-256/SHA-256
         l_k = self.klen_t[self.ks]
-- 
2.43.0


From e28de1f11073a4acf39d5e0111505d28cc11412e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 082/187] fix: OSNMA MAC look-up tables without six tags

---
 src/cssrlib/osnma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 002effc..de7722b 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -588,7 +588,7 @@ class osnma():
         if self.nt*2 != len(adkd_t):
             return False
         gst_wn, gst_tow_p = bs.unpack_from('u12u20', self.gst_sf_p, 0)
-        ofst = 0 if gst_tow_p % 60 == 0 else 6
+        ofst = 0 if gst_tow_p % 60 == 0 else self.nt
         for k in range(self.nt-1):
             tag, prn_d, adkd, cop = self.decode_tags_info(k+1)
             i = k + ofst + 1
@@ -617,7 +617,7 @@ class osnma():
             return False
         mode_t = self.mode_t[self.maclt]
         gst_wn, gst_tow_p = bs.unpack_from('u12u20', self.gst_sf_p, 0)
-        ofst = 0 if gst_tow_p % 60 == 0 else 6
+        ofst = 0 if gst_tow_p % 60 == 0 else self.nt
 
         ltag_b = self.tag_len_t[self.ts]//8+2
         for k in range(self.nt):  # add FLEX taginfo
-- 
2.43.0


From e7aa76f9380b794e8ad8039980e282221511485e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 083/187] fix: no OSNMA authentication while the status is
 don't use

---
 src/cssrlib/osnma.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index de7722b..f0a56b7 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -894,6 +894,10 @@ class osnma():
                     else:
                         print(f"root-key not verified {s}")
 
+            # 3.1.1 OSNMA is not to be used with the other NMA status
+            if self.nma_header >> 6 not in (1, 2):
+                return status
+
             # decode MACK section, get Tags and Key
             if not self.decode_mack(prn):
                 return status
-- 
2.43.0


From 22221eaac436eb021839c77798a454f68a9807d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 084/187] fix: pages of two sub-frames are not mixed in OSNMA

---
 src/cssrlib/osnma.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index f0a56b7..4fca6fb 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -277,6 +277,7 @@ class osnma():
         self.key_c = bytearray(16)
         self.key = bytearray(16)
 
+        self.gst_sf_r = {}  # sub-frame being received
         self.vstatus = {}  # validation status [prn][iodnav]
 
         self.fh = open(logfile, "wt")
@@ -857,11 +858,7 @@ class osnma():
         """
         status = False
         ki = (tow % 30)//2
-        if ki == 0:  # reset counter
-            self.cnt[prn-1] = 0
-            self.hk[prn-1] = bytearray(15)
-            self.mack[prn-1][0] = 0
-        elif ki < 0:
+        if ki < 0:
             return status
 
         # convert GPS time to Galileo standard time (GST)
@@ -869,6 +866,12 @@ class osnma():
         self.gst_tow = (gst_tow//30)*30  # current subframe-time
         self.gst_sf = self.set_gst_sf(gst_wn, self.gst_tow)
 
+        if self.gst_sf != self.gst_sf_r.get(prn):  # reset counter
+            self.gst_sf_r[prn] = self.gst_sf
+            self.cnt[prn-1] = 0
+            self.hk[prn-1] = bytearray(15)
+            self.mack[prn-1][0] = 0
+
         # store sub-frame for NMA
         self.hk[prn-1][ki] = nma_b[0]              # HK-ROOT message
         self.mack[prn-1][ki*4:ki*4+4] = nma_b[1:5]  # MACK message
-- 
2.43.0


From 0eb319872586f7649e1776f453e291c24ec74ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 085/187] fix: OSNMA slow MAC tags are evaluated once

---
 src/cssrlib/osnma.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 4fca6fb..d8cbaa5 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -1006,9 +1006,12 @@ class osnma():
                         print(f"{s} tag not verified")
             # slow MAC
             if self.flg_slowmac:
-                for tag_ in self.tag_list:
+                tag_list, self.tag_list = self.tag_list, []
+                for tag_ in tag_list:
                     dt = self.difftime(self.gst_sf_p, tag_.gst_sf)
-                    if dt == 300:
+                    if dt < 300:
+                        self.tag_list.append(tag_)
+                    elif dt == 300:
                         self.prn_a = tag_.prn_a
                         result = self.verify_navmsg(tag_)
                         status = self.save_auth_nav(result, tag_)
@@ -1019,8 +1022,6 @@ class osnma():
                                 print(f"Slow-MAC {s} verified")
                             else:
                                 print(f"{s} not verified")
-                    elif dt > 300:
-                        self.tag_list.remove(tag_)
 
             self.nsat = self.count_valid_sat()
             self.cnt[prn-1] = 0
-- 
2.43.0


From 5080953fc4e7fc6e9b721b67bf22e114afcb7284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 086/187] fix: OSNMA public key renewal before the root key or
 without Merkle root

---
 src/cssrlib/osnma.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index d8cbaa5..c126a21 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -288,9 +288,10 @@ class osnma():
                 return
             self.load_mt(self.pubk_bdir + mt_file)
 
-    def process_hash(self, msg):
+    def process_hash(self, msg, hf=None):
         """ calculate hash """
-        digest = hashes.Hash(self.hash_table[self.hf]())
+        hf = self.hf if hf is None else hf
+        digest = hashes.Hash(self.hash_table[hf]())
         digest.update(msg)
         h = digest.finalize()
         return h
@@ -344,8 +345,10 @@ class osnma():
 
     def verify_pdp(self, mi, p_dp):
         """ verify P_DP """
+        if not isinstance(self.root_mt, (bytes, bytearray)):
+            return False
         msg = self.root_mt + mi
-        h = self.process_hash(msg)
+        h = self.process_hash(msg, 0)
         l_pdp = len(p_dp)
         return h[0:l_pdp] == p_dp
 
@@ -469,14 +472,14 @@ class osnma():
             return False
 
         # 6.2 DSM-PKR Verification
-        x = self.process_hash(mi)  # Eq.12
+        x = self.process_hash(mi, 0)  # Eq.12 (SHA-256)
         for k in range(4):
             itn_b = itn[k*32:(k+1)*32]
             if mid % 2 == 0:
                 msg = x+itn_b
             else:
                 msg = itn_b+x
-            x = self.process_hash(msg)  # Eq.13
+            x = self.process_hash(msg, 0)  # Eq.13
             mid >>= 1
 
         result = (x == self.root_mt)
-- 
2.43.0


From 4eb77dc570db89ee070173ed94833068557214f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 087/187] fix: OSNMA alert messages carry no public key

---
 src/cssrlib/osnma.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index c126a21..91e5268 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -488,8 +488,9 @@ class osnma():
 
         self.npkid = npkid
         if result:
-            pk_ = self.pubkey_decompress(npkt, npk)
-            self.pk_list[npkid] = pk_
+            if npkt != 4:  # no key in OSNMA alert messages
+                pk_ = self.pubkey_decompress(npkt, npk)
+                self.pk_list[npkid] = pk_
             self.status |= uOSNMA.PKR_UPDATED  # PKR updated
         return result
 
-- 
2.43.0


From 30a65cefcf22c3f26e31d88a3285a3ef160a8ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 088/187] fix: public key identifier of load_pubkey_pkid()

---
 src/cssrlib/osnma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 91e5268..17814bc 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -306,7 +306,7 @@ class osnma():
         pk = load_pubkey(self.pubk_bdir+pubk_path)
         if pk is None:
             return False
-        self.pk_list[self.pkid] = pk
+        self.pk_list[pkid] = pk
         return True
 
     def verify_root_key(self):
-- 
2.43.0


From 0936db52fceade5353f11c3cb15300aa5f899245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 089/187] fix: OSNMA DSM with blocks beyond its end

---
 src/cssrlib/osnma.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 17814bc..23f8946 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -542,8 +542,9 @@ class osnma():
         if self.monlevel > 1:
             print(f"flg_dsm[did={did}]={self.flg_dsm[did]:2x} "
                   f"nb={self.nb[did]:2d} bid={bid} prn={prn}")
+        mask = (1 << self.nb[did])-1
         if did in self.nb.keys() and self.nb[did] > 0 and \
-                self.flg_dsm[did] == (1 << self.nb[did])-1:
+                self.flg_dsm[did] & mask == mask:
             if did <= 11:  # DSM-KROOT
                 result = self.decode_dsm_kroot(did)
             else:  # DSM-PKR
-- 
2.43.0


From f95dc9f80fb1810c9ee4dff9ccccaba790bd2058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 090/187] fix: OSNMA sub-frames are evaluated once

---
 src/cssrlib/osnma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 23f8946..73a2a78 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -883,6 +883,7 @@ class osnma():
         self.cnt[prn-1] |= (1 << ki)
 
         if self.cnt[prn-1] == 0x7fff:  # all(0-14) message loaded
+            self.cnt[prn-1] = 0
             self.save_mack(self.mack[prn-1], prn)  # store MACK
             # decode HK-ROOT messages
             result = self.decode_hk(self.hk[prn-1], prn)
@@ -1029,5 +1030,4 @@ class osnma():
                                 print(f"{s} not verified")
 
             self.nsat = self.count_valid_sat()
-            self.cnt[prn-1] = 0
         return status
-- 
2.43.0


From 73297aaf65b01423cede90f7e9a5bfdbf00cc1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:18 +0000
Subject: [PATCH 091/187] fix: state of the OSNMA receiver shared between
 instances

---
 src/cssrlib/osnma.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 73a2a78..afedace 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -256,6 +256,15 @@ class osnma():
 
         # 'OSNMA_MerkleTree_20240115100000_newPKID_1.xml'
 
+        # state of this receiver (not shared between instances)
+        self.dsm = {}
+        self.nb = {}
+        self.tag = bytearray(42)
+        self.mack_p = bytearray(60*self.GALMAX)
+        self.mack_c = bytearray(60*self.GALMAX)
+        self.hk = []
+        self.mack = []
+
         self.cnt = np.zeros(self.GALMAX, dtype=int)
         for prn in range(self.GALMAX):
             self.hk.append(bytearray(15))
-- 
2.43.0


From 69b18b7d3fd1a0f618b129bec7e85e08878076ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:18 +0000
Subject: [PATCH 092/187] fix: options of one estimator changed the default
 configuration

---
 src/cssrlib/pppssr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index 4c7bc59..cdba7f9 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -2,6 +2,7 @@
 module for standard PPP positioning
 """
 
+from copy import deepcopy
 import numpy as np
 
 from cssrlib.ephemeris import satposs
@@ -35,8 +36,8 @@ class pppos():
                  config=None):
         """ initialize variables for PPP """
 
-        if config is None:
-            config = default_config
+        # options of this instance (the defaults are left as they are)
+        config = deepcopy(default_config if config is None else config)
 
         if trop_opt > 0:
             config['nav']['trop_opt'] = trop_opt
-- 
2.43.0


From 974b63718882ffbfea8693cd77f1f232fffedce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:14 +0000
Subject: [PATCH 093/187] fix: RINEX navigation lines without trailing blanks

---
 src/cssrlib/rinex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 9a1f24a..4a8fb98 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -127,7 +127,7 @@ class rnxdec:
         """ convert string to float """
         if c >= 0:
             u = u[19*c+4:19*(c+1)+4]
-        if u.isspace():
+        if not u.strip():  # blank or beyond the end of line
             return 0.0
         return float(u.replace("D", "E"))
 
-- 
2.43.0


From c5befb6e5b5b4cdbe6fbf40ee649df69caca3ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:14 +0000
Subject: [PATCH 094/187] fix: issue, time and group delay of NavIC RINEX
 records

---
 src/cssrlib/rinex.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 4a8fb98..69b113b 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -576,8 +576,9 @@ class rnxdec:
 
             line = fnav.readline()  # line #3
             if sys == uGNSS.IRN and self.mode_nav == 2:
-                eph.iode = int(self.flt(line, 0))
-                eph.iode = eph.iodc
+                eph.iode = int(self.flt(line, 0))  # IODEC
+                eph.iodc = eph.iode
+                eph.week, eph.toes = time2gpst(eph.toc)
             else:
                 if (sys == uGNSS.GPS or sys == uGNSS.QZS) and \
                         self.mode_nav > 0:  # CNAV, CNAV/2
@@ -633,9 +634,9 @@ class rnxdec:
                     eph.urai = self.flt(line, 0)
                 eph.svh = int(self.flt(line, 1))
                 if self.mode_nav == 2 and eph.integ == 1:
-                    eph.tgd = int(self.flt(line, 3))
+                    eph.tgd = self.flt(line, 3)
                 else:
-                    eph.tgd = int(self.flt(line, 2))
+                    eph.tgd = self.flt(line, 2)
             else:
                 eph.sva = int(self.flt(line, 0))
                 eph.svh = int(self.flt(line, 1))
-- 
2.43.0


From fd400b5e4d0997ccffcc337f22a230fd013c7ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:14 +0000
Subject: [PATCH 095/187] fix: GLONASS CDMA records of RINEX 4

---
 src/cssrlib/rinex.py | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 69b113b..d1bb281 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -390,8 +390,9 @@ class rnxdec:
                 geph.mode = self.mode_nav
                 toc = self.decode_time(line, 4)
                 week, tocs = time2gpst(toc)
-                toc = gpst2time(week,
-                                np.floor((tocs+450.0)/900.0)*900.0)
+                if self.mode_nav == 0:  # FDMA
+                    toc = gpst2time(week,
+                                    np.floor((tocs+450.0)/900.0)*900.0)
                 dow = int(tocs//86400.0)
 
                 geph.taun = -self.flt(line, 1)
@@ -399,7 +400,7 @@ class rnxdec:
                 if self.mode_nav == 0:  # FDMA
                     t0 = self.flt(line, 3)
                 else:  # L1OC, L3OC
-                    bet_ = self.flt(line, 3)  # clock drift rate
+                    geph.beta = self.flt(line, 3)  # clock drift rate
 
                 line = fnav.readline()  # line #1
                 pos[0] = self.flt(line, 0)*1e3
@@ -418,7 +419,7 @@ class rnxdec:
                     if geph.frq > 128:
                         geph.frq -= 256
                 else:  # L1OC
-                    dvalid = int(self.flt(line, 3))
+                    geph.status = int(self.flt(line, 3))  # data validity
 
                 line = fnav.readline()  # line #3
                 pos[2] = self.flt(line, 0)*1e3
@@ -432,9 +433,9 @@ class rnxdec:
                 if self.mode_nav == 0:  # FDMA
                     geph.age = int(self.flt(line, 3))
                 elif self.mode_nav == 1:  # L1OC
-                    tgd_L2OCp = self.flt(line, 3)  # tgd_L2OCp
+                    geph.isc[1] = self.flt(line, 3)  # tgd_L2OCp
                 elif self.mode_nav == 3:  # L3OC
-                    isc_L3OCp = self.flt(line, 3)  # isc_L3OCp
+                    geph.isc[2] = self.flt(line, 3)  # isc_L3OCp
 
                 # Use GLONASS line #4 only from RINEX v3.05 onwards
                 #
@@ -450,33 +451,33 @@ class rnxdec:
                         if len(line) >= 80:
                             geph.svh = int(self.flt(line, 3))
                     else:  # L1OC,L3OC
-                        sattype = int(self.flt(line, 0))
-                        src = int(self.flt(line, 1))
+                        geph.sattype = int(self.flt(line, 0))
+                        geph.src = int(self.flt(line, 1))
                         geph.aode = int(self.flt(line, 2))
                         geph.aodc = int(self.flt(line, 3))
 
                         line = fnav.readline()  # line #5
-                        P2 = int(self.flt(line, 0))  # attitude flag
+                        geph.flag = int(self.flt(line, 0))  # attitude flag
                         geph.tin = self.flt(line, 1)  # sec of day, UTC(SU)
                         geph.tau1 = self.flt(line, 2)
                         geph.tau2 = self.flt(line, 3)
 
                         line = fnav.readline()  # line #6
-                        geph.yaw = self.flt(line, 0)
+                        geph.psi = self.flt(line, 0)
                         geph.sn = int(self.flt(line, 1))
                         geph.win = self.flt(line, 2)
                         geph.dw = self.flt(line, 3)
 
                         line = fnav.readline()  # line #7
                         geph.wmax = self.flt(line, 0)
-                        geph.dpoc[0] = self.flt(line, 1)
-                        geph.dpoc[1] = self.flt(line, 2)
-                        geph.dpoc[2] = self.flt(line, 3)
+                        geph.dpos[0] = self.flt(line, 1)
+                        geph.dpos[1] = self.flt(line, 2)
+                        geph.dpos[2] = self.flt(line, 3)
 
                         line = fnav.readline()  # line #8
                         geph.urai[0] = int(self.flt(line, 0))
                         geph.urai[1] = int(self.flt(line, 1))
-                        tot = self.flt(line, 2)
+                        t0 = self.flt(line, 2)
 
                 tod = t0 % 86400.0
                 tof = gpst2time(week, tod + dow*86400.0)
@@ -486,7 +487,8 @@ class rnxdec:
                 geph.tof = utc2gpst(tof)
 
                 # iode = Tb(7bit)
-                geph.iode = int(((tocs+10800.0) % 86400)/900.0+0.5)
+                unit = 900.0 if self.mode_nav == 0 else 90.0
+                geph.iode = int(((tocs+10800.0) % 86400)/unit+0.5)
 
                 nav.geph.append(geph)
                 continue
@@ -1438,9 +1440,9 @@ class rnxenc:
             fh.write("    {:19.12E}{:19.12E}{:19.12E}{:19.12E}\n".
                      format(geph.wmax, float(geph.dpos[0]),
                             geph.dpos[1], geph.dpos[2]))
-            fh.write("    {:19.12E}{:19.12E}{:19s}{:19.12E}\n".
-                     format(float(geph.urai[0]), float(geph.urai[1]), "",
-                            tot_))
+            fh.write("    {:19.12E}{:19.12E}{:19.12E}{:19s}\n".
+                     format(float(geph.urai[0]), float(geph.urai[1]),
+                            tot_, ""))
 
     def rnx_snav_body(self, seph=None, fh=None):
         """ write RINEX navigation message for SBAS to file """
-- 
2.43.0


From f9aa1578c169cce355171deae4dfd15ef949eae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:14 +0000
Subject: [PATCH 096/187] fix: GLONASS FDMA records survive writing and reading

---
 src/cssrlib/rinex.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index d1bb281..c8595f5 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -446,8 +446,10 @@ class rnxdec:
                     if self.mode_nav == 0:  # FDMA
                         # b7-8: M, b6: P4, b5: P3, b4: P2, b2-3: P1, b0-1: P
                         geph.status = int(self.flt(line, 0))
-                        geph.dtaun = -self.flt(line, 1)
+                        geph.flag = geph.status
+                        geph.dtaun = self.flt(line, 1)
                         geph.urai[0] = int(self.flt(line, 2))
+                        geph.sva = geph.urai[0]
                         if len(line) >= 80:
                             geph.svh = int(self.flt(line, 3))
                     else:  # L1OC,L3OC
@@ -485,6 +487,7 @@ class rnxdec:
 
                 geph.toe = utc2gpst(toc)
                 geph.tof = utc2gpst(tof)
+                _, geph.toes = time2gpst(geph.toe)
 
                 # iode = Tb(7bit)
                 unit = 900.0 if self.mode_nav == 0 else 90.0
@@ -1389,7 +1392,7 @@ class rnxenc:
             return
 
         ep = time2epoch(gpst2utc(geph.toe))
-        week, tot_ = time2gpst(geph.tof)
+        week, tot_ = time2gpst(gpst2utc(geph.tof))
 
         if geph.mode == 0:
             lbl = "FDMA"
-- 
2.43.0


From 2efa33fdef4b1b4663c7c70b5b1907f84498a1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:14 +0000
Subject: [PATCH 097/187] fix: SBAS records survive writing and reading

---
 src/cssrlib/rinex.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index c8595f5..4d5d327 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -509,6 +509,8 @@ class rnxdec:
                 seph.af0 = self.flt(line, 1)
                 seph.af1 = self.flt(line, 2)
                 seph.tot = self.flt(line, 3)
+                seph.t0 = seph.toc
+                seph.tof = gpst2time(time2gpst(seph.t0)[0], seph.tot)
 
                 line = fnav.readline()  # line #1
                 pos[0] = self.flt(line, 0)*1e3
@@ -1465,6 +1467,7 @@ class rnxenc:
 
         ep = time2epoch(seph.t0)
         week, tot_ = time2gpst(seph.tof)
+        tot_ += (week-time2gpst(seph.t0)[0])*604800.0
 
         fh.write("> {:2s} {:3s} {:2s}\n".format("EPH", id_, "SBAS"))
         fh.write("{:3s} {:4d} {:02d} {:02d} {:02d} {:02d} {:02d}".
-- 
2.43.0


From eb8291258944e657fff16946a6ef2d68ca6d3f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:15 +0000
Subject: [PATCH 098/187] fix: fields of RINEX navigation records lost or
 misplaced

---
 src/cssrlib/rinex.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 4d5d327..7692fc6 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -609,6 +609,8 @@ class rnxdec:
             if sys == uGNSS.GAL or self.mode_nav == 0:
                 eph.code = int(self.flt(line, 1))  # source for GAL
                 eph.week = int(self.flt(line, 2))
+                if sys == uGNSS.GPS:
+                    eph.l2p = int(self.flt(line, 3))
 
                 if sys == uGNSS.GAL and self.ver < 4.0:
                     eph.mode = 1 if eph.code & 0x2 else 0
@@ -664,7 +666,7 @@ class rnxdec:
                 elif sys == uGNSS.BDS:
                     eph.tgd_b = float(self.flt(line, 3))  # tgd2 B2/B3
 
-                if sys == uGNSS.QZS:
+                if sys == uGNSS.QZS and self.mode_nav == 0:
                     eph.code = eph.svh & 0x11  # L1C/A:0x01 or L1C/B:0x10
                     eph.svh = eph.svh & 0xEE   # mask L1C/A, L1C/B health
 
@@ -732,7 +734,7 @@ class rnxdec:
                 if self.mode_nav < 3:  # CNAV-1,2
                     eph.iodc = int(self.flt(line, 3))
                 else:  # CNAV-3
-                    eph.tgd_b = float(self.flt(line, 3))  # tgd_B2bI
+                    eph.tgd = float(self.flt(line, 3))  # tgd_B2bI
 
                 line = fnav.readline()  # line #9
                 tot = self.flt(line, 0)
-- 
2.43.0


From 2af3b2e30c9691764312d84e448a1e7c4f036da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:15 +0000
Subject: [PATCH 099/187] fix: transmission time of RINEX navigation records

---
 src/cssrlib/rinex.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 7692fc6..a925e83 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -1213,10 +1213,11 @@ class rnxenc:
 
         if sys == uGNSS.BDS:
             ep = time2epoch(gpst2bdt(eph.toc))
-            week, tot_ = time2bdt(eph.tot)
+            week, tot_ = time2bdt(gpst2bdt(eph.tot))
         else:
             ep = time2epoch(eph.toc)
             week, tot_ = time2gpst(eph.tot)
+        tot_ += (week-eph.week)*604800.0  # refer to the week of the record
 
         if sys == uGNSS.BDS:
             if eph.mode == 0:  # D1/D2
-- 
2.43.0


From 2989f1e5f155b10e0595cffee180f0ca0ce53ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:15 +0000
Subject: [PATCH 100/187] fix: a new ephemeris with the issue of the previous
 one is written

---
 src/cssrlib/rinex.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index a925e83..25fbecb 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -1200,13 +1200,13 @@ class rnxenc:
 
     def rnx_nav_body(self, eph=None, fh=None):
         """ write RINEX navigation message to file """
+        rec = [eph.iode, eph.week, eph.toes]
         if eph.sat in self.rec_eph.keys():
-            if eph.mode in self.rec_eph[eph.sat].keys() and \
-                    self.rec_eph[eph.sat][eph.mode][0] == eph.iode:
+            if self.rec_eph[eph.sat].get(eph.mode) == rec:
                 return
         else:
             self.rec_eph[eph.sat] = {}
-        self.rec_eph[eph.sat][eph.mode] = [eph.iode, eph.toes]
+        self.rec_eph[eph.sat][eph.mode] = rec
 
         id_ = sat2id(eph.sat)
         sys, prn = sat2prn(eph.sat)
@@ -1382,13 +1382,13 @@ class rnxenc:
 
     def rnx_gnav_body(self, geph=None, fh=None):
         """ write RINEX navigation message for GLONASS to file """
+        rec = [geph.iode, geph.toe.time]
         if geph.sat in self.rec_eph.keys():
-            if geph.mode in self.rec_eph[geph.sat].keys() and \
-                    self.rec_eph[geph.sat][geph.mode][0] == geph.iode:
+            if self.rec_eph[geph.sat].get(geph.mode) == rec:
                 return
         else:
             self.rec_eph[geph.sat] = {}
-        self.rec_eph[geph.sat][geph.mode] = [geph.iode, geph.toes]
+        self.rec_eph[geph.sat][geph.mode] = rec
 
         id_ = sat2id(geph.sat)
         sys, prn = sat2prn(geph.sat)
@@ -1454,13 +1454,13 @@ class rnxenc:
 
     def rnx_snav_body(self, seph=None, fh=None):
         """ write RINEX navigation message for SBAS to file """
+        rec = [seph.iodn, seph.t0.time]
         if seph.sat in self.rec_eph.keys():
-            if seph.mode in self.rec_eph[seph.sat].keys() and \
-                    self.rec_eph[seph.sat][seph.mode][0] == seph.iodn:
+            if self.rec_eph[seph.sat].get(seph.mode) == rec:
                 return
         else:
             self.rec_eph[seph.sat] = {}
-        self.rec_eph[seph.sat][seph.mode] = [seph.iodn]
+        self.rec_eph[seph.sat][seph.mode] = rec
 
         id_ = sat2id(seph.sat)
         sys, prn = sat2prn(seph.sat)
-- 
2.43.0


From 637928cf2aa2d2d7952e1dc1a3047d412cf07304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:15 +0000
Subject: [PATCH 101/187] fix: group delays of I/NAV and health of QZSS survive
 writing and reading

---
 src/cssrlib/rawnav.py |  4 ++--
 src/cssrlib/rinex.py  | 12 +++++++++---
 src/cssrlib/rtcm.py   |  5 +++--
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 04d6c9f..285cdb7 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -268,8 +268,8 @@ class RawNav():
         eph.toe = gst2time(week_gst, eph.toes)
         eph.toc = gst2time(week_gst, toc)
 
-        eph.tgd = bgda*rCST.P2_32    # TGD (E1, E5a)
-        eph.tgd_b = bgdb*rCST.P2_32  # TGD (E1, E5b)
+        eph.tgd = bgdb*rCST.P2_32    # TGD (E1, E5b), of the clock
+        eph.tgd_b = bgda*rCST.P2_32  # TGD (E1, E5a)
 
         # e5b_hs, e1b_hs, e5b_dvs, e1b_dvs
         eph.svh = (e5b_hs << 7) | (e5b_dvs << 6) | (e1b_hs << 1) | (e1b_dvs)
diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 25fbecb..f0089e6 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -1314,11 +1314,14 @@ class rnxenc:
 
         if (sys == uGNSS.GPS or sys == uGNSS.QZS):
             if eph.mode == 0:  # LNAV
+                svh = float(eph.svh)
+                if sys == uGNSS.QZS:  # L1C/A, L1C/B health
+                    svh = float(eph.svh | (eph.code & 0x11))
                 fh.write("    {:19.12E}{:19.12E}{:19.12E}{:19.12E}\n".
                          format(eph.idot, float(eph.code), float(eph.week),
                                 float(eph.l2p)))
                 fh.write("    {:19.12E}{:19.12E}{:19.12E}{:19.12E}\n".
-                         format(float(eph.sva), float(eph.svh), eph.tgd,
+                         format(float(eph.sva), svh, eph.tgd,
                                 float(eph.iodc)))
                 fh.write("    {:19.12E}{:19.12E}{:19s}{:19s}\n".
                          format(tot_, float(eph.fit), "", ""))
@@ -1342,9 +1345,12 @@ class rnxenc:
         if sys == uGNSS.GAL:  # I/NAV, F/NAV
             fh.write("    {:19.12E}{:19.12E}{:19.12E}{:19s}\n".
                      format(eph.idot, float(eph.code), float(eph.week), ""))
+            bgda, bgdb = eph.tgd, eph.tgd_b
+            if (eph.code >> 9) & 1:  # E5b,E1
+                bgda, bgdb = bgdb, bgda
             fh.write("    {:19.12E}{:19.12E}{:19.12E}{:19.12E}\n".
-                     format(float(eph.sva), float(eph.svh), eph.tgd,
-                            float(eph.tgd_b)))
+                     format(float(eph.sva), float(eph.svh), float(bgda),
+                            float(bgdb)))
             fh.write("    {:19.12E}{:19s}{:19s}{:19s}\n".
                      format(tot_, "", "", ""))
 
diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 853c4e7..756386e 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2746,8 +2746,9 @@ class rtcm(cssr, rtcmUtil):
         eph.omg = omg*rCST.P2_31*rCST.SC2RAD
         eph.OMGd = OMGd*rCST.P2_43*rCST.SC2RAD
         eph.tgd = tgd*rCST.P2_32
-        if self.msgtype == 1046:
-            eph.tgd_b = tgd2*rCST.P2_32
+        if self.msgtype == 1046:  # clock of E5b,E1
+            eph.tgd_b = eph.tgd
+            eph.tgd = tgd2*rCST.P2_32
 
         eph.week = self.adjustweek(eph.week, self.time)
 
-- 
2.43.0


From 6e5248b15b05b3e924dc426c61218eb4652cfef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:32 +0000
Subject: [PATCH 102/187] fix: accuracy of RINEX navigation records was
 truncated

---
 src/cssrlib/rinex.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index f0089e6..a39c4fc 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -647,7 +647,7 @@ class rnxdec:
                 else:
                     eph.tgd = self.flt(line, 2)
             else:
-                eph.sva = int(self.flt(line, 0))
+                eph.sva = self.flt(line, 0)
                 eph.svh = int(self.flt(line, 1))
                 eph.tgd = float(self.flt(line, 2))
                 if sys == uGNSS.GPS or sys == uGNSS.QZS:
@@ -655,6 +655,7 @@ class rnxdec:
                         eph.iodc = int(self.flt(line, 3))
                     else:
                         eph.urai[2] = int(self.flt(line, 3))  # URAI_NED2
+                        eph.sva = int(eph.sva)
                         eph.urai[3] = eph.sva  # URAI_ED
                 elif sys == uGNSS.GAL:
                     tgd_b = float(self.flt(line, 3))
-- 
2.43.0


From da5919ffea133b85fa9d7dc43ed758daf2a88755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:53 +0000
Subject: [PATCH 103/187] fix: blank health flags of GLONASS records cleared
 the health

---
 src/cssrlib/rinex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index a39c4fc..d7fcc7d 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -450,7 +450,7 @@ class rnxdec:
                         geph.dtaun = self.flt(line, 1)
                         geph.urai[0] = int(self.flt(line, 2))
                         geph.sva = geph.urai[0]
-                        if len(line) >= 80:
+                        if line[61:80].strip():
                             geph.svh = int(self.flt(line, 3))
                     else:  # L1OC,L3OC
                         geph.sattype = int(self.flt(line, 0))
-- 
2.43.0


From a4b62de58c6d68b4570e479778a9ba6eff8b7ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:24 +0000
Subject: [PATCH 104/187] fix: reserved slots of the SBAS PRN mask shifted or
 aliased satellites

---
 src/cssrlib/sbas.py | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 625aa4b..f79ba20 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -407,25 +407,17 @@ class sbasDec(cssr):
 
     def decode_sbas_mask(self, msg, i):
         """ Type 1 PRN mask message """
-        self.sat = []
-        mask_gps, mask_glo = bs.unpack_from('u37u24', msg, i)
-        i += 61
-
-        prn, nsat = self.decode_mask(mask_gps, 37)
-        for k in range(nsat):
-            self.sat.append(prn2sat(uGNSS.GPS, prn[k]))
-
-        prn, nsat = self.decode_mask(mask_glo, 24)
-        for k in range(nsat):
-            self.sat.append(prn2sat(uGNSS.GLO, prn[k]))
-
-        i += 58
-        mask_sbs = bs.unpack_from('u39', msg, i)[0]
-        i += 91
+        mask = int.from_bytes(bs.unpack_from('r210', msg, i)[0], 'big') >> 6
+        i += 210
 
-        prn, nsat = self.decode_mask(mask_sbs, 39, 120)
-        for k in range(nsat):
-            self.sat.append(prn2sat(uGNSS.SBS, prn[k]))
+        # a reserved slot has a place in the mask, but no satellite (0)
+        slot, _ = self.decode_mask(mask, 210)
+        self.sat = []
+        for k in slot:
+            if k <= 61 or k >= 120 and k <= 158:
+                self.sat.append(self.slot2sat(k))
+            else:
+                self.sat.append(0)
 
         self.iodp = bs.unpack_from('u2', msg, i)[0]
         self.iodssr = self.iodp
-- 
2.43.0


From f161073a864ff55b7b0aca5d8b0aa436653e876e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:24 +0000
Subject: [PATCH 105/187] fix: SBAS fast corrections: indicators misread with
 short masks, sign of the correction

---
 src/cssrlib/sbas.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index f79ba20..5eab03d 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -427,20 +427,23 @@ class sbasDec(cssr):
     def decode_sbas_fast_corr_blk(self, msg, i, n, type_):
         """ decode fast correction for n blocks """
         for k in range(n):
-            fc = bs.unpack_from('s12', msg, i)[0]
-            i += 12
+            fc = bs.unpack_from('s12', msg, i+k*12)[0]
             j = type_*13+k
             if j >= len(self.sat):
                 break
-            self.lc[0].hclk[self.sat[j]] = -self.sval(fc, 12, 0.125)
+            if self.sat[j] > 0:
+                self.lc[0].hclk[self.sat[j]] = fc*0.125
+        i += n*12
         for k in range(n):
-            udrei = bs.unpack_from('u4', msg, i)[0]
-            i += 4
+            udrei = bs.unpack_from('u4', msg, i+k*4)[0]
             j = type_*13+k
             if j >= len(self.sat):
                 break
+            if self.sat[j] == 0:
+                continue
             self.obad.udrei[self.sat[j]] = udrei
             self.set_t0(sat=self.sat[j], ctype=sCType.HCLOCK, t=self.time)
+        i += n*4
 
         self.lc[0].cstat |= (1 << sCType.HCLOCK)
         return i
@@ -466,7 +469,9 @@ class sbasDec(cssr):
         for k in range(51):
             if k >= len(self.sat):
                 break
-            self.obad.udrei[self.sat[k]] = bs.unpack_from('u4', msg, i)[0]
+            if self.sat[k] > 0:
+                self.obad.udrei[self.sat[k]] = \
+                    bs.unpack_from('u4', msg, i)[0]
             i += 4
         return i
 
@@ -480,7 +485,8 @@ class sbasDec(cssr):
         for k in range(51):
             if k >= len(self.sat):
                 break
-            self.ai[self.sat[k]] = bs.unpack_from('u4', msg, i)[0]
+            if self.sat[k] > 0:
+                self.ai[self.sat[k]] = bs.unpack_from('u4', msg, i)[0]
             i += 4
         return i
 
-- 
2.43.0


From 10c651ae69441849b377808e8bd08ae7524eac82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:24 +0000
Subject: [PATCH 106/187] fix: SBAS corrections of satellites removed from the
 mask were kept

---
 src/cssrlib/sbas.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 5eab03d..15f241e 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -422,6 +422,15 @@ class sbasDec(cssr):
         self.iodp = bs.unpack_from('u2', msg, i)[0]
         self.iodssr = self.iodp
         i += 2
+
+        # data of satellites which are not monitored any more
+        for v in (self.lc[0].hclk, self.lc[0].iode, self.lc[0].dorb,
+                  self.lc[0].dvel, self.lc[0].dclk, self.lc[0].ddft,
+                  self.obad.udrei, self.obad.cov, self.obad.scl, self.ai):
+            for sat in set(v.keys())-set(self.sat):
+                v.pop(sat)
+        self.sat_n = [sat for sat in self.sat_n if sat in self.sat]
+
         return i
 
     def decode_sbas_fast_corr_blk(self, msg, i, n, type_):
-- 
2.43.0


From 9fffb450c579b7a6a48e03b7b1d646e679ad1d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:24 +0000
Subject: [PATCH 107/187] fix: SBAS long-term corrections (mask position, half
 messages, reference time)

---
 src/cssrlib/sbas.py | 41 ++++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 15f241e..5e164ca 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -621,30 +621,34 @@ class sbasDec(cssr):
         return i
 
     def add_sbas_corr(self, slot, iodn, dx, dy, dz, db,
-                      dxd=0, dyd=0, dzd=0, dbd=0):
-        """ add SBAS long-term correction """
-        sat = self.slot2sat(slot)
+                      dxd=0, dyd=0, dzd=0, dbd=0, t0=None):
+        """ add SBAS long-term correction (slot: position in the mask) """
+        if slot == 0 or slot > len(self.sat) or self.sat[slot-1] == 0:
+            return 0
+        sat = self.sat[slot-1]
+        if t0 is None:
+            t0 = self.time
         if sat not in self.sat_n:
             self.sat_n.append(sat)
 
         self.lc[0].iode[sat] = iodn
         self.lc[0].dorb[sat] = np.zeros(3)
-        self.lc[0].dorb[sat][0] = -self.sval(dx, 11, 0.125)
-        self.lc[0].dorb[sat][1] = -self.sval(dy, 11, 0.125)
-        self.lc[0].dorb[sat][2] = -self.sval(dz, 11, 0.125)
+        self.lc[0].dorb[sat][0] = -dx*0.125
+        self.lc[0].dorb[sat][1] = -dy*0.125
+        self.lc[0].dorb[sat][2] = -dz*0.125
 
-        self.lc[0].dclk[sat] = self.sval(db, 11, rCST.P2_31*rCST.CLIGHT)
+        self.lc[0].dclk[sat] = db*rCST.P2_31*rCST.CLIGHT
         self.lc[0].dvel[sat] = np.zeros(3)
-        self.lc[0].dvel[sat][0] = -self.sval(dxd, 8, rCST.P2_11)
-        self.lc[0].dvel[sat][1] = -self.sval(dyd, 8, rCST.P2_11)
-        self.lc[0].dvel[sat][2] = -self.sval(dzd, 8, rCST.P2_11)
+        self.lc[0].dvel[sat][0] = -dxd*rCST.P2_11
+        self.lc[0].dvel[sat][1] = -dyd*rCST.P2_11
+        self.lc[0].dvel[sat][2] = -dzd*rCST.P2_11
 
-        self.lc[0].ddft[sat] = self.sval(dbd, 8, rCST.P2_39*rCST.CLIGHT)
+        self.lc[0].ddft[sat] = dbd*rCST.P2_39*rCST.CLIGHT
 
         self.lc[0].cstat |= (1 << sCType.CLOCK) | (1 << sCType.ORBIT)
 
-        self.set_t0(sat=sat, ctype=sCType.CLOCK, t=self.time)
-        self.set_t0(sat=sat, ctype=sCType.ORBIT, t=self.time)
+        self.set_t0(sat=sat, ctype=sCType.CLOCK, t=t0)
+        self.set_t0(sat=sat, ctype=sCType.ORBIT, t=t0)
         return sat
 
     def decode_sbas_lcorr_half(self, msg, i):
@@ -655,15 +659,14 @@ class sbasDec(cssr):
         ofst = 102 if vc == 0 else 103
         iodp = bs.unpack_from('u2', msg, i+ofst)[0]
         if iodp != self.iodp:
-            return i
+            return i+105
 
         if vc == 0:
             for k in range(2):
                 slot, iodn, dx, dy, dz, db = bs.unpack_from(
                     'u6u8s9s9s9s10', msg, i)
                 i += 51
-                if slot > 0:
-                    self.add_sbas_corr(slot, iodn, dx, dy, dz, db)
+                self.add_sbas_corr(slot, iodn, dx, dy, dz, db)
 
             # iodp = bs.unpack_from('u2', msg, i)[0]
             i += 3
@@ -671,10 +674,10 @@ class sbasDec(cssr):
             slot, iodn, dx, dy, dz, db, dxd, dyd, dzd, dbd = bs.unpack_from(
                 'u6u8s11s11s11s11s8s8s8s8', msg, i)
             i += 90
-            self.add_sbas_corr(slot, iodn, dx, dy, dz, db, dxd, dyd, dzd, dbd)
-
             toa = bs.unpack_from('u13', msg, i)[0]
             i += 15
+            self.add_sbas_corr(slot, iodn, dx, dy, dz, db, dxd, dyd, dzd, dbd,
+                               tod2tow(toa*16.0, self.time))
 
         self.iodssr_c[sCType.CLOCK] = iodp
         self.iodssr_c[sCType.ORBIT] = iodp
@@ -691,7 +694,7 @@ class sbasDec(cssr):
             i += 208
             return i
 
-        i = self.decode_sbas_fast_corr_blk(msg, i, 6, type_)
+        i = self.decode_sbas_fast_corr_blk(msg, i, 6, type_)+10
         i = self.decode_sbas_lcorr_half(msg, i)  # MT25 half-msg(106bits)
         return i
 
-- 
2.43.0


From 09e02a87b9102468da4ffd3d5859654bf105030f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:24 +0000
Subject: [PATCH 108/187] fix: SBAS GEO almanac reference time; largest values
 of the L1 messages

---
 src/cssrlib/sbas.py | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 5e164ca..03759fb 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -520,17 +520,11 @@ class sbasDec(cssr):
         seph.svh = 0
         seph.sva = self.ura_t[ura]
         seph.mode = 0
-        seph.pos[0] = self.sval(xg, 30, 0.08)
-        seph.pos[1] = self.sval(yg, 30, 0.08)
-        seph.pos[2] = self.sval(zg, 25, 0.4)
-        seph.vel[0] = self.sval(vxg, 17, 6.25e-4)
-        seph.vel[1] = self.sval(vyg, 17, 6.25e-4)
-        seph.vel[2] = self.sval(vzg, 18, 4.0e-3)
-        seph.acc[0] = self.sval(axg, 10, 1.25e-5)
-        seph.acc[1] = self.sval(ayg, 10, 1.25e-5)
-        seph.acc[2] = self.sval(azg, 10, 6.25e-5)
-        seph.af0 = self.sval(af0, 12, rCST.P2_31)
-        seph.af1 = self.sval(af1,  8, rCST.P2_40)
+        seph.pos[:] = [xg*0.08, yg*0.08, zg*0.4]
+        seph.vel[:] = [vxg*6.25e-4, vyg*6.25e-4, vzg*4.0e-3]
+        seph.acc[:] = [axg*1.25e-5, ayg*1.25e-5, azg*6.25e-5]
+        seph.af0 = af0*rCST.P2_31
+        seph.af1 = af1*rCST.P2_40
 
         self.Seph = seph
 
@@ -568,7 +562,7 @@ class sbasDec(cssr):
     def decode_sbas_almanac(self, msg, i):
         """ Type 17 GEO almanac message """
 
-        ta = bs.unpack_from('u11', msg, 201)[0]*64.0
+        ta = bs.unpack_from('u11', msg, i+201)[0]*64.0
         t0 = tod2tow(ta, self.time)
 
         for k in range(3):
@@ -584,13 +578,8 @@ class sbasDec(cssr):
             alm = Salm(sat)
 
             alm.svh = svh
-            alm.pos[0] = self.sval(x, 15, 2600.0)
-            alm.pos[1] = self.sval(y, 15, 2600.0)
-            alm.pos[2] = self.sval(z, 9, 26000.0)
-
-            alm.vel[0] = self.sval(vx, 3, 10.0)
-            alm.vel[1] = self.sval(vy, 3, 10.0)
-            alm.vel[2] = self.sval(vz, 4, 60.0)
+            alm.pos[:] = [x*2600.0, y*2600.0, z*26000.0]
+            alm.vel[:] = [vx*10.0, vy*10.0, vz*60.0]
 
             alm.t0 = t0
 
-- 
2.43.0


From b3342d66c4c7553109a0b92fd6680c16d32eb153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:24 +0000
Subject: [PATCH 109/187] fix: scale of the SBAS degradation parameter C_ltc_v1

---
 src/cssrlib/sbas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 03759fb..6ca7033 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -542,7 +542,7 @@ class sbasDec(cssr):
         i += 90
 
         self.deg_prm = np.array(
-            [Brrc*2e-3, Cltc_lsb*2e-3, Cltc_v1*5e-4, Iltc_v1*1.0,
+            [Brrc*2e-3, Cltc_lsb*2e-3, Cltc_v1*5e-5, Iltc_v1*1.0,
              Cltc_v0*2e-3, Iltc_v0*1.0, Cgeo_lsb*5e-4, Cgeo_v*5e-5,
              Igeo*1.0, Cer*0.5, Ciono_s*1e-3, Iiono*1.0,
              Ciono_r*5e-6, RSS_udre, RSS_iono, Ccov*0.1])
-- 
2.43.0


From 55dea967dce101b805e7f35a29b07d55ccf6ebd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:24 +0000
Subject: [PATCH 110/187] fix: SBAS ionospheric grid (issue per band, points
 not monitored, band 9/10)

---
 src/cssrlib/sbas.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 6ca7033..c4f2b10 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -132,7 +132,7 @@ def searchIGP(t, posp, cs):
             if len(idx) == 0:
                 continue
             k = idx[0]
-            if len(cs.givei[band]) < k or cs.givei[band][k] <= 0:
+            if cs.givei[band][k] >= 15 or np.isnan(cs.vtec[band][k]):
                 continue
             igp[i] = [cs.vtec[band][k], cs.givei[band][k]]
             cs.inet = band+1
@@ -153,7 +153,7 @@ def ionoSBAS(t, pos, az, el, cs):
     idx_t = [[1, 2, 0], [0, 3, 2], [0, 3, 1], [1, 2, 3]]
 
     if pos[2] < -100.0 or el <= 0.0:
-        return None
+        return diono, var
 
     # ipp (ionospheric pierce point) position and slant factor
     sf, posp = ionppp(pos, az, el, re, hion)
@@ -271,6 +271,7 @@ class sbasDec(cssr):
 
         # iono
         self.igp_idx = {}
+        self.iodi_b = {}
         self.vtec = {}
         self.givei = {}
         self.t0_igp = gtime_t()
@@ -351,7 +352,7 @@ class sbasDec(cssr):
             lat0 = 60 if band == 9 else -60
             i0 = 0
             for k in range(5):
-                lat = lat0+k*np.sign(lat0)*5
+                lat = np.sign(lat0)*(85 if k == 4 else 60+k*5)
                 if k == 0:
                     n = 72
                     self.igp_t[band][i0:i0+n, 1] = np.arange(-180, 180, 5)
@@ -597,15 +598,17 @@ class sbasDec(cssr):
             if bs.unpack_from('u1', msg, i+k)[0] == 1:
                 idx.append(k)
         i += 201+1
-        self.igp_idx[band] = idx
-        self.iodi = iodi
         ngp = len(idx)
 
-        if band not in self.vtec:
+        # data refer to the mask of the same issue
+        if band not in self.igp_idx or self.iodi_b.get(band) != iodi \
+                or self.igp_idx[band] != idx:
             self.vtec[band] = np.zeros(ngp)
+            self.givei[band] = np.full(ngp, 15, dtype=int)  # not monitored
 
-        if band not in self.givei:
-            self.givei[band] = np.zeros(ngp, dtype=int)
+        self.igp_idx[band] = idx
+        self.iodi_b[band] = iodi
+        self.iodi = iodi
 
         return i
 
@@ -696,12 +699,9 @@ class sbasDec(cssr):
     def decode_sbas_iono(self, msg, i):
         """ Type 26 Ionospheric delay message """
         iodi = bs.unpack_from('u2', msg, i+203)[0]
-        if iodi != self.iodi:
-            i += 212
-            return i
         band, bid = bs.unpack_from('u4u4', msg, i)
         i += 8
-        if band not in self.vtec:
+        if band not in self.vtec or iodi != self.iodi_b[band]:
             i += 204
             return i
 
-- 
2.43.0


From 73cfe3a75b22421803b94e1b82436d1494db0bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:24 +0000
Subject: [PATCH 111/187] fix: SBAS service regions (each has its shape)

---
 src/cssrlib/sbas.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index c4f2b10..f778667 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -52,7 +52,7 @@ class SBASService():
         self.lon1 = np.zeros(5)
         self.lat2 = np.zeros(5)
         self.lon2 = np.zeros(5)
-        self.shape = 0
+        self.shape = np.zeros(5, dtype=int)
 
 
 class paramOBAD():
@@ -740,15 +740,16 @@ class sbasDec(cssr):
         self.sinfo.dUDRE_out = dudre2
 
         for k in range(5):
-            lat1, lon1, lat2, lon2 = bs.unpack_from('s8s9s8s9', msg, i)
-            i += 34
+            lat1, lon1, lat2, lon2, shape = \
+                bs.unpack_from('s8s9s8s9u1', msg, i)
+            i += 35
             self.sinfo.lat1[k] = lat1
             self.sinfo.lon1[k] = lon1
             self.sinfo.lat2[k] = lat2
             self.sinfo.lon2[k] = lon2
+            self.sinfo.shape[k] = shape
 
-        self.sinfo.shape = bs.unpack_from('u1', msg, i)[0]
-        i += 16
+        i += 15
 
         return i
 
-- 
2.43.0


From 7e6ba7ec3d89967ab45e367110af794441ed04b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:24 +0000
Subject: [PATCH 112/187] fix: SBAS clock-ephemeris covariance (matrix element,
 mask position)

---
 src/cssrlib/sbas.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index f778667..e0cf943 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -761,7 +761,7 @@ class sbasDec(cssr):
 
         scl = 2**(scale-5)
         R = np.array([[E11, E12, E13, E14],
-                      [0, E22, E23, E23],
+                      [0, E22, E23, E24],
                       [0,   0, E33, E34],
                       [0,   0,   0, E44]])*scl
         C = R.T@R
@@ -779,7 +779,9 @@ class sbasDec(cssr):
             slot = bs.unpack_from('u6', msg, i)[0]
             i += 6
             i, C, scl = self.decode_cov(msg, i)
-            sat = self.sat[slot]
+            if slot == 0 or slot > len(self.sat) or self.sat[slot-1] == 0:
+                continue
+            sat = self.sat[slot-1]
             self.obad.cov[sat] = C
             self.obad.scl[sat] = scl
 
-- 
2.43.0


From 048662686c042af36f21a8b7516782b53243e35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:24 +0000
Subject: [PATCH 113/187] fix: DFMC integrity messages (issue of mask, index to
 satellite)

---
 src/cssrlib/sbas.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index e0cf943..7b6fe5a 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -841,7 +841,7 @@ class sbasDec(cssr):
 
     def decode_dfmc_integrity_mt34(self, msg, i):
         """ Types 34 integrity message (indexed) """
-        iodm = bs.unpack_from('u2', msg, 214)[0]
+        iodm = bs.unpack_from('u2', msg, i+214)[0]
         if iodm != self.iodm:
             i += 216
             return i
@@ -857,31 +857,32 @@ class sbasDec(cssr):
             i += 4
 
         k = 0
-        for j in range(self.nsat):
+        for j in range(min(self.nsat, 92)):
             sat = self.sat_n[j]
             if dfreci[j] == 1:
                 if k < 7:
-                    self.dfrei[sat] = dfrei[k]
+                    self.obad.dfrei[sat] = dfrei[k]
                     k += 1
             elif dfreci[j] == 2:
-                self.dfrei[sat] += 1
-                if self.dfrei[sat] > 14:
-                    self.dfrei[sat] = 14
+                if sat in self.obad.dfrei and self.obad.dfrei[sat] < 14:
+                    self.obad.dfrei[sat] += 1
             elif dfreci[j] == 3:  # DNU
-                self.dfrei[sat] = 15
+                self.obad.dfrei[sat] = 15
 
         i += 4
         return i
 
     def decode_dfmc_integrity_mt35(self, msg, i):
         """ Types 35 integrity message (for #1-53) """
-        iodm = bs.unpack_from('u2', msg, 214)[0]
+        iodm = bs.unpack_from('u2', msg, i+214)[0]
         if iodm != self.iodm:
             i += 216
             return i
 
         for k in range(53):
-            self.dfrei[k] = bs.unpack_from('u4', msg, i)[0]
+            if k < self.nsat:
+                self.obad.dfrei[self.sat_n[k]] = \
+                    bs.unpack_from('u4', msg, i)[0]
             i += 4
 
         i += 4
@@ -889,13 +890,15 @@ class sbasDec(cssr):
 
     def decode_dfmc_integrity_mt36(self, msg, i):
         """ Types 36 integrity message (for #54-92) """
-        iodm = bs.unpack_from('u2', msg, 214)[0]
+        iodm = bs.unpack_from('u2', msg, i+214)[0]
         if iodm != self.iodm:
             i += 216
             return i
 
         for k in range(39):
-            self.dfrei[k+53] = bs.unpack_from('u4', msg, i)[0]
+            if k+53 < self.nsat:
+                self.obad.dfrei[self.sat_n[k+53]] = \
+                    bs.unpack_from('u4', msg, i)[0]
             i += 4
         i += 60
         return i
-- 
2.43.0


From c221afe43da3be44a074f2d99b6d545c17eab701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:24 +0000
Subject: [PATCH 114/187] fix: DFMC SBAS ephemeris and almanac (satellite,
 field names)

---
 src/cssrlib/sbas.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 7b6fe5a..efadec1 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -951,13 +951,13 @@ class sbasDec(cssr):
         i += 41
         self.iodg = iodg
 
-        sat = self.slot2sat(slotd)
+        sat = self.slot2sat(slotd+119)
         eph = Eph(sat)
         eph.cuc = self.sval(cuc, 19, rCST.SC2RAD*rCST.P2_19*1e-4)
         eph.cus = self.sval(cus, 19, rCST.SC2RAD*rCST.P2_19*1e-4)
         eph.idot = self.sval(idot, 22, 7/6*rCST.SC2RAD*rCST.P2_21*1e-6)
         eph.omg = self.sval(omg, 34, rCST.SC2RAD*rCST.P2_33)
-        eph.Omg0 = self.sval(Omg0, 34, rCST.SC2RAD*rCST.P2_33)
+        eph.OMG0 = self.sval(Omg0, 34, rCST.SC2RAD*rCST.P2_33)
         eph.M0 = self.sval(M0, 34, rCST.SC2RAD*rCST.P2_33)
 
         eph.af0 = self.sval(af0, 25, 0.02/rCST.CLIGHT)  # [m] -> [s]
@@ -981,7 +981,7 @@ class sbasDec(cssr):
         eph = self.Eph
         eph.i0 = i0*rCST.SC2RAD*rCST.P2_33
         eph.e = e*rCST.P2_30
-        eph.a = a*0.02
+        eph.A = a*0.02
 
         eph.toe = tod2tow(te*16.0, self.time)
         eph.toc = eph.toe
@@ -1017,7 +1017,7 @@ class sbasDec(cssr):
             alm.i0 = i0*rCST.SC2RAD*rCST.P2_13
             alm.omg = omg*rCST.SC2RAD*rCST.P2_13
             alm.OMG0 = OMG0*rCST.SC2RAD*rCST.P2_13
-            alm.OMDd = OMGd*1e-9
+            alm.OMGd = OMGd*1e-9
             alm.M0 = M0*rCST.SC2RAD*rCST.P2_14
             alm.toa = tod2tow(ta*1800.0, self.time)
             self.Alm[sat] = alm
-- 
2.43.0


From e8334b0416d6a2faa7a6a71f5845dcf1036117ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:24 +0000
Subject: [PATCH 115/187] fix: DFMC correction of an unassigned slot was stored

---
 src/cssrlib/sbas.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index efadec1..eb3c0a6 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -1029,6 +1029,8 @@ class sbasDec(cssr):
     def add_dfmc_corr(self, slot, iodn, dx, dy, dz, db,
                       dxd=0, dyd=0, dzd=0, dbd=0):
         sat = self.slot2sat(slot)
+        if sat == 0:
+            return sat
         if sat not in self.sat_n:
             self.sat_n.append(sat)
 
-- 
2.43.0


From b96cfc9c7a4ec2f6b6851c42d988e691a331c3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:24 +0000
Subject: [PATCH 116/187] fix: SBAS expiry check failed for satellites without
 corrections

---
 src/cssrlib/sbas.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index eb3c0a6..a96bea9 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -398,6 +398,8 @@ class sbasDec(cssr):
 
     def check_validity(self, time):
         for sat in self.sat_n:
+            if sat not in self.lc[0].t0:  # no correction received yet
+                continue
             if timediff(time, self.lc[0].t0[sat][sCType.CLOCK]) > \
                     self.tmax[sCType.CLOCK]:
                 self.lc[0].dclk[sat] = 0.0
-- 
2.43.0


From c6e063701b7eec14921262dfb74346c1365052f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:25 +0000
Subject: [PATCH 117/187] fix: reference time of PVS corrections (day boundary,
 rates)

---
 src/cssrlib/cssr_pvs.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/cssrlib/cssr_pvs.py b/src/cssrlib/cssr_pvs.py
index 2416174..b8eb672 100644
--- a/src/cssrlib/cssr_pvs.py
+++ b/src/cssrlib/cssr_pvs.py
@@ -19,7 +19,8 @@ import numpy as np
 import bitstruct as bs
 from cssrlib.cssrlib import cssr, sCSSR, sCSSRTYPE, prn2sat, sCType
 from cssrlib.cssrlib import sat2id
-from cssrlib.gnss import uGNSS, rCST, gpst2time, timediff, timeadd, time2gpst
+from cssrlib.gnss import uGNSS, rCST, gpst2time, timediff, time2gpst, \
+    tod2tow
 from binascii import unhexlify
 
 
@@ -85,16 +86,10 @@ class cssr_pvs(cssr):
             sat = prn2sat(uGNSS.BDS, prn)
         return sat
 
-    def adjust_time_week(self, time, time0):
-        dt = timediff(time, time0)
-        if dt > rCST.HALFWEEK_SEC:
-            time = timeadd(time, -rCST.WEEK_SEC)
-        elif dt < -rCST.HALFWEEK_SEC:
-            time = timeadd(time,  rCST.WEEK_SEC)
-        return time
-
     def check_validity(self, time):
         for sat in self.sat_n:
+            if sat not in self.lc[0].t0:
+                continue
             if timediff(time, self.lc[0].t0[sat][sCType.CLOCK]) > \
                     self.tmax[sCType.CLOCK]:
                 self.lc[0].dclk[sat] = 0.0
@@ -126,9 +121,7 @@ class cssr_pvs(cssr):
         if sat not in self.sat_n:
             self.sat_n.append(sat)
 
-        tow = self.tow0 + t0*16.0
-        self.time = self.adjust_time_week(
-            gpst2time(self.week, tow), self.time0)
+        self.time = tod2tow(t0*16.0, self.time0)
 
         self.lc[0].iode[sat] = iodn
         self.lc[0].dorb[sat] = np.zeros(3)
@@ -146,12 +139,13 @@ class cssr_pvs(cssr):
         self.iodssr = 0
         self.lc[0].cstat |= (1 << sCType.CLOCK) | (1 << sCType.ORBIT)
         self.lc[0].t0[sat] = {
-            sCType.CLOCK: self.time0, sCType.ORBIT: self.time0}
+            sCType.CLOCK: self.time, sCType.ORBIT: self.time}
 
         self.iodssr_c[sCType.CLOCK] = self.iodssr
         self.iodssr_c[sCType.ORBIT] = self.iodssr
 
         if self.monlevel > 0:
+            _, tow = time2gpst(self.time)
             self.fh.write("{:.1f} {:3s} {:3d}\n"
                           .format(tow, sat2id(sat), iodn))
 
-- 
2.43.0


From 67dea54ec869759c959c09b0c56b88709816ed9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:35 +0000
Subject: [PATCH 118/187] fix: loss of lock with further LLI bits was not taken
 as cycle slip

---
 src/cssrlib/pppssr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index cdba7f9..0fa5068 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -1291,7 +1291,7 @@ class pppos():
 
                 # Cycle  slip check by LLI
                 #
-                if obs.lli[j, f] == 1:
+                if int(obs.lli[j, f]) & 1:
                     self.nav.edt[i, f] = 1
                     if self.nav.monlevel > 0:
                         self.nav.fout.write("{}  {} - edit {:4s} - LLI\n"
-- 
2.43.0


From 558f8f03e0f57f456ea8de61d6d9b7f55fd15162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:35 +0000
Subject: [PATCH 119/187] fix: phases not used in an epoch were taken as used
 (outage limit, fixing)

---
 src/cssrlib/pppssr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index 0fa5068..df26d76 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -1477,6 +1477,7 @@ class pppos():
 
         # SD residuals
         #
+        self.nav.vsat[:] = 0  # only phases used in this epoch are valid
         v, H, R = self.sdres(obs, xp, y, e, sat, el)
         Pp = self.nav.P.copy()
 
-- 
2.43.0


From 6920b23e1bcb1d53d0b22cae143c92c133d349db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:35 +0000
Subject: [PATCH 120/187] fix: GLONASS ambiguities of two satellites have
 different wavelengths

---
 src/cssrlib/pppssr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index df26d76..6641363 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -961,7 +961,7 @@ class pppos():
 
                         H[nv, idx_i] = +lami
                         H[nv, idx_j] = -lamj
-                        v[nv] -= lami*(x[idx_i] - x[idx_j])
+                        v[nv] -= lami*x[idx_i] - lamj*x[idx_j]
 
                         # measurement variance
                         Ri[nv] = self.varerr(self.nav, el[i], f)
-- 
2.43.0


From c5f85f9144b27d3073162586984d390c4c363a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:35 +0000
Subject: [PATCH 121/187] fix: cycle slips in epochs with too few satellites
 were forgotten

---
 src/cssrlib/pppssr.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index 6641363..4c0ec78 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -465,6 +465,19 @@ class pppos():
 
         return 0
 
+    def reset_slip(self, edt):
+        """ clear the states of edited satellites (epoch is not used) """
+        for i in np.where(np.any(edt > 0, axis=1))[0]:
+            for f in range(self.nav.nf):
+                j = self.IB(i+1, f, self.nav.na)
+                if self.nav.x[j] != 0.0:
+                    self.initx(0.0, 0.0, j)
+                    self.nav.outc[i, f] = 0
+            if self.nav.niono > 0:
+                j = self.II(i+1, self.nav.na)
+                if self.nav.x[j] != 0.0:
+                    self.initx(0.0, 0.0, j)
+
     def find_bias(self, cs, sigref, sat, inet=0):
         """ find satellite signal bias from correction """
         nf = len(sigref)
@@ -1411,6 +1424,13 @@ class pppos():
 
         if nsat < 6:
             print(" too few satellites < 6: nsat={:d}".format(nsat))
+            edt = np.zeros((uGNSS.MAXSAT, self.nav.nf), dtype=int)
+            for o in (obs, obsb):
+                if o is None:
+                    continue
+                for j, sat_i in enumerate(o.sat):  # loss of lock
+                    edt[sat_i-1, :] |= o.lli[j, 0:self.nav.nf] & 1
+            self.reset_slip(edt)
             return
 
         # Editing of observations
@@ -1435,6 +1455,7 @@ class pppos():
 
         if ns < 6:
             print(" too few satellites < 6: ns={:d}".format(ns))
+            self.reset_slip(self.nav.edt)
             return
 
         # Kalman filter time propagation, initialization of ambiguities
-- 
2.43.0


From 228465d9d7d3f8e2706a0253a3117db41105cc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:35 +0000
Subject: [PATCH 122/187] fix: RTK: base station slips kept the ambiguity, new
 satellites had no base residual

---
 src/cssrlib/rtk.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rtk.py b/src/cssrlib/rtk.py
index 2949f78..a3ca1d8 100644
--- a/src/cssrlib/rtk.py
+++ b/src/cssrlib/rtk.py
@@ -29,12 +29,15 @@ class rtkpos(pppos):
     def base_process(self, obs, obsb, rs, dts, svh):
         """ processing for base station in RTK """
         rsb, vsb, dtsb, svhb, _ = satposs(obsb, self.nav)
-        yr, er, elr = self.zdres(
-            obsb, None, None, rsb, vsb, dtsb, self.nav.rb, 0)
 
         # Editing observations (base/rover)
         sat_ed_r = self.qcedit(obsb, rsb, dtsb, svhb, rr=self.nav.rb)
+        edt_r = self.nav.edt
         sat_ed_u = self.qcedit(obs, rs, dts, svh)
+        self.nav.edt |= edt_r  # a slip at the base resets the ambiguity, too
+
+        yr, er, elr = self.zdres(
+            obsb, None, None, rsb, vsb, dtsb, self.nav.rb, 0)
 
         # define common satellite between base and rover
         sat_ed = np.intersect1d(sat_ed_u, sat_ed_r, True)
-- 
2.43.0


From 23f85a599fdec4dbb4b840c88ff5e2db854f0a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:42 +0000
Subject: [PATCH 123/187] fix: options of value 0 given to the filter were
 ignored (RTK)

---
 src/cssrlib/pppssr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index 4c0ec78..e554e43 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -39,11 +39,11 @@ class pppos():
         # options of this instance (the defaults are left as they are)
         config = deepcopy(default_config if config is None else config)
 
-        if trop_opt > 0:
+        if trop_opt >= 0:
             config['nav']['trop_opt'] = trop_opt
-        if iono_opt > 0:
+        if iono_opt >= 0:
             config['nav']['iono_opt'] = iono_opt
-        if phw_opt > 0:
+        if phw_opt >= 0:
             config['nav']['phw_opt'] = phw_opt
 
         self.nav = nav
-- 
2.43.0


From 0485901b4faee9f54e3911bd7936f5517ac48e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:42 +0000
Subject: [PATCH 124/187] fix: tide displacement was added to the base position
 in place

---
 src/cssrlib/pppssr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index e554e43..f7e4d8b 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -1209,7 +1209,7 @@ class pppos():
             if self.nav.pmode > 0:
                 rr_ += self.nav.x[3:6]*tt
         else:
-            rr_ = rr
+            rr_ = np.array(rr, dtype=float)
 
         # Solid Earth tide corrections
         #
-- 
2.43.0


From edec0c7fb48fb1b89971e5a351bbce569d7a6d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:19 +0000
Subject: [PATCH 125/187] fix: RTK: rover slips found by the geometry-free
 combination were lost

---
 src/cssrlib/pppssr.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index f7e4d8b..472e9b8 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -1433,11 +1433,11 @@ class pppos():
             self.reset_slip(edt)
             return
 
-        # Editing of observations
-        #
-        sat_ed = self.qcedit(obs, rs, dts, svh)
-
         if obsb is None:  # PPP/PPP-RTK
+            # Editing of observations (RTK: in base_process)
+            #
+            sat_ed = self.qcedit(obs, rs, dts, svh)
+
             # Select satellites having passed quality control
             #
             # index of valid sats in obs.sat
-- 
2.43.0


From 7874a5dc81218f4e41a2aa1ce92fbac9b8bc491b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:13 +0000
Subject: [PATCH 126/187] fix: SLAS: stations after an empty place of type 47
 were misread

---
 src/cssrlib/dgps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/dgps.py b/src/cssrlib/dgps.py
index e7b9179..4be13c8 100644
--- a/src/cssrlib/dgps.py
+++ b/src/cssrlib/dgps.py
@@ -138,7 +138,8 @@ class dgpsDec(cssr):
         i = 14
         for k in range(5):
             code, lat, lon, alt = bs.unpack_from('u6s15s15u6', msg, i)
-            if code == 63:
+            if code == 63:  # no station in this place
+                i += 42
                 continue
             self.posr[code, 0] = lat*0.005
             self.posr[code, 1] = lon*0.005+115
-- 
2.43.0


From 87f48fcdc2bc0b7d36b681b3b81eed5ba2a8d331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:13 +0000
Subject: [PATCH 127/187] fix: SLAS: reserved slots of the mask, satellites
 without issue

---
 src/cssrlib/dgps.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/cssrlib/dgps.py b/src/cssrlib/dgps.py
index 4be13c8..c7d1ffc 100644
--- a/src/cssrlib/dgps.py
+++ b/src/cssrlib/dgps.py
@@ -96,6 +96,8 @@ class dgpsDec(cssr):
 
         self.mlen = {uGNSS.GPS: 64, uGNSS.QZS: 9, uGNSS.GLO: 36, uGNSS.GAL: 36,
                      uGNSS.BDS: 36}
+        self.maxprn = {uGNSS.GPS: 32, uGNSS.QZS: 9, uGNSS.GLO: 32,
+                       uGNSS.GAL: 36, uGNSS.BDS: 36}
         self.prn_ofst = {uGNSS.GPS: 0, uGNSS.QZS: 192, uGNSS.GLO: 0,
                          uGNSS.GAL: 0, uGNSS.BDS: 0}
 
@@ -159,22 +161,23 @@ class dgpsDec(cssr):
         self.nsat = 0
         v = bs.unpack_from('u2u64u9u36u36u36', msg, i)
 
-        self.sat_n = []
+        self.sat = []
         self.iodp = v[0]
         sys_t = [uGNSS.GPS, uGNSS.QZS, uGNSS.GLO, uGNSS.GAL, uGNSS.BDS]
         for k, sys in enumerate(sys_t):
             prn, nsat_s = self.decode_mask(v[k+1], self.mlen[sys])
             for j in range(nsat_s):
-                self.sat_n.append(prn2sat(sys, prn[j]+self.prn_ofst[sys]))
+                # a reserved slot has a place in the mask, but no satellite (0)
+                self.sat.append(prn2sat(sys, prn[j]+self.prn_ofst[sys])
+                                if prn[j] <= self.maxprn[sys] else 0)
             self.nsat += nsat_s
 
+        self.sat_n = [sat for sat in self.sat if sat > 0]
         self.iodssr = self.iodp
 
         self.lc[0].cstat |= (1 << sCType.MASK)
         self.set_t0(ctype=sCType.MASK, t=self.time)
 
-        self.sat = self.sat_n
-
         return i
 
     def decode_mt49(self, msg, i):
@@ -196,7 +199,8 @@ class dgpsDec(cssr):
             i += 8
 
             sat = self.sat[k]
-            self.iodn[sat] = iodn
+            if sat > 0:
+                self.iodn[sat] = iodn
 
         return i
 
@@ -219,7 +223,8 @@ class dgpsDec(cssr):
             if k >= self.nsat:
                 continue
             sat = self.sat[k]
-            self.lc[inet].dorb[sat] = np.zeros(3)
+            if sat > 0:
+                self.lc[inet].dorb[sat] = np.zeros(3)
 
             if (mask_s >> (23-k-1)) & 1 == 0:
                 # self.lc[inet].iode[sat] = -1
@@ -229,6 +234,9 @@ class dgpsDec(cssr):
             prc = bs.unpack_from('s12', msg, i)[0]*0.04
             i += 12
 
+            if sat not in self.iodn:  # reserved slot or issue not known
+                continue
+
             self.lc[inet].sat_n.append(sat)
             self.lc[inet].iode[sat] = self.iodn[sat]
             self.lc[inet].dclk[sat] = prc
-- 
2.43.0


From d66e8a0069eea927ad14c5a5972dec9202ca6b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:13 +0000
Subject: [PATCH 128/187] fix: SLAS: corrections of stations with code 32 and
 above

---
 src/cssrlib/dgps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/dgps.py b/src/cssrlib/dgps.py
index c7d1ffc..891a6a9 100644
--- a/src/cssrlib/dgps.py
+++ b/src/cssrlib/dgps.py
@@ -43,11 +43,11 @@ def vardgps(el, nav):
 
 class dgpsDec(cssr):
     MAX_ST = 64
+    MAXNET = 64
     MAX_SAT = 23
 
     def __init__(self, foutname=None, year=0):
         super().__init__(foutname)
-        self.MAXNET = 1
         self.cssrmode = sCSSRTYPE.DGPS
         self.nsig_max = 0
         self.sat_n = []
-- 
2.43.0


From 45f11e74f8819d61724670fe5ceb00e07478ee25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:13 +0000
Subject: [PATCH 129/187] fix: SLAS: corrections of an unhealthy station
 remained in use

---
 src/cssrlib/dgps.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/dgps.py b/src/cssrlib/dgps.py
index 891a6a9..d84bec5 100644
--- a/src/cssrlib/dgps.py
+++ b/src/cssrlib/dgps.py
@@ -208,11 +208,19 @@ class dgpsDec(cssr):
         """ decode DGPS correction """
         iodp, iodi, code, h, mask_s = bs.unpack_from('u2u2u6u1u23', msg, i)
         i += 34
-        if iodp != self.iodp or iodi != self.iodi or h == 1:
+        inet = code+1
+
+        if h == 1:  # station is unhealthy: withdraw its corrections
+            self.lc[inet].iode = {}
+            self.lc[inet].dclk = {}
+            self.lc[inet].dorb = {}
+            self.lc[inet].sat_n = []
+            return i
+
+        if iodp != self.iodp or iodi != self.iodi:
             return i
 
         nsat = 0
-        inet = code+1
 
         self.lc[inet].iode = {}
         self.lc[inet].dclk = {}
-- 
2.43.0


From 0b80180d25eaf9f6fcbd93f51fbe3c59979b46d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:13 +0000
Subject: [PATCH 130/187] fix: SLAS: issues of data of the previous mask were
 used with a new mask

---
 src/cssrlib/dgps.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/dgps.py b/src/cssrlib/dgps.py
index d84bec5..c1d6a7d 100644
--- a/src/cssrlib/dgps.py
+++ b/src/cssrlib/dgps.py
@@ -154,13 +154,15 @@ class dgpsDec(cssr):
 
     def decode_mt48(self, msg, i):
         """ decode satellite mask """
-        self.iodssr_p = self.iodp
-        self.sat_n_p = self.sat_n
-
         i = 14
         self.nsat = 0
         v = bs.unpack_from('u2u64u9u36u36u36', msg, i)
 
+        if v[0] != self.iodp:  # issues of data refer to the previous mask
+            self.iodssr_p = self.iodp
+            self.sat_n_p = [sat for sat in self.sat if sat > 0]
+            self.iodi = -1
+
         self.sat = []
         self.iodp = v[0]
         sys_t = [uGNSS.GPS, uGNSS.QZS, uGNSS.GLO, uGNSS.GAL, uGNSS.BDS]
@@ -317,7 +319,7 @@ class dgpsDec(cssr):
 
     def set_dgps_corr(self, rr):
         """ get DGPS correction """
-        if self.iodp < 0 or self.iodi < 0:
+        if self.iodp < 0:
             return -1
         refid, rmin = self.get_station(rr)
         baselen = rmin*1e-3  # baseline length [km]
-- 
2.43.0


From 1db25ad68333ba2d43c4264538f4544f29d56350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:13 +0000
Subject: [PATCH 131/187] fix: SLAS: type 51 failed (no place for satellite
 health)

---
 src/cssrlib/dgps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/dgps.py b/src/cssrlib/dgps.py
index c1d6a7d..a10d3d4 100644
--- a/src/cssrlib/dgps.py
+++ b/src/cssrlib/dgps.py
@@ -75,6 +75,8 @@ class dgpsDec(cssr):
         self.iodssr = -1
         self.iodp_c = {}
 
+        self.svh = {}  # satellite health masks
+
         self.baselen = 0  # baseline length [km]
 
         self.posr = np.zeros((self.MAX_ST, 3))
-- 
2.43.0


From b0a8a0bf22d33e0694056b57a8b977debe5cc932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:13 +0000
Subject: [PATCH 132/187] fix: SLAS: expiry check failed for satellites without
 corrections

---
 src/cssrlib/dgps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/dgps.py b/src/cssrlib/dgps.py
index a10d3d4..5ae98a4 100644
--- a/src/cssrlib/dgps.py
+++ b/src/cssrlib/dgps.py
@@ -114,6 +114,8 @@ class dgpsDec(cssr):
 
     def check_validity(self, time):
         for sat in self.sat_n:
+            if sat not in self.lc[0].t0:  # no correction received yet
+                continue
             if timediff(time, self.lc[0].t0[sat][sCType.CLOCK]) > \
                     self.tmax[sCType.CLOCK]:
                 self.lc[0].dclk[sat] = 0.0
-- 
2.43.0


From d5819b3cb2d231d50b09cfd9ca364435ec96c39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:13 +0000
Subject: [PATCH 133/187] fix: SLAS: corrections of another station than the
 nearest were used

---
 src/cssrlib/dgps.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/cssrlib/dgps.py b/src/cssrlib/dgps.py
index 5ae98a4..8a55e8a 100644
--- a/src/cssrlib/dgps.py
+++ b/src/cssrlib/dgps.py
@@ -328,12 +328,17 @@ class dgpsDec(cssr):
         refid, rmin = self.get_station(rr)
         baselen = rmin*1e-3  # baseline length [km]
         self.inet = refid+1
-        if len(self.lc[self.inet].sat_n) > 0:
-            self.sat_n = self.lc[self.inet].sat_n
+        lc = self.lc[self.inet]
+        self.sat_n = lc.sat_n
+        if len(lc.sat_n) > 0:
             self.iodssr_c[sCType.ORBIT] = self.iodp_c[self.inet]
             self.iodssr_c[sCType.CLOCK] = self.iodp_c[self.inet]
-            self.lc[0].t0 = self.lc[self.inet].t0
-            self.lc[0].iode = self.lc[self.inet].iode
-            self.lc[0].dclk = self.lc[self.inet].dclk
-            self.lc[0].dorb = self.lc[self.inet].dorb
+            self.lc[0].t0 = lc.t0
+            self.lc[0].iode = lc.iode
+            self.lc[0].dclk = lc.dclk
+            self.lc[0].dorb = lc.dorb
+        else:  # no corrections of this station
+            self.lc[0].iode = {}
+            self.lc[0].dclk = {}
+            self.lc[0].dorb = {}
         return baselen
-- 
2.43.0


From 11581f014a456baaf1c0b40fdd012e9489537412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:46 +0000
Subject: [PATCH 134/187] fix: QZNMA: messages of a second type with the same
 issue were not stored

---
 src/cssrlib/qznma.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cssrlib/qznma.py b/src/cssrlib/qznma.py
index 7652cf9..282e81b 100644
--- a/src/cssrlib/qznma.py
+++ b/src/cssrlib/qznma.py
@@ -139,6 +139,7 @@ class qznma():
                     iodn = navmsg.iodn
                     if iodn not in self.navmsg[sat].keys():
                         self.navmsg[sat][iodn] = {}
+                    if uNavId.GPS_LNAV not in self.navmsg[sat][iodn].keys():
                         self.navmsg[sat][iodn][uNavId.GPS_LNAV] = navmsg
 
     def load_navmsg_cnav(self, navfile):
@@ -173,6 +174,7 @@ class qznma():
                     iodn = navmsg.iodn
                     if iodn not in self.navmsg[sat].keys():
                         self.navmsg[sat][iodn] = {}
+                    if uNavId.GPS_CNAV not in self.navmsg[sat][iodn].keys():
                         self.navmsg[sat][iodn][uNavId.GPS_CNAV] = navmsg
 
     def load_navmsg_fnav(self, navfile):
@@ -701,6 +703,7 @@ class qznma():
             iodn = navmsg.iodn
             if iodn not in self.navmsg[sat].keys():
                 self.navmsg[sat][iodn] = {}
+            if mode not in self.navmsg[sat][iodn].keys():
                 self.navmsg[sat][iodn][mode] = navmsg
 
     def verify_qzss_nav(self, sat, npr, msg, mode):
-- 
2.43.0


From 7ed68cf5db1798c5a491ca6f5c2ff8eeeeeb21d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:46 +0000
Subject: [PATCH 135/187] fix: QZNMA: the first public key was used for all key
 IDs, unknown keys failed

---
 src/cssrlib/qznma.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/cssrlib/qznma.py b/src/cssrlib/qznma.py
index 282e81b..76a7ef4 100644
--- a/src/cssrlib/qznma.py
+++ b/src/cssrlib/qznma.py
@@ -13,6 +13,7 @@ Note:
 """
 
 import copy
+import os
 from binascii import unhexlify, hexlify
 import numpy as np
 import bitstruct.c as bs
@@ -92,6 +93,7 @@ class qznma():
     def __init__(self):
         self.navmsg = {}
         self.pk = None
+        self.keyid = None  # ID of the public key (None: given by the user)
         self.rds = {}
         self.flag_e = {}
         self.mask = {}
@@ -502,6 +504,18 @@ class qznma():
 
         return npr, mnav
 
+    def select_pubkey(self, keyid):
+        """ select the public key used for the signature """
+        if self.pk is None or self.keyid not in (None, keyid):
+            pubk_path = self.pubk_bdir + f"/{keyid:03d}.der"
+            pk = load_pubkey(pubk_path) if os.path.isfile(pubk_path) else None
+            if pk is None:
+                if self.monlevel > 0:
+                    print(f"loading public key {keyid} was faild.")
+                return False
+            self.pk, self.keyid = pk, keyid
+        return True
+
     def verify_gnss_nav(self, npr, mnav):
         """ verifify the navigation message in MNAV using DS """
         if npr.mt == uNavId.GPS_LNAV:
@@ -527,13 +541,8 @@ class qznma():
         sat = self.svid2sat(npr.svid)
         sys, prn = sat2prn(sat)
 
-        if self.pk is None:
-            pubk_path = self.pubk_bdir + f"/{npr.keyid:03d}.der"
-            self.pk = load_pubkey(pubk_path)
-            if self.pk is None:
-                if self.monlevel > 0:
-                    print(f"loading public key {npr.keyid} was faild.")
-                return False
+        if not self.select_pubkey(npr.keyid):
+            return False
 
         ds_der = raw2der(npr.ds)
         status = False
@@ -722,13 +731,8 @@ class qznma():
         rand_[1:k1+1] = msg
         bs.pack_into('u16', rand_, 8+mlen, npr.salt)
 
-        if self.pk is None:
-            pubk_path = self.pubk_bdir + f"/{npr.keyid:03d}.der"
-            self.pk = load_pubkey(pubk_path)
-            if self.pk is None:
-                if self.monlevel > 0:
-                    print(f"loading public key {npr.keyid} was faild.")
-                return False
+        if not self.select_pubkey(npr.keyid):
+            return False
 
         status = False
         try:
-- 
2.43.0


From 6e3c56d2c22effb1b938cd9d2cb0f7b81ef6f21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:46 +0000
Subject: [PATCH 136/187] fix: QZNMA: reserved satellite numbers failed

---
 src/cssrlib/qznma.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/qznma.py b/src/cssrlib/qznma.py
index 76a7ef4..1b7c57c 100644
--- a/src/cssrlib/qznma.py
+++ b/src/cssrlib/qznma.py
@@ -419,6 +419,8 @@ class qznma():
             sat = prn2sat(uGNSS.SBS, svid)
         elif svid <= 202:
             sat = prn2sat(uGNSS.QZS, svid)
+        else:
+            sat = 0
 
         return sat
 
@@ -449,7 +451,6 @@ class qznma():
         i += 16
 
         sat = self.svid2sat(svid)
-        sys, prn = sat2prn(sat)
 
         if svid == 0 or sat not in self.navmsg.keys() or \
                 iode1 not in self.navmsg[sat].keys() or \
-- 
2.43.0


From 68546e693648b371b805c5c18c5abf1d330c8bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:46 +0000
Subject: [PATCH 137/187] fix: QZNMA: messages without RDS failed, end of week

---
 src/cssrlib/qznma.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/qznma.py b/src/cssrlib/qznma.py
index 1b7c57c..02529df 100644
--- a/src/cssrlib/qznma.py
+++ b/src/cssrlib/qznma.py
@@ -784,6 +784,12 @@ class qznma():
 
         return nsat
 
+    def get_slot(self, sat, tow):
+        """ place of a message after the last RDS """
+        if self.tow_p[sat] < 0 or self.npr[sat] is None:
+            return -1
+        return (tow-self.tow_p[sat]) % 604800//6
+
     def decode(self, tow, msg=None, msg_n=None, sat=0,
                navmode=uNavId.GPS_LNAV):
         """ decode QZNMA message and authenticate """
@@ -802,7 +808,7 @@ class qznma():
                 sid = bs.unpack_from('u3', msg, 53)[0]
                 tow_ = bs.unpack_from('u17', msg, 32+2)[0]*6
                 _, prn = sat2prn(sat)
-                ki = (tow_-self.tow_p[sat])//6
+                ki = self.get_slot(sat, tow_)
 
                 if sid == 4 or sid == 5:
                     data_id, svid = bs.unpack_from('u2u6', msg, 32*2+2)
@@ -832,7 +838,7 @@ class qznma():
                 prn_, msgid, tow_, alert = bs.unpack_from('u6u6u17u1', msg, 8)
                 prn = prn_ + 192
                 tow_ *= 6
-                ki = (tow_-self.tow_p[sat])//6
+                ki = self.get_slot(sat, tow_)
 
                 if msgid == 60:
                     self.npr[sat] = self.gen_rds(sat, uNavId.GPS_CNAV, msg)
@@ -868,7 +874,7 @@ class qznma():
                     if self.mask[sat] == 7:
                         self.tow_p[sat], self.mask[sat] = tow_, 0
 
-                elif tow_ == self.tow_p[sat]+18:
+                elif self.get_slot(sat, tow_) == 3:
                     mnav = self.cnav2_to_mnav(toi, msg)
                     status = self.verify_qzss_nav(
                         sat, self.npr[sat], mnav, uNavId.GPS_CNAV2)
-- 
2.43.0


From f7a2c05041d54045372bdda92ffabe12b1484ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:46 +0000
Subject: [PATCH 138/187] fix: QZNMA: a lost part of an RDS mixed up all
 following ones

---
 src/cssrlib/qznma.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cssrlib/qznma.py b/src/cssrlib/qznma.py
index 02529df..15e041d 100644
--- a/src/cssrlib/qznma.py
+++ b/src/cssrlib/qznma.py
@@ -583,6 +583,8 @@ class qznma():
 
         if mode == uNavId.GPS_LNAV:  # 540bits (180bitsx3)
             sid, d = bs.unpack_from('u2u14', msg, 32*2+2+8)
+            if sid == 1:  # start of a new RDS
+                self.mask[sat] = 0
             if sid > 0:
                 i0 = (sid-1)*180
                 bs.pack_into('u14', self.rds[sat], i0, d)
@@ -595,12 +597,16 @@ class qznma():
 
         elif mode == uNavId.GPS_CNAV:  # 708bits (236bits*3)
             sid = bs.unpack_from('u2', msg, 38)[0]
+            if sid == 1:  # start of a new RDS
+                self.mask[sat] = 0
             if sid > 0:
                 copy_buff(msg, self.rds[sat], 40, (sid-1)*236, 236)
                 self.mask[sat] |= (1 << (sid-1))
 
         elif mode == uNavId.GPS_CNAV2:  # 702bits (234bits*3)
             sid = bs.unpack_from('u2', msg, 1266)[0]
+            if sid == 1:  # start of a new RDS
+                self.mask[sat] = 0
             if sid > 0:
                 copy_buff(msg, self.rds[sat], 1268, (sid-1)*234, 234)
                 self.mask[sat] |= (1 << (sid-1))
-- 
2.43.0


From e5378aa7cdcbf5426dd2a5385dd2d878908141da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:31 +0000
Subject: [PATCH 139/187] fix: DC report: wrong year or month of reports,
 occurrence and arrival times

---
 src/cssrlib/ewss.py | 110 ++++++++++++++++++++------------------------
 1 file changed, 51 insertions(+), 59 deletions(-)

diff --git a/src/cssrlib/ewss.py b/src/cssrlib/ewss.py
index 5e9e65f..a41f7e6 100644
--- a/src/cssrlib/ewss.py
+++ b/src/cssrlib/ewss.py
@@ -16,7 +16,7 @@ Emergency Warning Satellite Service (EWSS) Decoder
 
 import bitstruct as bs
 from cssrlib.gnss import time2str, epoch2time, time2epoch, timeadd, \
-    time2gpst, gpst2time, utc2gpst, gtime_t
+    time2gpst, gpst2time, utc2gpst, gtime_t, timediff
 from enum import IntEnum
 import json
 import numpy as np
@@ -191,6 +191,35 @@ class ewsDec():
         ep = time2epoch(t1)
         return ep[1], ep[2]
 
+    def nearest(self, t, cand):
+        """ valid date and time [y,m,d,h,m] next to the time t """
+        tn = gtime_t()
+        for ep in cand:
+            tc = epoch2time([*ep, 0.0])
+            if time2epoch(tc)[1:3] != ep[1:3]:  # no such day
+                continue
+            if tn.time == 0 or abs(timediff(tc, t)) < abs(timediff(tn, t)):
+                tn = tc
+        return tn
+
+    def set_time(self, month, day, hour, minute):
+        """ set report time (without year) """
+        year = time2epoch(self.time)[0]
+        self.ta = self.nearest(self.time, [[y, month, day, hour, minute]
+                                           for y in range(year-4, year+5)])
+        self.year, self.month = time2epoch(self.ta)[0:2]
+
+    def get_time(self, day, hour, minute):
+        """ time (without year and month) next to the report time """
+        k = self.year*12+self.month-1
+        return self.nearest(self.ta, [[j//12, j % 12+1, day, hour, minute]
+                                      for j in (k-1, k, k+1)])
+
+    def get_arrival(self, d, hour, minute):
+        """ arrival time on the day of the report (d=0) or the next (d=1) """
+        ep = time2epoch(timeadd(self.ta, d*86400.0))
+        return epoch2time([ep[0], ep[1], ep[2], hour, minute, 0.0])
+
     def draw_ellipse(self, ax, lat, lon, LM, lm, az):
         """ draw ellipse (TBD) """
         None
@@ -331,11 +360,8 @@ class jmaDec(ewsDec):
                 s_ += self.pre_t[reg]+" "
             print(s_)
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = ep[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
-        self.tb = epoch2time([self.year, month, d1, h1, m1, 0.0])
+        self.set_time(month, day, hour, minute)
+        self.tb = self.get_time(d1, h1, m1)
 
         self.params = []
         self.params.append(reg_)
@@ -390,10 +416,8 @@ class jmaDec(ewsDec):
             print(f"depth={de}km mag={ma:.1f}")
             print(f"epicenter:{self.ep_t[ep]} lat {lat:.4f} lon {lon:.4f}")
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = ep[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
+        self.set_time(month, day, hour, minute)
+        self.tb = self.get_time(d1, h1, m1)
 
         self.pos = [lat, lon]
 
@@ -436,11 +460,8 @@ class jmaDec(ewsDec):
             for k, reg in enumerate(reg_):
                 print(f"{self.mag_i_t[es_[k]]} {self.pre_i_t[reg]}")
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = ep[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
-        self.tb = epoch2time([self.year, month, d1, h1, m1, 0.0])
+        self.set_time(month, day, hour, minute)
+        self.tb = self.get_time(d1, h1, m1)
 
         self.params = []
         self.params.append(es_)
@@ -476,10 +497,7 @@ class jmaDec(ewsDec):
             if self.pidx == (1 << pm)-1:
                 print(self.msg.decode('utf-8'))
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = ep[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
+        self.set_time(month, day, hour, minute)
 
         self.params = []
         self.params.append(txt)
@@ -516,10 +534,7 @@ class jmaDec(ewsDec):
             if dw > 0 and dw in self.dw_t:
                 print(f"{self.dw_w_t[dw]}")
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = ep[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
+        self.set_time(month, day, hour, minute)
 
         self.tb = []
         self.params = []
@@ -535,8 +550,7 @@ class jmaDec(ewsDec):
             if d == 0 and h == 0 and m == 0 and th == 0 and reg == 0:
                 continue
 
-            tb = epoch2time([self.year, month, d, h, m, 0.0])
-            self.tb.append(tb)
+            self.tb.append(self.get_arrival(d, h, m))
 
             self.params.append([th, reg])
 
@@ -555,6 +569,8 @@ class jmaDec(ewsDec):
         self.it, _, tp = bs.unpack_from('u2u10u3', msg, i)
         i += 15
 
+        self.set_time(month, day, hour, minute)
+
         self.tb = []
         self.params = []
         self.params.append(tp)
@@ -565,8 +581,7 @@ class jmaDec(ewsDec):
             th, reg = bs.unpack_from('u9u7', msg, i)
             i += 16
 
-            tb = epoch2time([self.year, month, d, h, m, 0.0])
-            self.tb.append(tb)
+            self.tb.append(self.get_arrival(d, h, m))
             self.params.append([th, reg])
 
         i += 18
@@ -578,11 +593,6 @@ class jmaDec(ewsDec):
                 f"NP Tsunami ({self.it}) {month:2d}/{day:02d} " +
                 f"{hour:2d}:{minute:02d}")
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = ep[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
-
         return i
 
     def decode_jma_volcano(self, msg, i):
@@ -616,11 +626,8 @@ class jmaDec(ewsDec):
             for reg in reg_:
                 print(self.reg_v_t[reg])
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = ep[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
-        self.tb = epoch2time([self.year, month, d1, h1, m1, 0.0])
+        self.set_time(month, day, hour, minute)
+        self.tb = self.get_time(d1, h1, m1)
 
         self.params = [du, dw, vo]
         self.params.append(reg_)
@@ -658,11 +665,8 @@ class jmaDec(ewsDec):
                 if self.monlevel > 0:
                     print(f"{ho}h {dw_} {reg_}")
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = ep[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
-        self.tb = epoch2time([self.year, month, d1, h1, m1, 0.0])
+        self.set_time(month, day, hour, minute)
+        self.tb = self.get_time(d1, h1, m1)
 
         i += 15
         self.vn = bs.unpack_from('u6', msg, i)[0]
@@ -695,10 +699,7 @@ class jmaDec(ewsDec):
             if self.monlevel > 0:
                 print(f"{self.ww_t[ww]} {self.reg_ww_t[pl]}")
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = ep[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
+        self.set_time(month, day, hour, minute)
 
         i += 14  # spare 2
         self.vn = bs.unpack_from('u6', msg, i)[0]
@@ -731,10 +732,7 @@ class jmaDec(ewsDec):
 
         i += 29
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = ep[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
+        self.set_time(month, day, hour, minute)
 
         self.vn = bs.unpack_from('u6', msg, i)[0]
         i += 12
@@ -785,12 +783,9 @@ class jmaDec(ewsDec):
                   f"{month}/{d1} {h1:2d}:{m1:02d} {self.dt_tp_t[dt]} {du}h " +
                   f"lat={lat:.4f} lon={lon:.4f} pr={pr} w1={w1} w2={w2}")
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = month
+        self.set_time(month, day, hour, minute)
 
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
-        self.tb = epoch2time([self.year, month, d1, h1, m1, 0.0])
+        self.tb = self.get_time(d1, h1, m1)
 
         self.pos = np.array([lat, lon])
         self.params = [dt, du, tn, sr, ic, pr, w1, w2]
@@ -806,10 +801,7 @@ class jmaDec(ewsDec):
         self.it = bs.unpack_from('u2', msg, i)[0]
         i += 12
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = month
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
+        self.set_time(month, day, hour, minute)
 
         if self.monlevel > 0:
             print(f"Manine ({self.itype_t[self.it]}) " +
-- 
2.43.0


From 22f4b0e535c1cc10c719bb97d5bca6dfa13acd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:31 +0000
Subject: [PATCH 140/187] fix: DC report: pages of different Nankai Trough
 reports were mixed up

---
 src/cssrlib/ewss.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/ewss.py b/src/cssrlib/ewss.py
index a41f7e6..153466a 100644
--- a/src/cssrlib/ewss.py
+++ b/src/cssrlib/ewss.py
@@ -291,7 +291,8 @@ class jmaDec(ewsDec):
         self.reg_m_t = self.load_msg('tab4_1_2_53.txt')
 
         self.pidx = 0
-        self.msg = bytearray(512)
+        self.msg = bytearray(63*18)
+        self.rep = None  # report the pages in msg belong to
 
         self.te = gtime_t()
         self.pos = np.array([])
@@ -484,8 +485,14 @@ class jmaDec(ewsDec):
         pn, pm = bs.unpack_from('u6u6', msg, i)
         i += 13
 
-        self.pidx |= 1 << (pn-1)
-        self.msg[(pn-1)*18:pn*18] = txt
+        rep = (month, day, hour, minute, self.it, is_, pm)
+        if rep != self.rep:  # another report
+            self.rep, self.pidx = rep, 0
+            self.msg = bytearray(63*18)
+
+        if 1 <= pn <= pm:
+            self.pidx |= 1 << (pn-1)
+            self.msg[(pn-1)*18:pn*18] = txt
 
         self.vn = bs.unpack_from('u6', msg, i)[0]
         i += 12
@@ -495,7 +502,7 @@ class jmaDec(ewsDec):
                   f"{self.isc_t[is_]} " +
                   f"{month:2d}/{day:02d} {hour:2d}:{minute:02d} {pn}/{pm}")
             if self.pidx == (1 << pm)-1:
-                print(self.msg.decode('utf-8'))
+                print(self.msg[:pm*18].decode('utf-8', errors='replace'))
 
         self.set_time(month, day, hour, minute)
 
-- 
2.43.0


From 90b9af6d14dc9dd7310dd02cab81dbe092415961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:31 +0000
Subject: [PATCH 141/187] fix: CAMF: details of many hazards failed or were
 ignored

---
 src/cssrlib/ewss.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/cssrlib/ewss.py b/src/cssrlib/ewss.py
index 153466a..e25246d 100644
--- a/src/cssrlib/ewss.py
+++ b/src/cssrlib/ewss.py
@@ -1571,7 +1571,7 @@ class camfDec(ewsDec):
                 d16i = bs.unpack_from('u3', msg, i)[0]
                 self.d16 = self.d16_t[d16i]
 
-            elif hcat == THazard.WINDCHILL:  # Wind chill/frost
+            elif hcat == THazard.WIND_CHILL:  # Wind chill/frost
                 d8i, d6i = bs.unpack_from('u4u4', msg, i)
                 self.d8 = self.d8_t[d8i]
                 self.d6 = self.d6_t[d6i]
@@ -1588,7 +1588,7 @@ class camfDec(ewsDec):
                 self.d17 = self.d17_t[d17i]
                 self.d13 = self.d13_t[d13i]
 
-            elif hcat == THazard.SNOWSTORM:  # Snow storm/blizzard
+            elif hcat == THazard.SNOW_STORM:  # Snow storm/blizzard
                 d13i, d8i = bs.unpack_from('u4u4', msg, i)
                 self.d13 = self.d13_t[d13i]
                 self.d8 = self.d8_t[d8i]
@@ -1602,7 +1602,7 @@ class camfDec(ewsDec):
             elif hcat == THazard.ASH_FALL:  # Ash fall
                 d20i = bs.unpack_from('u3', msg, i)[0]
                 self.d20 = self.d20_t[d20i]
-            elif hcat == THazard.WINDSURGE:  # Wind/wave/storm surge
+            elif hcat == THazard.WIND_SURGE:  # Wind/wave/storm surge
                 d8i, d5i = bs.unpack_from('u4u3', msg, i)
                 self.d8 = self.d8_t[d8i]
                 self.d5 = self.d5_t[d5i]
@@ -1612,7 +1612,7 @@ class camfDec(ewsDec):
             elif hcat == THazard.TERRORISM:  # Terrorism
                 d22i = bs.unpack_from('u3', msg, i)[0]
                 self.d22 = self.d22_t[d22i]
-            elif hcat == THazard.FOREST_FIRE:  # Forest fire / risk of fire
+            elif hcat == THazard.RISK_OF_FIRE:  # Forest fire / risk of fire
                 d23i = bs.unpack_from('u3', msg, i)[0]
                 self.d23 = self.d23_t[d23i]
             elif hcat == THazard.CONTAMINATED_WATER:
@@ -1622,7 +1622,7 @@ class camfDec(ewsDec):
             elif hcat == THazard.UV_RADIATION:  # UV radiation
                 d25i = bs.unpack_from('u4', msg, i)[0]
                 self.d25 = self.d25_t[d25i]
-            elif hcat == THazard.PANDEMIC:  # Risk of infection / pandemic
+            elif hcat in (THazard.PANDEMIC, THazard.RISK_OF_INFECTION):  # Risk of infection / pandemic
                 d26i, d35i = bs.unpack_from('u5u6', msg, i)
                 self.d26 = self.d26_t[d26i]
                 self.d35 = self.d35_t[d35i]
@@ -1632,15 +1632,21 @@ class camfDec(ewsDec):
             elif hcat == THazard.AIR_POLLUTION:  # Air pollution
                 d28i = bs.unpack_from('u3', msg, i)[0]
                 self.d28 = self.d28_t[d28i]
-            elif hcat == THazard.MARINE_POLLUTION:  # Marine/river pollution
+            elif hcat in (THazard.MARINE_POLLUTION,
+                          THazard.RIVER_POLLUTION):  # Marine/river pollution
                 d24i = bs.unpack_from('u3', msg, i)[0]
                 self.d24 = self.d24_t[d24i]
-            elif hcat == THazard.OUTAGE_OF_IT:
+            elif hcat in (THazard.OUTAGE_OF_IT, THazard.GAS_SUPPLY_OUTAGE,
+                          THazard.POWER_OUTAGE,
+                          THazard.EMERGENCY_NUMBER_OUTAGE,
+                          THazard.TELEPHONE_LINE_OUTAGE):
                 # outage of gas supply/IT systems/power systems/
                 # emergency number/telephone line
                 d29i = bs.unpack_from('u5', msg, i)[0]
                 self.d29 = self.d29_t[d29i]
-            elif hcat == THazard.NUCLEAR_HAZARD:
+            elif hcat in (THazard.NUCLEAR_HAZARD,
+                          THazard.NUCLEAR_POWER_ACCIDENT,
+                          THazard.RADIOLOGICAL_HAZARD):
                 # Radiological hazard, nuclear hazard and nuclear
                 # power station accident
                 d30i = bs.unpack_from('u4', msg, i)[0]
-- 
2.43.0


From 9dd3ecedbb10878275ba706b33280369d79824ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:31 +0000
Subject: [PATCH 142/187] fix: CAMF: onset of hazards was a week late on
 Sundays

---
 src/cssrlib/ewss.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/ewss.py b/src/cssrlib/ewss.py
index e25246d..48487c0 100644
--- a/src/cssrlib/ewss.py
+++ b/src/cssrlib/ewss.py
@@ -1389,8 +1389,10 @@ class camfDec(ewsDec):
         # wn: 0:current week, 1: next week
         # tow: 1:mon 00:00, 2:mon 00:01, 3:mon 00:02
         # .. sun 23:59
-        week, _ = time2gpst(self.time)
+        week, tow0 = time2gpst(self.time)
         week += wn
+        if tow0 < 86400:  # Sunday, last day of the week
+            week -= 1
 
         tow = (tow-1)*60+86400  # sec from sun
         if tow >= 604800:
-- 
2.43.0


From 64bbbefd4617f0ca1955362a551fb0d81062c8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:31 +0000
Subject: [PATCH 143/187] fix: CAMF: content of former messages was kept

---
 src/cssrlib/ewss.py | 101 ++++++++++++++++++++++++--------------------
 1 file changed, 55 insertions(+), 46 deletions(-)

diff --git a/src/cssrlib/ewss.py b/src/cssrlib/ewss.py
index 48487c0..1aac218 100644
--- a/src/cssrlib/ewss.py
+++ b/src/cssrlib/ewss.py
@@ -1130,52 +1130,7 @@ class camfDec(ewsDec):
         # data
         self.sel = 0
 
-        self.lat = 0.0
-        self.lon = 0.0
-        self.LM = self.Lm = self.az = 0.0
-        self.dlat = 0.0
-        self.dlon = 0.0
-
-        self.dist = 0.0
-        self.LMs = 0.0
-        self.Lms = 0.0
-        self.theta = 0.0
-
-        self.d1 = None
-        self.d2 = None
-        self.d3 = None
-        self.d4 = None
-        self.d5 = None
-        self.d6 = None
-        self.d7 = None
-        self.d8 = None
-        self.d9 = None
-        self.d10 = None
-        self.d11 = None
-        self.d12 = None
-        self.d13 = None
-        self.d14 = None
-        self.d15 = None
-        self.d16 = None
-        self.d17 = None
-        self.d18 = None
-        self.d19 = None
-        self.d20 = None
-        self.d21 = None
-        self.d22 = None
-        self.d23 = None
-        self.d24 = None
-        self.d25 = None
-        self.d26 = None
-        self.d27 = None
-        self.d28 = None
-        self.d29 = None
-        self.d30 = None
-        self.d31 = None
-        self.d32 = None
-        self.d33 = None
-        self.d34 = None
-        self.d35 = None
+        self.reset_data()
 
         self.dow_t = ('Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday',
                       'Saturday', 'Sunday')
@@ -1237,6 +1192,58 @@ class camfDec(ewsDec):
             7: 'Keep away from Cliffs and areas at risk of collapse.',
         }
 
+    def reset_data(self):
+        """ clear the content of the last message """
+        self.hazard = None
+        self.severity = None
+        self.lat = 0.0
+        self.lon = 0.0
+        self.LM = self.Lm = self.az = 0.0
+        self.dlat = 0.0
+        self.dlon = 0.0
+
+        self.dist = 0.0
+        self.LMs = 0.0
+        self.Lms = 0.0
+        self.theta = 0.0
+
+        self.d1 = None
+        self.d2 = None
+        self.d3 = None
+        self.d4 = None
+        self.d5 = None
+        self.d6 = None
+        self.d7 = None
+        self.d8 = None
+        self.d9 = None
+        self.d10 = None
+        self.d11 = None
+        self.d12 = None
+        self.d13 = None
+        self.d14 = None
+        self.d15 = None
+        self.d16 = None
+        self.d17 = None
+        self.d18 = None
+        self.d19 = None
+        self.d20 = None
+        self.d21 = None
+        self.d22 = None
+        self.d23 = None
+        self.d24 = None
+        self.d25 = None
+        self.d26 = None
+        self.d27 = None
+        self.d28 = None
+        self.d29 = None
+        self.d30 = None
+        self.d31 = None
+        self.d32 = None
+        self.d33 = None
+        self.d34 = None
+        self.d35 = None
+        self.d36 = None
+
     def decode_ext(self, msg, i):
         """ decode DCX Extended Message (74bits) """
 
@@ -1351,6 +1358,7 @@ class camfDec(ewsDec):
 
     def decode(self, msg, i):
         """ decode CAMF message (122bits) """
+        self.reset_data()
         # 3.1 Message Identifier (A1,A2,A3)
         mt, self.regi, pid = bs.unpack_from('u2u9u5', msg, i)
         i += 16
@@ -1374,6 +1382,7 @@ class camfDec(ewsDec):
         # hcat: Tab. 4.2-7
         if hcat not in self.hazard_t.keys():
             i += 97
+            self.sel = bs.unpack_from('u1', msg, i-97+17)[0]
             if hcat > 0:
                 print(f"category not found: pid={pid} cat={hcat} sev={sev}")
             return i
-- 
2.43.0


From 487d3a4a46ce28d55e6eb4592c325b936075cfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:31 +0000
Subject: [PATCH 144/187] fix: DC report, CAMF: reserved codes failed

---
 src/cssrlib/ewss.py | 145 ++++++++++++++++++++++++--------------------
 1 file changed, 80 insertions(+), 65 deletions(-)

diff --git a/src/cssrlib/ewss.py b/src/cssrlib/ewss.py
index 1aac218..c2e17aa 100644
--- a/src/cssrlib/ewss.py
+++ b/src/cssrlib/ewss.py
@@ -164,11 +164,23 @@ class THazard(IntEnum):
     TEST_ALERT = 0b1110001
 
 
+class CodeTable(dict):
+    """ names of codes, reserved codes have none """
+
+    def __missing__(self, key):
+        return f'unknown ({key})'
+
+
+def get_item(t, k):
+    """ entry of a table, None for reserved codes """
+    return t[k] if k < len(t) else None
+
+
 class ewsDec():
     """ EWS Message decoder class """
 
     def load_msg(self, file):
-        s = {}
+        s = CodeTable()
         with open(self.msg_path+file, "rt", encoding="utf-8") as f:
             for line in f:
                 v = line.split('\t')
@@ -245,7 +257,7 @@ class jmaDec(ewsDec):
                        12: 'JMA Typhoon',
                        14: 'JMA Marine'}
 
-        self.itype_t = {0: 'Issue', 2: 'Cancellation'}
+        self.itype_t = CodeTable({0: 'Issue', 2: 'Cancellation'})
 
         self.co_t = self.load_msg('tab4_1_2_6.txt')
 
@@ -653,8 +665,8 @@ class jmaDec(ewsDec):
 
         vo_ = self.vo_t[vo]
 
-        self.dw1_t = {1: "Ash Fall Forecast (Preliminary)",
-                      2: "Ash Fall Forecast (Detailed)"}
+        self.dw1_t = CodeTable({1: "Ash Fall Forecast (Preliminary)",
+                      2: "Ash Fall Forecast (Detailed)"})
 
         if self.monlevel > 0:
             print(f"Ash Fall ({self.itype_t[self.it]}) " +
@@ -688,7 +700,7 @@ class jmaDec(ewsDec):
         # ar: warning state
         self.it, _, ar = bs.unpack_from('u2u10u3', msg, i)
         i += 15
-        self.ar_t = {1: "issue", 2: "cansellation"}
+        self.ar_t = CodeTable({1: "issue", 2: "cansellation"})
 
         if self.monlevel > 0:
             print(f"Weather ({self.itype_t[self.it]}) " +
@@ -757,7 +769,7 @@ class jmaDec(ewsDec):
         self.it, _, d1, h1, m1, dt = bs.unpack_from('u2u10u5u5u6u3', msg, i)
         i += 31+8
 
-        self.dt_tp_t = {1: 'Analysis', 2: 'Estimate', 3: 'Forecast'}
+        self.dt_tp_t = CodeTable({1: 'Analysis', 2: 'Estimate', 3: 'Forecast'})
 
         # du: elapsed time
         # tn: typhoon number
@@ -1138,7 +1150,7 @@ class camfDec(ewsDec):
         self.inst_t = ('(not specified)', 'stay',
                        'move to/toward', 'keep away from')
 
-        self.guid_t = {
+        self.guid_t = CodeTable({
             0: '(not specified)',
             1: 'Under/inside a solid structure',
             2: '3rd floor or higher',
@@ -1149,10 +1161,10 @@ class camfDec(ewsDec):
             7: 'Cliffs and areas at risk of collapse',
             127: 'Take the best immediate action to save your life',
             255: 'Take the best immediate action to save your life'
-        }
+        })
 
         # inst = 0
-        self.guid_la_t = {
+        self.guid_la_t = CodeTable({
             0: '(not specified)',
             1: 'Take the best immediate action to save your life.',
             127: 'Take the best immediate action to save your life.',
@@ -1166,7 +1178,7 @@ class camfDec(ewsDec):
             135: 'It is believed that the previous missile will not drop in Japan.',
             136: 'This is a test message for J-Alert.',
             255: 'Take immediate action to save your life.'
-        }
+        })
 
         # inst = 1
         self.guid_ja1_t = {
@@ -1339,7 +1351,10 @@ class camfDec(ewsDec):
                     mc = bs.unpack_from('u16', msg, i)[0]
                     i += 16
                     if mc > 0:
-                        j = np.where(self.mc_t['tiiki-code'] == mc)[0][0]
+                        j = np.where(self.mc_t['tiiki-code'] == mc)[0]
+                        if len(j) == 0:
+                            continue
+                        j = j[0]
                         si = self.mc_t['ken-name'][j]
                         if pd.isna(self.mc_t['sityouson-name1'][j]) == False:
                             si += self.mc_t['sityouson-name1'][j]
@@ -1515,138 +1530,138 @@ class camfDec(ewsDec):
             if hcat == THazard.EARTHQUAKE:  # Earthquake
                 d1i, d2i, d3i, d4i = bs.unpack_from('u4u3u4u4', msg, i)
                 # D1 – Magnitude on Richter Scale
-                self.d1 = self.d1_t[d1i]
+                self.d1 = get_item(self.d1_t, d1i)
                 # D2 – Seismic Coefficient
-                self.d2 = self.d2_t[d2i]
+                self.d2 = get_item(self.d2_t, d2i)
                 # D3 – Azimuth from Centre of Main Ellipse to Epicentre
                 self.d3 = d3i*22.5
                 # D4 – Vector Length between Centre of
                 #      Main Ellipse and Epicentre
-                self.d4 = self.d4_t[d4i]
+                self.d4 = get_item(self.d4_t, d4i)
 
             elif hcat in (THazard.TIDAL_WAVE, THazard.TSUNAMI):
                 # Tsunami
                 d5i = bs.unpack_from('u3', msg, i)[0]
                 # D5 – Wave Height
-                self.d5 = self.d5_t[d5i]
+                self.d5 = get_item(self.d5_t, d5i)
 
             elif hcat in (THazard.COLD_WAVE, THazard.HEAT_WAVE):
                 # Cold wave / heat wave
                 d6i = bs.unpack_from('u4', msg, i)[0]
-                self.d6 = self.d6_t[d6i]
+                self.d6 = get_item(self.d6_t, d6i)
 
             elif hcat == THazard.HURRICANE:  # Tropical cyclone (hurricane)
                 d7i, d8i, d9i = bs.unpack_from('u3u4u3', msg, i)
 
-                self.d7 = self.d7_t[d7i]
-                self.d8 = self.d8_t[d8i]
-                self.d9 = self.d9_t[d9i]
+                self.d7 = get_item(self.d7_t, d7i)
+                self.d8 = get_item(self.d8_t, d8i)
+                self.d9 = get_item(self.d9_t, d9i)
 
             elif hcat == THazard.TYPHOON:  # Tropical cyclone (typhoon)
                 d36i, d8i, d9i = bs.unpack_from('u3u4u3', msg, i)
-                self.d36 = self.d36_t[d36i]
-                self.d8 = self.d8_t[d8i]
-                self.d9 = self.d9_t[d9i]
+                self.d36 = get_item(self.d36_t, d36i)
+                self.d8 = get_item(self.d8_t, d8i)
+                self.d9 = get_item(self.d9_t, d9i)
 
             elif hcat == THazard.TORNADO:  # Tornado
                 d8i, d9i, d11i = bs.unpack_from('u4u3u3', msg, i)
-                self.d8 = self.d8_t[d8i]
-                self.d9 = self.d9_t[d9i]
-                self.d11 = self.d11_t[d11i]
+                self.d8 = get_item(self.d8_t, d8i)
+                self.d9 = get_item(self.d9_t, d9i)
+                self.d11 = get_item(self.d11_t, d11i)
 
             elif hcat == THazard.STORM:  # Storm or thunderstorm
                 d8i, d9i, d10i, d16i = bs.unpack_from('u4u3u3u3', msg, i)
-                self.d8 = self.d8_t[d8i]
-                self.d9 = self.d9_t[d9i]
-                self.d10 = self.d10_t[d10i]
-                self.d16 = self.d16_t[d16i]
+                self.d8 = get_item(self.d8_t, d8i)
+                self.d9 = get_item(self.d9_t, d9i)
+                self.d10 = get_item(self.d10_t, d10i)
+                self.d16 = get_item(self.d16_t, d16i)
 
             elif hcat == THazard.HAIL:  # Hail
                 d12i = bs.unpack_from('u3', msg, i)[0]
-                self.d12 = self.d12_t[d12i]
+                self.d12 = get_item(self.d12_t, d12i)
 
             elif hcat == THazard.RAINFALL:  # Rainfall
                 d9i, d13i = bs.unpack_from('u3u4', msg, i)
-                self.d9 = self.d9_t[d9i]
-                self.d13 = self.d13_t[d13i]
+                self.d9 = get_item(self.d9_t, d9i)
+                self.d13 = get_item(self.d13_t, d13i)
             elif hcat == THazard.SNOWFALL:  # Snowfall
                 d14i, d13i = bs.unpack_from('u5u4', msg, i)
                 self.d14 = self.d14_t[d14i]
-                self.d13 = self.d13_t[d13i]
+                self.d13 = get_item(self.d13_t, d13i)
 
             elif hcat == THazard.FLOOD:  # Flood
                 d15i = bs.unpack_from('u2', msg, i)[0]
-                self.d15 = self.d15_t[d15i]
+                self.d15 = get_item(self.d15_t, d15i)
 
             elif hcat == THazard.LIGHTNING:  # Lightning
                 d16i = bs.unpack_from('u3', msg, i)[0]
-                self.d16 = self.d16_t[d16i]
+                self.d16 = get_item(self.d16_t, d16i)
 
             elif hcat == THazard.WIND_CHILL:  # Wind chill/frost
                 d8i, d6i = bs.unpack_from('u4u4', msg, i)
-                self.d8 = self.d8_t[d8i]
-                self.d6 = self.d6_t[d6i]
+                self.d8 = get_item(self.d8_t, d8i)
+                self.d6 = get_item(self.d6_t, d6i)
 
             elif hcat == THazard.DERECHO:  # Derecho
                 d8i, d9i, d16i, d11i = bs.unpack_from('u4u3u3u3', msg, i)
-                self.d8 = self.d8_t[d8i]
-                self.d9 = self.d9_t[d9i]
-                self.d16 = self.d16_t[d16i]
-                self.d11 = self.d11_t[d11i]
+                self.d8 = get_item(self.d8_t, d8i)
+                self.d9 = get_item(self.d9_t, d9i)
+                self.d16 = get_item(self.d16_t, d16i)
+                self.d11 = get_item(self.d11_t, d11i)
 
             elif hcat == THazard.FOG:  # Fog
                 d17i, d13i = bs.unpack_from('u3u4', msg, i)
-                self.d17 = self.d17_t[d17i]
-                self.d13 = self.d13_t[d13i]
+                self.d17 = get_item(self.d17_t, d17i)
+                self.d13 = get_item(self.d13_t, d13i)
 
             elif hcat == THazard.SNOW_STORM:  # Snow storm/blizzard
                 d13i, d8i = bs.unpack_from('u4u4', msg, i)
-                self.d13 = self.d13_t[d13i]
-                self.d8 = self.d8_t[d8i]
+                self.d13 = get_item(self.d13_t, d13i)
+                self.d8 = get_item(self.d8_t, d8i)
             elif hcat == THazard.DROUGHT:  # Drought
                 d18i = bs.unpack_from('u2', msg, i)[0]
-                self.d18 = self.d18_t[d18i]
+                self.d18 = get_item(self.d18_t, d18i)
             elif hcat == THazard.AVALANCHE_RISK:  # Avalanche risk
                 d19i = bs.unpack_from('u3', msg, i)[0]
-                self.d19 = self.d19_t[d19i]
+                self.d19 = get_item(self.d19_t, d19i)
 
             elif hcat == THazard.ASH_FALL:  # Ash fall
                 d20i = bs.unpack_from('u3', msg, i)[0]
-                self.d20 = self.d20_t[d20i]
+                self.d20 = get_item(self.d20_t, d20i)
             elif hcat == THazard.WIND_SURGE:  # Wind/wave/storm surge
                 d8i, d5i = bs.unpack_from('u4u3', msg, i)
-                self.d8 = self.d8_t[d8i]
-                self.d5 = self.d5_t[d5i]
+                self.d8 = get_item(self.d8_t, d8i)
+                self.d5 = get_item(self.d5_t, d5i)
             elif hcat == THazard.GEOMAGNETIC_STORM:  # Geomagnetic/solar storm
                 d21i = bs.unpack_from('u3', msg, i)[0]
-                self.d21 = self.d21_t[d21i]
+                self.d21 = get_item(self.d21_t, d21i)
             elif hcat == THazard.TERRORISM:  # Terrorism
                 d22i = bs.unpack_from('u3', msg, i)[0]
-                self.d22 = self.d22_t[d22i]
+                self.d22 = get_item(self.d22_t, d22i)
             elif hcat == THazard.RISK_OF_FIRE:  # Forest fire / risk of fire
                 d23i = bs.unpack_from('u3', msg, i)[0]
-                self.d23 = self.d23_t[d23i]
+                self.d23 = get_item(self.d23_t, d23i)
             elif hcat == THazard.CONTAMINATED_WATER:
                 # Contaminated drinking water / marine pollution
                 d24i = bs.unpack_from('u3', msg, i)[0]
-                self.d24 = self.d24_t[d24i]
+                self.d24 = get_item(self.d24_t, d24i)
             elif hcat == THazard.UV_RADIATION:  # UV radiation
                 d25i = bs.unpack_from('u4', msg, i)[0]
-                self.d25 = self.d25_t[d25i]
+                self.d25 = get_item(self.d25_t, d25i)
             elif hcat in (THazard.PANDEMIC, THazard.RISK_OF_INFECTION):  # Risk of infection / pandemic
                 d26i, d35i = bs.unpack_from('u5u6', msg, i)
-                self.d26 = self.d26_t[d26i]
+                self.d26 = get_item(self.d26_t, d26i)
                 self.d35 = self.d35_t[d35i]
             elif hcat == THazard.NOISE_POLLUTION:  # Noise pollution
                 d27i = bs.unpack_from('u4', msg, i)[0]
-                self.d27 = self.d27_t[d27i]
+                self.d27 = get_item(self.d27_t, d27i)
             elif hcat == THazard.AIR_POLLUTION:  # Air pollution
                 d28i = bs.unpack_from('u3', msg, i)[0]
-                self.d28 = self.d28_t[d28i]
+                self.d28 = get_item(self.d28_t, d28i)
             elif hcat in (THazard.MARINE_POLLUTION,
                           THazard.RIVER_POLLUTION):  # Marine/river pollution
                 d24i = bs.unpack_from('u3', msg, i)[0]
-                self.d24 = self.d24_t[d24i]
+                self.d24 = get_item(self.d24_t, d24i)
             elif hcat in (THazard.OUTAGE_OF_IT, THazard.GAS_SUPPLY_OUTAGE,
                           THazard.POWER_OUTAGE,
                           THazard.EMERGENCY_NUMBER_OUTAGE,
@@ -1654,24 +1669,24 @@ class camfDec(ewsDec):
                 # outage of gas supply/IT systems/power systems/
                 # emergency number/telephone line
                 d29i = bs.unpack_from('u5', msg, i)[0]
-                self.d29 = self.d29_t[d29i]
+                self.d29 = get_item(self.d29_t, d29i)
             elif hcat in (THazard.NUCLEAR_HAZARD,
                           THazard.NUCLEAR_POWER_ACCIDENT,
                           THazard.RADIOLOGICAL_HAZARD):
                 # Radiological hazard, nuclear hazard and nuclear
                 # power station accident
                 d30i = bs.unpack_from('u4', msg, i)[0]
-                self.d30 = self.d30_t[d30i]
+                self.d30 = get_item(self.d30_t, d30i)
             elif hcat == THazard.CHEMICAL_HAZARD:  # Chemical hazard
                 d31i = bs.unpack_from('u4', msg, i)[0]
-                self.d31 = self.d31_t[d31i]
+                self.d31 = get_item(self.d31_t, d31i)
             elif hcat == THazard.BIO_HAZARD:  # Biological hazard
                 d32i, d33i = bs.unpack_from('u2u2', msg, i)
-                self.d32 = self.d32_t[d32i]
-                self.d33 = self.d33_t[d33i]
+                self.d32 = get_item(self.d32_t, d32i)
+                self.d33 = get_item(self.d33_t, d33i)
             elif hcat == THazard.EXPLOSIVE_HAZARD:  # Explosive hazard
                 d34i = bs.unpack_from('u2', msg, i)[0]
-                self.d34 = self.d34_t[d34i]
+                self.d34 = get_item(self.d34_t, d34i)
 
             i += 15
 
-- 
2.43.0


From e38aaf360d8a9d6b659fe20b7889727aff36da1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:31 +0000
Subject: [PATCH 145/187] fix: CAMF: printing of international messages failed

---
 src/cssrlib/ewss.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/ewss.py b/src/cssrlib/ewss.py
index c2e17aa..62ea0b7 100644
--- a/src/cssrlib/ewss.py
+++ b/src/cssrlib/ewss.py
@@ -550,7 +550,7 @@ class jmaDec(ewsDec):
         i += 4
 
         if self.monlevel > 0:
-            if dw > 0 and dw in self.dw_t:
+            if dw > 0 and dw in self.dw_w_t:
                 print(f"{self.dw_w_t[dw]}")
 
         self.set_time(month, day, hour, minute)
@@ -1436,6 +1436,7 @@ class camfDec(ewsDec):
         self.sel, self.ver = bs.unpack_from('u1u3', msg, i)
         i += 4
 
+        inst, info, s = 0, 0, ''
         if self.sel == 0:  # international (EU)
             ia, ib = bs.unpack_from('u5u5', msg, i)
             # List A: General required action
-- 
2.43.0


From 8d1f451240475a57d64d9135f80f2aca7d5c3be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:31 +0000
Subject: [PATCH 146/187] fix: SLAS: disaster messages were decoded without the
 reception time

---
 src/cssrlib/dgps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/dgps.py b/src/cssrlib/dgps.py
index 8a55e8a..ff94a20 100644
--- a/src/cssrlib/dgps.py
+++ b/src/cssrlib/dgps.py
@@ -126,6 +126,7 @@ class dgpsDec(cssr):
 
     def decode_mt43(self, msg, i):
         """ decode DC report by JMA (TBD) """
+        self.dcr.time = self.time
         i = self.dcr.decode(msg, i)
         return i
 
@@ -135,6 +136,7 @@ class dgpsDec(cssr):
         i += 10
         if self.monlevel >= 1:
             print(f"MT44 DCX sd={sdmt} {sdm}")
+        self.dcx.time = self.time
         i = self.dcx.decode(msg, i)
         i = self.dcx.decode_ext(msg, i)
         return i
-- 
2.43.0


From 0c1961114cc32728fa3cb5094e15a3602ef836a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:50 +0000
Subject: [PATCH 147/187] fix: PPP: index of the zenith delay was wrong without
 estimated ionosphere

---
 src/cssrlib/pppssr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index 472e9b8..526fd86 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -260,7 +260,7 @@ class pppos():
 
     def IT(self, na):
         """ return index of zenith tropospheric delay estimate """
-        return na-uGNSS.MAXSAT-1
+        return na-self.nav.niono-1
 
     def varerr(self, nav, el, f):
         """ variation of measurement """
-- 
2.43.0


From c70b2c2ff413b92c3865916dd1cff9853f62fb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:50 +0000
Subject: [PATCH 148/187] fix: PPP: process noise of the ionosphere was shifted
 without estimated zenith delay

---
 src/cssrlib/pppssr.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index 526fd86..4969704 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -205,10 +205,8 @@ class pppos():
 
         if self.nav.iono_opt == 1:  # iono is estimated
             # Iono delay
-            if self.nav.pmode >= 1:  # kinematic
-                self.nav.q[7:7+uGNSS.MAXSAT] = self.nav.sig_qion**2
-            else:
-                self.nav.q[4:4+uGNSS.MAXSAT] = self.nav.sig_qion**2
+            ni = self.nav.nq-self.nav.niono
+            self.nav.q[ni:ni+self.nav.niono] = self.nav.sig_qion**2
 
         # ambiguity
         if self.nav.pmode >= 1:  # kinematic
-- 
2.43.0


From 57e374951bcbbd04176003ed76e21674781c6567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:50 +0000
Subject: [PATCH 149/187] fix: PPP: status of the previous epoch was reported
 without a solution

---
 src/cssrlib/pppssr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index 4969704..8f27fa2 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -1405,6 +1405,7 @@ class pppos():
             return
 
         self.nav.nsat[0] = len(obs.sat)
+        self.nav.smode = 0  # no solution of this epoch so far
 
         # sun position is updated every 1sec
         if (self.nav.rsun is None) or \
-- 
2.43.0


From e0a58f8f328147f706771ed3872cb13155931b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:01 +0000
Subject: [PATCH 150/187] fix: PPP: processing without tropospheric model and
 antennas failed

---
 src/cssrlib/pppssr.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index 8f27fa2..1563e95 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -734,8 +734,8 @@ class pppos():
             # Receiver/satellite antenna offset
             #
             if self.nav.rcv_ant is None:
-                antrPR = [0.0 for _ in sigsPR]
-                antrCP = [0.0 for _ in sigsCP]
+                antrPR = np.zeros(nf)
+                antrCP = np.zeros(nf)
             else:
                 antrPR = antModelRx(self.nav, pos, e[i, :], sigsPR, rtype)
                 antrCP = antModelRx(self.nav, pos, e[i, :], sigsCP, rtype)
@@ -762,8 +762,8 @@ class pppos():
 
             else:
 
-                antsPR = [0.0 for _ in sigsPR]
-                antsCP = [0.0 for _ in sigsCP]
+                antsPR = np.zeros(nf)
+                antsCP = np.zeros(nf)
 
             # Check for invalid values
             #
-- 
2.43.0


From 88c2d5185b64e9322642beb6f43064b8a9a57a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:06 +0000
Subject: [PATCH 151/187] fix: PPP: status of the previous epoch was reported
 for empty epochs

---
 src/cssrlib/pppssr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index 1563e95..dca146c 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -1399,13 +1399,14 @@ class pppos():
         PPP/PPP-RTK/RTK positioning
         """
 
+        self.nav.smode = 0  # no solution of this epoch so far
+
         # Skip empty epochs
         #
         if len(obs.sat) == 0:
             return
 
         self.nav.nsat[0] = len(obs.sat)
-        self.nav.smode = 0  # no solution of this epoch so far
 
         # sun position is updated every 1sec
         if (self.nav.rsun is None) or \
-- 
2.43.0


From 87661872cc8720222e2d2d8939f2be15065ba5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:06 +0000
Subject: [PATCH 152/187] fix: PPP: signal biases of RTCM SSR were not applied

---
 src/cssrlib/pppssr.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index dca146c..9d58dd8 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -502,12 +502,16 @@ class pppos():
                 sigc[rSigRnx('GC2W')] = sigc[rSigRnx('GC2P')]
             if ctype == uTYP.L and rSigRnx('GL2P') in sigc.keys():
                 sigc[rSigRnx('GL2W')] = sigc[rSigRnx('GL2P')]
+            for sig in ('C2', 'L2'):  # RTCM SSR
+                if sig+'P' in sigc.keys() and sigref[0].sys == uGNSS.GPS:
+                    sigc[sig+'W'] = sigc[sig+'P']
 
         for k, sig in enumerate(sigref):
-            if sig in sigc.keys():
-                v[k] = sigc[sig]
-            elif sig.toAtt('X') in sigc.keys():
-                v[k] = sigc[sig.toAtt('X')]
+            # RTCM SSR uses the names of signals
+            for s in (sig, sig.str(), sig.toAtt('X'), sig.toAtt('X').str()):
+                if s in sigc.keys():
+                    v[k] = sigc[s]
+                    break
         return v
 
     def zdres(self, obs, cs, bsx, rs, vs, dts, rr, rtype=1):
-- 
2.43.0


From 908768e8fbb189a1e167494cd9d240d56cfec10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:38 +0000
Subject: [PATCH 153/187] fix: carrier smoothing failed after an epoch without
 observation

---
 src/cssrlib/pntpos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/pntpos.py b/src/cssrlib/pntpos.py
index 6793ae8..da94424 100644
--- a/src/cssrlib/pntpos.py
+++ b/src/cssrlib/pntpos.py
@@ -190,7 +190,7 @@ class stdpos(pppos):
             self.cs_cnt[sat] = 1
             return Pm
 
-        if sat not in self.cs_cnt or timediff(obs.t, self.cs_t0[sat]) > dt_th:
+        if sat not in self.cs_t0 or timediff(obs.t, self.cs_t0[sat]) > dt_th:
             self.cs_cnt[sat] = 1
 
         if self.cs_cnt[sat] == 1:
-- 
2.43.0


From c92c36d85c8e3cb5b811557b8fdec3c79b50e7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:38 +0000
Subject: [PATCH 154/187] fix: standalone positioning: reset of the receiver
 clock lost its former value

---
 src/cssrlib/pntpos.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/pntpos.py b/src/cssrlib/pntpos.py
index da94424..7611295 100644
--- a/src/cssrlib/pntpos.py
+++ b/src/cssrlib/pntpos.py
@@ -565,8 +565,9 @@ class stdpos(pppos):
         if abs(np.mean(v)) > self.nav.th_clk_rst:  # clock bias initialize/reset
             ic = self.ICB()
             idx_ = np.where(v != 0.0)[0]
-            xp[ic] = np.mean(v[idx_])
-            v[idx_] -= xp[ic]
+            dclk = np.mean(v[idx_])
+            xp[ic] += dclk
+            v[idx_] -= dclk
             if self.monlevel > 0:
                 print("{:s} clock reset.".format(time2str(obs.t)))
 
-- 
2.43.0


From a11d98d984d1b86dfdfea0edb01be568ec8a737a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:38 +0000
Subject: [PATCH 155/187] fix: standalone positioning: second frequency was
 used with residuals of zero

---
 src/cssrlib/pntpos.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cssrlib/pntpos.py b/src/cssrlib/pntpos.py
index 7611295..585a9db 100644
--- a/src/cssrlib/pntpos.py
+++ b/src/cssrlib/pntpos.py
@@ -437,6 +437,11 @@ class stdpos(pppos):
                     if np.any(self.nav.edt[sat[j]-1, :] > 0):
                         continue
 
+                    # Skip invalid measurements
+                    #
+                    if y[j, f] == 0.0:
+                        continue
+
                     v[nv] = y[j, f]
 
                     # SD line-of-sight vectors
-- 
2.43.0


From a0c84ba40a32ce9cc35daf2300e772181b6f7e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:38 +0000
Subject: [PATCH 156/187] fix: group delay of another satellite was applied to
 GLONASS

---
 src/cssrlib/ephemeris.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index 61a8bb5..f084240 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -727,7 +727,8 @@ def satposs(obs, nav, cs=None, orb=None):
                 nav.dorb[sat] = dorb_
                 nav.dclk[sat] = dclk
 
-            elif nav.smode == 1 and nav.nf == 1:  # stand-alone positioning
+            elif nav.smode == 1 and nav.nf == 1 and \
+                    sys != uGNSS.GLO:  # stand-alone positioning
                 dts[i] -= eph.tgd
 
             nsat += 1
-- 
2.43.0


From bd2e2320073766462c2f698264f8814f7b72ffdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:38 +0000
Subject: [PATCH 157/187] fix: standalone positioning: group delays, status and
 prediction over gaps

---
 src/cssrlib/pntpos.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/pntpos.py b/src/cssrlib/pntpos.py
index 585a9db..43c7d24 100644
--- a/src/cssrlib/pntpos.py
+++ b/src/cssrlib/pntpos.py
@@ -478,11 +478,14 @@ class stdpos(pppos):
         """
         standalone positioning
         """
+        self.nav.smode = 0  # no solution of this epoch so far
+
         if len(obs.sat) == 0:
             return
 
+        self.nav.smode = 1 if cs is None else 2  # standalone or DGPS
+
         if cs is not None and cs.cssrmode == sCSSRTYPE.DGPS:
-            self.nav.smode = 2  # DGPS
             self.nav.baseline = cs.set_dgps_corr(self.nav.x[0:3])
 
         if cs is not None and cs.cssrmode in \
@@ -497,6 +500,7 @@ class stdpos(pppos):
         rs, vs, dts, svh, nsat = satposs(obs, self.nav, cs=cs, orb=orb)
 
         if nsat < 4:
+            self.nav.smode = 0
             print(" too few satellites < 4: nsat={:d}".format(nsat))
             return
 
@@ -519,7 +523,7 @@ class stdpos(pppos):
             ns = len(iu)
 
         if ns < 4:
-            self.nav.t = obs.t
+            self.nav.smode = 0
             self.nsat = ns
             print(" too few satellites < 4: ns={:d}".format(ns))
             return
-- 
2.43.0


From acb527103cfb5fd1c0c8b69b4d59af554fe1d518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:38 +0000
Subject: [PATCH 158/187] fix: standalone positioning: ionospheric delay was
 that of L1 for all signals

---
 src/cssrlib/pntpos.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cssrlib/pntpos.py b/src/cssrlib/pntpos.py
index 43c7d24..9436dd3 100644
--- a/src/cssrlib/pntpos.py
+++ b/src/cssrlib/pntpos.py
@@ -350,6 +350,9 @@ class stdpos(pppos):
             else:
                 lam = np.array([s.wavelength() for s in sigsCP])
 
+            # ionospheric delay of the signal from that of L1
+            iono *= (lam[0]*rCST.FREQ_G1/_c)**2
+
             if self.nav.rmode == 0:
                 PR = obs.P[i, 0]
                 CP = lam[0]*obs.L[i, 0]
-- 
2.43.0


From b1694b254691923c878dd9b91bd898e1072b7856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:46 +0000
Subject: [PATCH 159/187] fix: RTCM: skipped message types returned another
 kind of result

---
 src/cssrlib/rtcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 756386e..a61b16c 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -4005,7 +4005,7 @@ class rtcm(cssr, rtcmUtil):
         self.subtype = subtype
 
         if self.msgtype in self.mt_skip:
-            return i
+            return i, obs, eph, geph, seph
 
         # SSR messages
         if self.msgtype in (1057, 1063, 1240, 1246, 1252, 1258):
-- 
2.43.0


From a0ed3aeaf70f5aa2d585e72b8b3a23b3535aa29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:46 +0000
Subject: [PATCH 160/187] fix: RTCM: station descriptors are ISO 8859-1

---
 src/cssrlib/rtcm.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index a61b16c..c0b164d 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2491,7 +2491,7 @@ class rtcm(cssr, rtcmUtil):
         self.refid, nc = bs.unpack_from('u12u8', msg, i)
         i += 20
         j = 7
-        self.ant_desc = msg[j:j+nc].decode()
+        self.ant_desc = msg[j:j+nc].decode('latin-1')
         i += 8*nc
         self.ant_id = bs.unpack_from('u8', msg, i)[0]
         i += 8
@@ -2500,26 +2500,26 @@ class rtcm(cssr, rtcmUtil):
             nc = bs.unpack_from('u8', msg, i)[0]
             i += 8
             j += 1
-            self.ant_serial = msg[j:j+nc].decode()
+            self.ant_serial = msg[j:j+nc].decode('latin-1')
             i += 8*nc
             j += nc
         if self.msgtype == 1033:
             nc = bs.unpack_from('u8', msg, i)[0]
             i += 8
             j += 1
-            self.rcv_type = msg[j:j+nc].decode()
+            self.rcv_type = msg[j:j+nc].decode('latin-1')
             i += 8*nc
             j += nc
             nc = bs.unpack_from('u8', msg, i)[0]
             i += 8
             j += 1
-            self.firm_ver = msg[j:j+nc].decode()
+            self.firm_ver = msg[j:j+nc].decode('latin-1')
             i += 8*nc
             j += nc
             nc = bs.unpack_from('u8', msg, i)[0]
             i += 8
             j += 1
-            self.rcv_serial = msg[j:j+nc].decode()
+            self.rcv_serial = msg[j:j+nc].decode('latin-1')
             i += 8*nc
             j += nc
 
-- 
2.43.0


From 37b6679fa20517ac17c9270c6ba47077ef237734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:46 +0000
Subject: [PATCH 161/187] fix: RTCM SSR: tropospheric correction without
 residuals failed

---
 src/cssrlib/rtcm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index c0b164d..2294e28 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -3263,6 +3263,9 @@ class rtcm(cssr, rtcmUtil):
         # west-east gradient c10 [m/deg]
         ct[1, 2] = self.sval(ct10w, 15, 0.01e-3)
 
+        rh = rw = None
+        ofst, ng = 0, 0
+
         if rmi:  # residual information part
             ofst, ng, n, m = bs.unpack_from('u12u12u4u4', msg, i)
             i += 32
-- 
2.43.0


From c6fd908d6e102e9a06d8ce0760e611589a4305e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:46 +0000
Subject: [PATCH 162/187] fix: RTCM SSR: atmospheric corrections of grids
 beyond 32 failed

---
 src/cssrlib/rtcm.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 2294e28..6bf212b 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -17,7 +17,7 @@ RTCM 3 decoder
 import numpy as np
 import struct as st
 import bitstruct as bs
-from cssrlib.cssrlib import cssr, sCSSR, prn2sat, sCType, cssre
+from cssrlib.cssrlib import cssr, sCSSR, prn2sat, sCType, cssre, local_corr
 from cssrlib.gnss import uGNSS, sat2id, gpst2time, timediff, time2str, sat2prn
 from cssrlib.gnss import uTYP, uSIG, rSigRnx, bdt2time, bdt2gpst, glo2time
 from cssrlib.gnss import time2bdt, gpst2bdt, rCST, time2gpst, utc2gpst, timeadd
@@ -3220,6 +3220,17 @@ class rtcm(cssr, rtcmUtil):
 
         return i
 
+    def local(self, inet):
+        """ local corrections of the grid, made when it is new """
+        while len(self.lc) <= inet:
+            lc = local_corr()
+            lc.inet = len(self.lc)
+            lc.flg_trop = 0
+            lc.flg_stec = 0
+            lc.nsat_n = 0
+            self.lc.append(lc)
+        return self.lc[inet]
+
     def decode_ssr_trop(self, msg, i, inet=0):
         """ decode SSR Tropspheric Correction Message """
         i, v = self.decode_head(msg, i)
@@ -3286,7 +3297,7 @@ class rtcm(cssr, rtcmUtil):
                     rw[k] = self.sval(rw_, m, 0.1e-3)
 
         # functional term parameters
-        self.lc[inet].ct = ct
+        self.local(inet).ct = ct
         # mapping function parameters
         self.lc[inet].maph = np.array([ah, bh, ch])
         self.lc[inet].mapw = np.array([aw, bw, cw])
@@ -3319,7 +3330,7 @@ class rtcm(cssr, rtcmUtil):
             sat[k] = self.svid2sat(sys, svid[k])
 
         inet = self.gid
-        self.lc[inet].sat_n = sat
+        self.local(inet).sat_n = sat
 
         if self.pmi:  # polynomial model information part
             self.pgi = bs.unpack_from('b1', msg, i)[0]
-- 
2.43.0


From b33280469daef4a863f1119c7ab76274ab21174b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:46 +0000
Subject: [PATCH 163/187] fix: RTCM SSR: ionospheric corrections of a system
 erased those of the others

---
 src/cssrlib/rtcm.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 6bf212b..4ff028d 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1715,8 +1715,9 @@ class rtcm(cssr, rtcmUtil):
             self.fh.write(f" IODSSR:{self.iodssr} ProvID:{self.pid} " +
                           f"SolID:{self.sid} GridID:{self.gid}\n")
             self.fh.write(f" Polynomial[TECU]: {self.pmi} (Grad:{self.pgi})\n")
+            sats = [s for s in self.lc[inet].sat_n if sat2prn(s)[0] == sys]
             if self.pmi:
-                for sat in self.lc[inet].sat_n:
+                for sat in sats:
                     self.fh.write(f"  {sat2id(sat):s}")
                     ci = self.lc[inet].ci[sat]
                     self.fh.write(f" c00 {ci[0]:8.4f}")
@@ -1725,7 +1726,7 @@ class rtcm(cssr, rtcmUtil):
                     self.fh.write("\n")
             self.fh.write(f" Residual[TECU]: {self.rmi}\n")
             if self.rmi:
-                for sat in self.lc[inet].sat_n:
+                for sat in sats:
                     self.fh.write(f"  {sat2id(sat):s}")
                     dstec = self.lc[inet].dstec[sat]
                     ng = self.lc[inet].ng
@@ -3330,14 +3331,19 @@ class rtcm(cssr, rtcmUtil):
             sat[k] = self.svid2sat(sys, svid[k])
 
         inet = self.gid
-        self.local(inet).sat_n = sat
+        lc = self.local(inet)
+
+        def others(v):  # corrections of the other systems stay
+            return {s: v[s] for s in v or {} if sat2prn(s)[0] != sys}
+
+        lc.sat_n = [s for s in lc.sat_n if sat2prn(s)[0] != sys] + list(sat)
 
         if self.pmi:  # polynomial model information part
             self.pgi = bs.unpack_from('b1', msg, i)[0]
             i += 1
             sz = 3 if self.pgi else 1
-            self.lc[inet].ci = {}
-            self.lc[inet].stype = {}
+            self.lc[inet].ci = others(lc.ci)
+            self.lc[inet].stype = others(getattr(lc, 'stype', {}))
             for k in range(nsat):
                 sat_ = sat[k]
                 self.lc[inet].ci[sat_] = np.zeros(sz)
@@ -3366,7 +3372,7 @@ class rtcm(cssr, rtcmUtil):
             else:
                 scl = 1.0
 
-            self.lc[inet].dstec = {}
+            self.lc[inet].dstec = others(getattr(lc, 'dstec', {}))
             fmt = 's'+str(rlen)
 
             for k in range(nsat):
-- 
2.43.0


From 02b054e3663a226ef31de820a0f94281c4e43471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:46 +0000
Subject: [PATCH 164/187] fix: RTCM SSR: ionospheric residuals of zero length
 failed

---
 src/cssrlib/rtcm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 4ff028d..1a82c85 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -3378,6 +3378,8 @@ class rtcm(cssr, rtcmUtil):
             for k in range(nsat):
                 sat_ = sat[k]
                 self.lc[inet].dstec[sat_] = np.zeros(ofst+ng)
+                if rlen == 0:  # no residuals
+                    continue
                 for j in range(ofst, ofst+ng):
                     res = bs.unpack_from(fmt, msg, i)[0]  # DF+062
                     i += rlen
-- 
2.43.0


From 9b29494e63321cc72a8ec4171e903004a5b62fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:46 +0000
Subject: [PATCH 165/187] fix: RTCM SSR: grid of two dimensions with an offset
 failed

---
 src/cssrlib/rtcm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 1a82c85..cd40fbe 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -3135,14 +3135,14 @@ class rtcm(cssr, rtcmUtil):
             self.pos0 = np.array([lat, lon, 0])
             self.ofst = ofst
 
-            for k in range(npnt):
+            for k in range(ofst, ofst+npnt):
                 dlat, dlon = bs.unpack_from('s13s14', msg, i)
                 i += 27
                 dlat_s = self.sval(dlat, 13, 1e-3)
                 dlon_s = self.sval(dlon, 14, 1e-3)
                 lat += dlat_s
                 lon += dlon_s
-                d = np.array([(gid, k, lat, lon, 0)], dtype=dtype0)
+                d = np.array([(gid, k+1, lat, lon, 0)], dtype=dtype0)
                 self.grid = np.append(self.grid, d)
                 self.dpos[k-ofst, :] = (dlat_s, dlon_s, 0)
 
-- 
2.43.0


From 524f4bda44fe49a4aeb31286cb20e42b8afd9b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:46 +0000
Subject: [PATCH 166/187] fix: RTCM SSR: grid and ionospheric residuals were
 truncated when encoded

---
 src/cssrlib/rtcm.py | 47 ++++++++++++++++++++-------------------------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index cd40fbe..ba96ab4 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -4486,9 +4486,9 @@ class rtcme(cssre, rtcmUtil):
         if self.gtype == 0:  # grid type 0
             gid, ofst, lat, lon, alt = grid[0]
 
-            lat_i = int(lat/1e-3)
-            lon_i = int(lon/1e-3)
-            alt_i = int((alt+1000)/12.5)
+            lat_i = round(lat/1e-3)
+            lon_i = round(lon/1e-3)
+            alt_i = round((alt+1000)/12.5)
 
             # Latitude of Reference Point DF+024
             # Longitude of Reference Point DF+025
@@ -4500,16 +4500,14 @@ class rtcme(cssre, rtcmUtil):
 
             for k in range(1, self.ng):
                 gid, ofst, lat_, lon_, alt_ = grid[k]
-                dlat = lat_-lat
-                dlon = lon_-lon
-                dalt = alt_-alt
-                lat = lat_
-                lon = lon_
-                alt = alt_
-
-                dlat_i = int(dlat/1e-3)
-                dlon_i = int(dlon/1e-3)
-                dalt_i = int(dalt/12.5)
+                # offset from the point as encoded, so that errors of
+                # rounding do not add up
+                dlat_i = round(lat_/1e-3)-lat_i
+                dlon_i = round(lon_/1e-3)-lon_i
+                dalt_i = round((alt_+1000)/12.5)-alt_i
+                lat_i += dlat_i
+                lon_i += dlon_i
+                alt_i += dalt_i
 
                 bs.pack_into('s13s14s9', msg, i, dlat_i, dlon_i, dalt_i)
                 i += 36
@@ -4517,8 +4515,8 @@ class rtcme(cssre, rtcmUtil):
         elif self.gtype == 1:  # grid type 1
             gid, ofst, lat, lon, alt = grid[0]
 
-            lat_i = int(lat/1e-3)
-            lon_i = int(lon/1e-3)
+            lat_i = round(lat/1e-3)
+            lon_i = round(lon/1e-3)
 
             bs.pack_into('s18s19u12u8', msg, i, lat_i, lon_i,
                          self.ofst, self.ng-1)
@@ -4526,13 +4524,10 @@ class rtcme(cssre, rtcmUtil):
 
             for k in range(1, self.ng):
                 gid, ofst, lat_, lon_, _ = grid[k]
-                dlat = lat_-lat
-                dlon = lon_-lon
-                lat = lat_
-                lon = lon_
-
-                dlat_i = int(dlat/1e-3)
-                dlon_i = int(dlon/1e-3)
+                dlat_i = round(lat_/1e-3)-lat_i
+                dlon_i = round(lon_/1e-3)-lon_i
+                lat_i += dlat_i
+                lon_i += dlon_i
                 bs.pack_into('s13s14', msg, i, dlat_i, dlon_i)
                 i += 27
 
@@ -4893,7 +4888,7 @@ class rtcme(cssre, rtcmUtil):
         sys_m = self.get_ssr_sys(self.msgtype)
         i = self.encode_head(msg, i, sys_m)
 
-        inet = self.inet
+        inet = self.gid
 
         pmi = (self.lc[inet].flg_stec >> 1) & 1
         rmi = self.lc[inet].flg_stec & 1
@@ -4946,7 +4941,7 @@ class rtcme(cssre, rtcmUtil):
             rlen = 18  # TBD
             scl = 2e-3  # TBD
 
-            grid = self.grid[self.grid['nid'] == self.inet]
+            grid = self.grid[self.grid['nid'] == inet]
             lat0 = grid[0]['lat']
             lon0 = grid[0]['lon']
 
@@ -4964,12 +4959,12 @@ class rtcme(cssre, rtcmUtil):
                 ci = self.lc[inet].ci[sat_]
                 for j in range(ofst, ofst+ng):
                     dstec = self.lc[inet].dstec[sat_][j]
-                    if np.abs(ci[3]) > 0:
+                    if len(ci) > 3:
                         dlat = grid[j]['lat']-lat0
                         dlon = grid[j]['lon']-lon0
                         dstec += [dlat*dlon, dlat**2, dlon**2]@ci[3:]
 
-                    res = int(dstec/scl)
+                    res = self.ival(dstec, rlen, scl)
                     bs.pack_into(fmt, msg, i, res)
                     i += rlen
 
-- 
2.43.0


From c471844f02d8124a8ea1ab841384ab087731e219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:16 +0000
Subject: [PATCH 167/187] fix: RTCM SSR: tropospheric correction without
 residuals kept those of before

---
 src/cssrlib/rtcm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index ba96ab4..e852937 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -3276,7 +3276,6 @@ class rtcm(cssr, rtcmUtil):
         ct[1, 2] = self.sval(ct10w, 15, 0.01e-3)
 
         rh = rw = None
-        ofst, ng = 0, 0
 
         if rmi:  # residual information part
             ofst, ng, n, m = bs.unpack_from('u12u12u4u4', msg, i)
@@ -3305,8 +3304,9 @@ class rtcm(cssr, rtcmUtil):
         self.lc[inet].dth = rh
         self.lc[inet].dtw = rw
 
-        self.lc[inet].ng = ng
-        self.lc[inet].ofst = ofst
+        if rmi:
+            self.lc[inet].ng = ng
+            self.lc[inet].ofst = ofst
 
         self.iodssr = v['iodssr']
         self.rmi = rmi
-- 
2.43.0


From 8b3951c11d792fca21d7af62393eed43ddc64410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:02 +0000
Subject: [PATCH 168/187] fix: RTCM MSM: observations had no time for the
 positioning

---
 src/cssrlib/rtcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index e852937..727fd4b 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2411,7 +2411,7 @@ class rtcm(cssr, rtcmUtil):
                 rrf[k] = self.sval(v, 15, 1e-4)
 
         obs = Obs()
-        obs.time = self.time
+        obs.t = obs.time = self.time
 
         obs.P = np.zeros((self.nsat, self.nsig), dtype=np.float64)
         obs.L = np.zeros((self.nsat, self.nsig), dtype=np.float64)
-- 
2.43.0


From 09a207ec67ef4326b230144bea354a6a50dcb3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:02 +0000
Subject: [PATCH 169/187] fix: RINEX observation writer expected a time
 observations do not have

---
 src/cssrlib/rinex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index d7fcc7d..de7f94b 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -1168,7 +1168,7 @@ class rnxenc:
     def rnx_obs_body(self, obs=None, fh=None):
         """ write RINEX observation message to file """
 
-        ep = time2epoch(obs.time)
+        ep = time2epoch(obs.t)
         nsat = len(obs.sat)
         nsig = obs.P.shape[1]
         fh.write("> {:4d} {:02d} {:02d} {:02d} {:02d} {:010.7f}".
-- 
2.43.0


From 98988da35c7ffe1844dff8dab87fb7f62029ed84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:02 +0000
Subject: [PATCH 170/187] fix: RINEX observation writer failed on missing (NaN)
 values

---
 src/cssrlib/rinex.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index de7f94b..359ecd0 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -1159,7 +1159,7 @@ class rnxenc:
         fh.flush()
 
     def sval(self, v: float):
-        if v == 0.0:
+        if v == 0.0 or np.isnan(v):
             s = "{:14s}".format("")
         else:
             s = "{:14.3f}".format(v)
@@ -1180,13 +1180,14 @@ class rnxenc:
             sys, prn = sat2prn(obs.sat[k])
             fh.write("{:3s}".format(sat2id(obs.sat[k])))
             for i in range(nsig):
-                ssi = min(max(int(obs.S[k][i]/6), 1), 9)
+                cn = 0.0 if np.isnan(obs.S[k][i]) else obs.S[k][i]
+                ssi = min(max(int(cn/6), 1), 9)
                 lli = obs.lli[k][i]
                 fh.write("{:14s}{:2s}".format(
                     self.sval(obs.P[k][i]), ""))
 
                 fh.write("{:14s}".format(self.sval(obs.L[k][i])))
-                if obs.L[k][i] == 0.0:
+                if obs.L[k][i] == 0.0 or np.isnan(obs.L[k][i]):
                     fh.write("{:2s}".format(""))
                 else:
                     fh.write("{:1d}{:1d}".format(lli, ssi))
-- 
2.43.0


From 67963f8e9a9d4c8888950e0c8dedc381c7905bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:02 +0000
Subject: [PATCH 171/187] fix: RINEX observation header was malformed with 26
 codes or more

---
 src/cssrlib/rinex.py | 42 ++++++++++++------------------------------
 1 file changed, 12 insertions(+), 30 deletions(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 359ecd0..ee4797e 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -1110,39 +1110,21 @@ class rnxenc:
             if nsig == 0:
                 continue
 
-            fh.write("{:1s}  {:3d}".format(sys_t[sys], nsig))
-
-            n = 0
+            sigs = []
             for k, _ in enumerate(pr):
-                fh.write(" {:3s}".format(pr[k].str()))
-                n += 1
-                if n == 13:
-                    fh.write("  {:20s}\n{:6s}".format(
-                        "SYS / # / OBS TYPES", ""))
-
-                fh.write(" {:3s}".format(cp[k].str()))
-                n += 1
-                if n == 13:
-                    fh.write("  {:20s}\n{:6s}".format(
-                        "SYS / # / OBS TYPES", ""))
-
+                sigs += [pr[k].str(), cp[k].str()]
                 if uTYP.D in self.sig_tab[sys]:
-                    fh.write(" {:3s}".format(dp[k].str()))
-                    n += 1
-                    if n == 13:
-                        fh.write("  {:20s}\n{:6s}".format(
-                            "SYS / # / OBS TYPES", ""))
-
+                    sigs.append(dp[k].str())
                 if uTYP.S in self.sig_tab[sys]:
-                    fh.write(" {:3s}".format(cn[k].str()))
-                    n += 1
-
-                if n == 13:
-                    fh.write("  {:20s}\n{:6s}".format(
-                        "SYS / # / OBS TYPES", ""))
-                elif n >= nsig-1:
-                    fh.write("  {:s}".format("    "*(13-(nsig % 13))))
-                    fh.write("{:20s}".format("SYS / # / OBS TYPES \n"))
+                    sigs.append(cn[k].str())
+
+            fh.write("{:1s}  {:3d}".format(sys_t[sys], nsig))
+            for k in range(0, nsig, 13):
+                if k > 0:
+                    fh.write("{:6s}".format(""))
+                fh.write("{:54s}{:20s}\n".format(
+                    "".join(" {:3s}".format(s) for s in sigs[k:k+13]),
+                    "SYS / # / OBS TYPES"))
 
         # TBD
         ep = time2epoch(ts)
-- 
2.43.0


From 2fea00bd7cffa5c9baa9c747dc9ed9f0c27aab01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:02 +0000
Subject: [PATCH 172/187] fix: RINEX signal table of Galileo named a GPS signal

---
 src/cssrlib/rawnav.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 285cdb7..1da9b45 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -2059,7 +2059,7 @@ class rcvDec():
                          rSigRnx('EL8Q'), rSigRnx('EL6C')],
                 uTYP.D: [rSigRnx('ED1C'), rSigRnx('ED5Q'), rSigRnx('ED7Q'),
                          rSigRnx('ED8Q'), rSigRnx('ED6C')],
-                uTYP.S: [rSigRnx('ES1C'), rSigRnx('ES5Q'), rSigRnx('GS7Q'),
+                uTYP.S: [rSigRnx('ES1C'), rSigRnx('ES5Q'), rSigRnx('ES7Q'),
                          rSigRnx('ES8Q'), rSigRnx('ES6C')],
             }
 
-- 
2.43.0


From ce0e8018a2056125e372976da04bcbbbe9e4bbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:44 +0000
Subject: [PATCH 173/187] fix: MADOCA ionosphere: positions in a circular area
 were not found

---
 src/cssrlib/cssr_mdc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/cssr_mdc.py b/src/cssrlib/cssr_mdc.py
index 30c1b11..275097c 100644
--- a/src/cssrlib/cssr_mdc.py
+++ b/src/cssrlib/cssr_mdc.py
@@ -77,9 +77,9 @@ class cssr_mdc(cssr):
                 elif p.sid == 1:  # circle
                     dn = (latd - p.latr)*rCST.D2R*rCST.RE_WGS84
                     de = (lond - p.lonr)*rCST.D2R * \
-                        rCST.RE_WGS84*np.cos(p.lonr*rCST.D2R)
+                        rCST.RE_WGS84*np.cos(p.latr*rCST.D2R)
                     r = np.sqrt(dn**2+de**2)
-                    if r <= p.rng:
+                    if r <= p.rng*1e3:  # [km] -> [m]
                         self.reg = reg
                         self.area = area
                         break
-- 
2.43.0


From 7ff0a7b87f23c5ee1b5bb276c6934fafbf072980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:44 +0000
Subject: [PATCH 174/187] fix: MADOCA ionosphere: no correction at western
 longitudes

---
 src/cssrlib/cssr_mdc.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/cssr_mdc.py b/src/cssrlib/cssr_mdc.py
index 275097c..4215359 100644
--- a/src/cssrlib/cssr_mdc.py
+++ b/src/cssrlib/cssr_mdc.py
@@ -59,6 +59,10 @@ class cssr_mdc(cssr):
             self.lc[inet].nsat_n = 0
             self.lc[inet].t0 = {}
 
+    def dlon(self, lond, lonr):
+        """ difference of longitudes [deg] (references are 0 to 360) """
+        return (lond - lonr + 180.0) % 360.0 - 180.0
+
     def find_grid_index(self, pos):
         """ find region/area   """
 
@@ -70,13 +74,13 @@ class cssr_mdc(cssr):
                 p = self.pnt[reg][area]
                 if p.sid == 0:  # rectangle shape:
                     if p.latr-p.lats <= latd and latd <= p.latr+p.lats and \
-                            p.lonr-p.lons <= lond and lond <= p.lonr+p.lons:
+                            abs(self.dlon(lond, p.lonr)) <= p.lons:
                         self.reg = reg
                         self.area = area
                         break
                 elif p.sid == 1:  # circle
                     dn = (latd - p.latr)*rCST.D2R*rCST.RE_WGS84
-                    de = (lond - p.lonr)*rCST.D2R * \
+                    de = self.dlon(lond, p.lonr)*rCST.D2R * \
                         rCST.RE_WGS84*np.cos(p.latr*rCST.D2R)
                     r = np.sqrt(dn**2+de**2)
                     if r <= p.rng*1e3:  # [km] -> [m]
@@ -96,7 +100,7 @@ class cssr_mdc(cssr):
         latd, lond = np.rad2deg(pos[0:2])
         p = self.pnt[self.reg][self.area]
         dlat = latd - p.latr
-        dlon = lond - p.lonr
+        dlon = self.dlon(lond, p.lonr)
 
         return dlat, dlon
 
-- 
2.43.0


From 50f673e2d892ed748b4e8f3bb0554464b1cbea0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:44 +0000
Subject: [PATCH 175/187] fix: MADOCA ionosphere: coefficients not available
 were taken as values

---
 src/cssrlib/cssr_mdc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/cssr_mdc.py b/src/cssrlib/cssr_mdc.py
index 4215359..fc5fdb6 100644
--- a/src/cssrlib/cssr_mdc.py
+++ b/src/cssrlib/cssr_mdc.py
@@ -220,8 +220,9 @@ class cssr_mdc(cssr):
 
                 sat_ += [sat]
                 ci[sat] = np.array(
-                    [c00*0.05, c01*0.02, c10*0.02, c11*0.02,
-                     c02*5e-3, c20*5e-3])
+                    [self.sval(c00, 14, 0.05), self.sval(c01, 12, 0.02),
+                     self.sval(c10, 12, 0.02), self.sval(c11, 10, 0.02),
+                     self.sval(c02, 8, 5e-3), self.sval(c20, 8, 5e-3)])
                 j += 1
 
         self.lc[inet].stype = stype
-- 
2.43.0


From 95a3c5306852a1dbc792e3d169a54f01104c8cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:44 +0000
Subject: [PATCH 176/187] fix: MADOCA ionosphere: a message replaced the area
 found for the user

---
 src/cssrlib/cssr_mdc.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/cssrlib/cssr_mdc.py b/src/cssrlib/cssr_mdc.py
index fc5fdb6..3f86088 100644
--- a/src/cssrlib/cssr_mdc.py
+++ b/src/cssrlib/cssr_mdc.py
@@ -45,8 +45,10 @@ class cssr_mdc(cssr):
         self.pnt = {}
         self.ci = {}
 
-        self.area = -1
+        self.area = -1  # area of the user
         self.reg = -1
+        self.area_m = -1  # area of the message
+        self.reg_m = -1
         self.alrt = 0
         self.narea_t = {1: 8, 2: 16, 3: 5, 4: 1, 5: 8}
         self.MAXNET = np.sum(list(self.narea_t.values()))
@@ -128,7 +130,7 @@ class cssr_mdc(cssr):
         self.tow0 = tow//3600*3600
         reg, alrt, len_, narea = bs.unpack_from('u8u1u16u5', buff, i)
         i += 30
-        self.reg = reg
+        self.reg_m = reg
         self.alrt = alrt
 
         if reg not in self.pnt:
@@ -178,8 +180,8 @@ class cssr_mdc(cssr):
         reg, area, stype_ = bs.unpack_from('u8u5u2', buff, i)
         i += 15
 
-        self.reg = reg
-        self.area = area
+        self.reg_m = reg
+        self.area_m = area
 
         nsat = bs.unpack_from('u5u5u5u5u5', buff, i)
         i += 25
@@ -255,9 +257,9 @@ class cssr_mdc(cssr):
             self.fh.write(f"Reg\tArea\tsid\t"
                           f"latr\tlonr\tlats\tlons\n")
 
-            for area in self.pnt[self.reg].keys():
-                p = self.pnt[self.reg][area]
-                self.fh.write(f"{self.reg}\t{area:2d}\t{p.sid}\t"
+            for area in self.pnt[self.reg_m].keys():
+                p = self.pnt[self.reg_m][area]
+                self.fh.write(f"{self.reg_m}\t{area:2d}\t{p.sid}\t"
                               f"{p.latr:3.1f}\t{p.lonr:4.1f}\t")
 
                 if p.sid == 0:
@@ -266,9 +268,9 @@ class cssr_mdc(cssr):
                     self.fh.write(f"{p.rng:3.1f}\n")
 
         elif self.msgtype == 2:
-            inet = self.get_inet(self.reg, self.area)
+            inet = self.get_inet(self.reg_m, self.area_m)
 
-            self.fh.write(f"Reg:{self.reg}\tArea:{self.area:2d}\n")
+            self.fh.write(f"Reg:{self.reg_m}\tArea:{self.area_m:2d}\n")
             self.fh.write("Sat,stype,c00,c01,c10,c11,c20,c02\n")
 
             for sat in self.lc[inet].sat_n:
-- 
2.43.0


From 320516ebed4a6ef01f51803fce469ff64f4f5cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:44 +0000
Subject: [PATCH 177/187] fix: MADOCA ionosphere: corrections of different
 areas shared a place

---
 src/cssrlib/cssr_mdc.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/cssrlib/cssr_mdc.py b/src/cssrlib/cssr_mdc.py
index 3f86088..b28bd12 100644
--- a/src/cssrlib/cssr_mdc.py
+++ b/src/cssrlib/cssr_mdc.py
@@ -53,13 +53,20 @@ class cssr_mdc(cssr):
         self.narea_t = {1: 8, 2: 16, 3: 5, 4: 1, 5: 8}
         self.MAXNET = np.sum(list(self.narea_t.values()))
 
-        for inet in range(self.MAXNET+1):
-            self.lc.append(local_corr())
-            self.lc[inet].inet = inet
-            self.lc[inet].flg_trop = 0
-            self.lc[inet].flg_stec = 0
-            self.lc[inet].nsat_n = 0
-            self.lc[inet].t0 = {}
+        self.inet_x = {}  # networks of other regions and areas
+        while len(self.lc) <= self.MAXNET:
+            self.add_net()
+
+    def add_net(self):
+        """ add a network """
+        lc = local_corr()
+        lc.inet = len(self.lc)
+        lc.flg_trop = 0
+        lc.flg_stec = 0
+        lc.nsat_n = 0
+        lc.t0 = {}
+        self.lc.append(lc)
+        return lc.inet
 
     def dlon(self, lond, lonr):
         """ difference of longitudes [deg] (references are 0 to 360) """
@@ -163,6 +170,11 @@ class cssr_mdc(cssr):
         if reg < 0 or area < 0:
             return -1
 
+        if not 1 <= area <= self.narea_t.get(reg, 0):
+            if (reg, area) not in self.inet_x:
+                self.inet_x[(reg, area)] = self.add_net()
+            return self.inet_x[(reg, area)]
+
         inet = 0
         for r in self.narea_t.keys():
             if r >= reg:
-- 
2.43.0


From 88a93719203d06528c84f456cc29fb1c2ebb3e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:53 +0000
Subject: [PATCH 178/187] fix: RTCM SSR: phase bias without wide-lane indicator
 kept a former one

---
 src/cssrlib/rtcm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 727fd4b..d41272e 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1284,6 +1284,8 @@ class rtcm(cssr, rtcmUtil):
                     wl = bs.unpack_from('u2', msg, i)[0]
                     i += 2
                     self.lc[inet].wl[sat_][rsig] = wl
+                else:
+                    self.lc[inet].wl[sat_].pop(rsig, None)
 
                 # signal discontinuity indicator: DF485
                 # phase bias: DF482
-- 
2.43.0


From 274e5e72852273aba6d768b35bf91626f52aec2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:15 +0000
Subject: [PATCH 179/187] fix: velocity of BDS GEO satellites lacked the
 rotation of their frame

---
 src/cssrlib/ephemeris.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index f084240..7b30557 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -189,8 +189,10 @@ def eph2pos(t: gtime_t, eph: Eph, flg_v=False):
     si = np.sin(inc)
     ci = np.cos(inc)
 
-    if sys == uGNSS.BDS and (prn <= 5 or prn >= 59):  # BDS GEO
-        Omg = eph.OMG0+eph.OMGd*dt-omge*eph.toes
+    geo = sys == uGNSS.BDS and (prn <= 5 or prn >= 59)
+    if geo:  # BDS GEO
+        omegd = eph.OMGd
+        Omg = eph.OMG0+omegd*dt-omge*eph.toes
         sOmg = np.sin(Omg)
         cOmg = np.cos(Omg)
         p = np.array([cOmg, sOmg, 0])
@@ -203,6 +205,7 @@ def eph2pos(t: gtime_t, eph: Eph, flg_v=False):
                        [0.0,   -rCST.SIN_5,    rCST.COS_5]])
         rs = Mo@rg
     else:
+        omegd = eph.OMGd-omge
         Omg = eph.OMG0+eph.OMGd*dt-omge*(eph.toes+dt)
         sOmg = np.sin(Omg)
         cOmg = np.cos(Omg)
@@ -221,12 +224,17 @@ def eph2pos(t: gtime_t, eph: Eph, flg_v=False):
         hd = np.array([-h[1], h[0]])
         xod = rd*h+(r*ud)*hd
         incd = eph.idot+np.array([eph.cic, eph.cis])@h2d
-        omegd = eph.OMGd-omge
 
         pd = np.array([-p[1], p[0], 0])*omegd
         qd = np.array([-q[1], q[0], 0])*omegd+qq*incd
 
         vs = xo@np.array([pd, qd])+xod@np.array([p, q])
+
+        if geo:
+            Mod = omge*np.array([[-so, co*rCST.COS_5, co*rCST.SIN_5],
+                                 [-co, -so*rCST.COS_5, -so*rCST.SIN_5],
+                                 [0.0, 0.0, 0.0]])
+            vs = Mo@vs+Mod@rg
         return rs, vs, dts
 
     return rs, dts
-- 
2.43.0


From abc929a6128b4075e2bb11ea2f5aceb87210bd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:15 +0000
Subject: [PATCH 180/187] fix: satellite velocity was not the rate of the
 harmonic and CNAV terms

---
 src/cssrlib/ephemeris.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index 7b30557..f904f95 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -215,11 +215,16 @@ def eph2pos(t: gtime_t, eph: Eph, flg_v=False):
 
     if flg_v:  # satellite velocity
         qq = np.array([si*sOmg, -si*cOmg, ci])
-        Ed = n/nue
+        nd = n
+        if eph.mode > 0:
+            nd += 0.5*dt*eph.delnd
+        Ed = nd/nue
         nud = np.sqrt(1.0-eph.e**2)/nue*Ed
-        h2d = 2.0*nud*np.array([-h[1], h[0]])
+        h2d = 2.0*nud*np.array([-h2[1], h2[0]])
         ud = nud+np.array([eph.cuc, eph.cus])@h2d
         rd = Ak*eph.e*sE*Ed+np.array([eph.crc, eph.crs])@h2d
+        if eph.mode > 0:
+            rd += eph.Adot*nue
 
         hd = np.array([-h[1], h[0]])
         xod = rd*h+(r*ud)*hd
-- 
2.43.0


From ec10cc607f5279a0c8fe2053b7007f52273415c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:15 +0000
Subject: [PATCH 181/187] fix: almanacs older than a week were used for a week
 less

---
 src/cssrlib/ephemeris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index f904f95..878bbd5 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -904,7 +904,7 @@ def alm2pos(t: gtime_t, alm: Alm):
     else:  # GPS,QZS
         mu = rCST.MU_GPS
         omge = rCST.OMGE
-    dt = dtadjust(t, alm.toa)
+    dt = timediff(t, alm.toa)
     n0 = np.sqrt(mu/alm.A**3)
     M = alm.M0+n0*dt
     E = M
-- 
2.43.0


From 92b461175caf7e84cd8ee8679113b1886fd2e806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:15 +0000
Subject: [PATCH 182/187] fix: week of almanacs was wrong by the rollover of
 week numbers

---
 src/cssrlib/ephemeris.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index 878bbd5..ba11751 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -765,7 +765,6 @@ def loadXmlAlmanac(fname, sys=uGNSS.GAL):
     ep = [d.year, d.month, d.day, d.hour, d.minute, d.second]
     tref = epoch2time(ep)
     week_ref, tow_ref = time2gst(tref)
-    week_ref = week_ref//4*4
 
     h = root.find('body').find('Almanacs')
     for sv in h.findall('svAlmanac'):
@@ -797,7 +796,9 @@ def loadXmlAlmanac(fname, sys=uGNSS.GAL):
         alm.toas = float(alm_.find('t0a').text)
         wna = float(alm_.find('wna').text)
 
-        alm.toa = gst2time(week_ref + wna, alm.toas)
+        # the week nearest to the one of issue
+        wna += (week_ref-wna+2)//4*4
+        alm.toa = gst2time(wna, alm.toas)
         alm.svh = (sts_E5a << 4) | (sts_E5b << 2) | (sts_E1B)
 
         alm_t.append(alm)
@@ -855,9 +856,8 @@ def loadyuma(fname, sys=uGNSS.GPS):
                 alm.af1 = float(v[1])
             elif v[0] == 'week':
                 alm.week = int(v[1])
-                alm.week += week_ref//1023*1023
-                if alm.week > week_ref:
-                    alm.week -= 1023
+                # the week nearest to the current one
+                alm.week += (week_ref-alm.week+512)//1024*1024
 
                 alm.sattype = 0
                 if sys == uGNSS.GPS or sys == uGNSS.QZS:
-- 
2.43.0


From 6f5f3f95a16a6910ca59677c750fa16edd50d433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:11 +0000
Subject: [PATCH 183/187] fix: satellite clock was taken off the time of
 transmission twice

---
 src/cssrlib/ephemeris.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index ba11751..058abdf 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -247,9 +247,10 @@ def eph2pos(t: gtime_t, eph: Eph, flg_v=False):
 
 def eph2clk(time, eph):
     """ calculate clock offset based on ephemeris """
-    t = timediff(time, eph.toc)
+    ts = timediff(time, eph.toc)
+    t = ts
     for _ in range(2):
-        t -= eph.af0+eph.af1*t+eph.af2*t**2
+        t = ts - (eph.af0+eph.af1*t+eph.af2*t**2)
     dts = eph.af0+eph.af1*t+eph.af2*t**2
     return dts
 
-- 
2.43.0


From 96428333ca1b6a06f7bd331eb50a296f1275eebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:22 +0000
Subject: [PATCH 184/187] fix: Kepler's equation was not solved to the end for
 eccentric orbits

---
 src/cssrlib/ephemeris.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index 058abdf..a607ace 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -131,14 +131,13 @@ def eccentricAnomaly(M, e):
     Compute eccentric anomaly based on mean anomaly and eccentricity
     """
     E = M
-    for _ in range(10):
+    for _ in range(MAX_ITER_KEPLER):
         Eold = E
-        sE = np.sin(E)
-        E = M+e*sE
-        if abs(Eold-E) < 1e-12:
+        E -= (E-e*np.sin(E)-M)/(1.0-e*np.cos(E))
+        if abs(Eold-E) < RTOL_KEPLER:
             break
 
-    return E, sE
+    return E, np.sin(E)
 
 
 def sys2MuOmega(sys):
@@ -908,13 +907,7 @@ def alm2pos(t: gtime_t, alm: Alm):
     dt = timediff(t, alm.toa)
     n0 = np.sqrt(mu/alm.A**3)
     M = alm.M0+n0*dt
-    E = M
-    for _ in range(10):
-        Eold = E
-        sE = np.sin(E)
-        E = M+alm.e*sE
-        if abs(Eold-E) < 1e-12:
-            break
+    E, sE = eccentricAnomaly(M, alm.e)
     cE = np.cos(E)
     u = np.arctan2(np.sqrt(1.0-alm.e**2)*sE, cE-alm.e)+alm.omg
     r = alm.A*(1.0-alm.e*cE)
-- 
2.43.0


From f72ede9a8ac7fb22f39b17bf8d899798e2d9f2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:51 +0000
Subject: [PATCH 185/187] fix: conversion of a position in degrees changed the
 caller's position

---
 src/cssrlib/gnss.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index eea93b0..c9c8239 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -1437,8 +1437,7 @@ def ecef2pos(r):
 def pos2ecef(pos, isdeg: bool = False):
     """ LLH (rad/deg) to ECEF position conversion  """
     if isdeg:
-        pos[0] *= np.pi/180.0
-        pos[1] *= np.pi/180.0
+        pos = [pos[0]*np.pi/180.0, pos[1]*np.pi/180.0, pos[2]]
     s_p = sin(pos[0])
     c_p = cos(pos[0])
     s_l = sin(pos[1])
-- 
2.43.0


From 0cac09db60d6cff5ec757c46ce520fefabaad568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:51 +0000
Subject: [PATCH 186/187] fix: direction to a satellite at the zenith failed by
 rounding errors

---
 src/cssrlib/gnss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index c9c8239..b4e0306 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -1501,7 +1501,7 @@ def satazel(pos, e):
     """ calculate az/el from LOS vector in ECEF (e) """
     enu = ecef2enu(pos, e)
     az = atan2(enu[0], enu[1])
-    el = asin(enu[2])
+    el = asin(max(-1.0, min(1.0, enu[2])))  # rounding errors at zenith
     return az, el
 
 
-- 
2.43.0


From ae705b9982613ed41b74bd19794e94bc455b88df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:38 +0000
Subject: [PATCH 187/187] fix: combined and high-rate clock corrections could
 not be encoded

---
 src/cssrlib/rtcm.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index d41272e..227c0b6 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -4716,6 +4716,35 @@ class rtcme(cssre, rtcmUtil):
 
         return i
 
+    def encode_cssr_comb(self, msg, i, inet=0):
+        """ encode RTCM SSR Combined Orbit/Clock Correction message """
+        sys = self.get_ssr_sys(self.msgtype)
+        i = self.encode_head(msg, i, sys)
+
+        for sat in self.sat_n:
+            sys_, _ = sat2prn(sat)
+            if sys_ != sys:
+                continue
+            i = self.encode_sat(msg, i, sat)
+            i = self.encode_orb_sat(msg, i, sat)
+            i = self.encode_clk_sat(msg, i, sat)
+
+        return i
+
+    def encode_cssr_hclk(self, msg, i, inet=0):
+        """ encode RTCM SSR High Rate Clock Correction message """
+        sys = self.get_ssr_sys(self.msgtype)
+        i = self.encode_head(msg, i, sys)
+
+        for sat in self.sat_n:
+            sys_, _ = sat2prn(sat)
+            if sys_ != sys:
+                continue
+            i = self.encode_sat(msg, i, sat)
+            i = self.encode_hclk_sat(msg, i, sat)
+
+        return i
+
     def encode_cssr_ura(self, msg, i, inet=0):
         """ encode RTCM SSR URA message """
         sys = self.get_ssr_sys(self.msgtype)
-- 
2.43.0

