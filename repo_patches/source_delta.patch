From 144efcadc75353ec9ca9e95dad38058efad6daf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:11 +0000
Subject: [PATCH 01/91] fix: from_symbol_array/from_bit_array keep the bits of
 all modes and honour dtype

---
 qampy/signals.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index 7d489bf..ad0ed49 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -765,8 +765,9 @@ class SignalQAMGrayCoded(SignalBase):
         scale = np.sqrt(theory.cal_scaling_factor_qam(M)) / np.sqrt((abs(np.unique(symbs)) ** 2).mean())
         coded_symbols, graycode, encoding, bitmap_mtx = cls._generate_mapping(M, scale, dtype=dtype)
         out = np.empty_like(symbs).astype(dtype)
+        idx = np.zeros(symbs.shape, dtype=np.uint16)
         for i in range(symbs.shape[0]):
-            out[i], _, idx = make_decision(np.copy(symbs[i]), coded_symbols) # need a copy to avoid a pythran error
+            out[i], _, idx[i] = make_decision(symbs[i].astype(dtype), coded_symbols) # need a copy to avoid a pythran error
         bits = cls._demodulate(idx, encoding)
         obj = np.asarray(out).view(cls)
         obj._M = M
@@ -820,7 +821,7 @@ class SignalQAMGrayCoded(SignalBase):
         obj._M = M
         obj._fb = fb
         obj._fs = fb
-        obj._bits = bits
+        obj._bits = arr
         obj._encoding = encoding
         obj._code = graycode
         obj._bitmap_mtx = bitmap_mtx
-- 
2.43.0


From a3537fc6ef39bb247f01ccc7daced835835dc7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:11 +0000
Subject: [PATCH 02/91] fix: estimate_snr is not NaN when an alphabet symbol
 was not transmitted

---
 qampy/core/pythran_dsp.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/qampy/core/pythran_dsp.py b/qampy/core/pythran_dsp.py
index c9f1365..ca5d06b 100644
--- a/qampy/core/pythran_dsp.py
+++ b/qampy/core/pythran_dsp.py
@@ -276,12 +276,13 @@ def estimate_snr(signal_rx, symbols_tx, gray_symbols):
     for ind in range(N):
         sel_symbs = signal_rx[symbols_tx == gray_symbols[ind]]
         K = sel_symbs.shape[0]
-        Px = K/L
-        mu = np.mean(sel_symbs)
-        #dif = sel_symbs-mu
-        sigma = np.sqrt(np.sum(abs(sel_symbs-mu)**2)/K)
-        N0 += abs(sigma)**2*Px
-        in_pow += abs(mu)**2*Px
+        if K > 0: # symbols that were not transmitted do not contribute
+            Px = K/L
+            mu = np.mean(sel_symbs)
+            #dif = sel_symbs-mu
+            sigma = np.sqrt(np.sum(abs(sel_symbs-mu)**2)/K)
+            N0 += abs(sigma)**2*Px
+            in_pow += abs(mu)**2*Px
     snr = in_pow/N0
     return snr, in_pow, N0
 
-- 
2.43.0


From 118dd1da50af296d3f6f0815d38c7ebaea82442a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:11 +0000
Subject: [PATCH 03/91] fix: det_symbol decides on the nearest symbol however
 far the sample is

---
 qampy/core/equalisation/pythran_equalisation.py | 10 +++++-----
 qampy/core/pythran_dsp.py                       |  5 +++--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/qampy/core/equalisation/pythran_equalisation.py b/qampy/core/equalisation/pythran_equalisation.py
index 348fbf6..0aefa7e 100644
--- a/qampy/core/equalisation/pythran_equalisation.py
+++ b/qampy/core/equalisation/pythran_equalisation.py
@@ -255,9 +255,9 @@ def det_symbol(X, symbs):
     d : float
         distance of X from s
     """
-    d0 = 1000.
-    s = symbs.dtype.type(1)
-    for j in range(symbs.shape[0]):
+    s = symbs[0]
+    d0 = abs(X-s)**2
+    for j in range(1, symbs.shape[0]):
         d = abs(X-symbs[j])**2
         if d < d0:
             d0 = d
@@ -285,8 +285,8 @@ def det_symbol_parallel(X, symbs): # this version can be much faster if not in a
     d : float
          distance of X from s
     """
-    d0 = 1000.
-    s = symbs.dtype.type(1)
+    s = symbs[0]
+    d0 = abs(X-s)**2
     d0_priv = d0
     s_priv = s
     ##omp parallel for
diff --git a/qampy/core/pythran_dsp.py b/qampy/core/pythran_dsp.py
index ca5d06b..10d52c2 100644
--- a/qampy/core/pythran_dsp.py
+++ b/qampy/core/pythran_dsp.py
@@ -14,8 +14,9 @@ def cal_exp_sum(sym , syms, z, sigma):
 
 #we need to use this version because of #1133 which made argmin significantly slower
 def det_symbol(X, symbs):
-    d0 = 1000.
-    for j in range(symbs.shape[0]):
+    s = symbs[0]
+    d0 = cabsq(X-s)
+    for j in range(1, symbs.shape[0]):
         d = cabsq(X-symbs[j])
         if d < d0:
             d0 = d
-- 
2.43.0


From 156c20fa3c94880002ebdb658094a2f47ab7928e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:11 +0000
Subject: [PATCH 04/91] fix: method sgncma uses the sign-CMA error function

---
 qampy/core/equalisation/pythran_equalisation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qampy/core/equalisation/pythran_equalisation.py b/qampy/core/equalisation/pythran_equalisation.py
index 0aefa7e..92d4326 100644
--- a/qampy/core/equalisation/pythran_equalisation.py
+++ b/qampy/core/equalisation/pythran_equalisation.py
@@ -131,7 +131,7 @@ def train_equaliser(E, TrSyms, Niter, os, mu, wx, modes, adaptive, symbols,  met
     if method == "mcma":
         errorfct = mcma_error
     elif method == "sgncma":
-        errorfct = cma_error
+        errorfct = sgncma_error
     elif method == "cma2":
         errorfct = cma2_error
     elif method == "cma":
@@ -184,8 +184,9 @@ def cma2_error(Xest, s1, i):
     return d*Xest
 
 def sgncma_error(Xest, s1, i):
-    d = np.sign(s1[0] - abs(Xest)**2)
-    return d*(np.sign(Xest.real)+1j*np.sign(Xest.imag))
+    J = Xest.dtype.type(1j)
+    d = np.sign(s1[0].real - abs(Xest)**2)
+    return d*np.sign(Xest.real) + d*np.sign(Xest.imag)*J
 
 def mcma_error(Xest, s1, i):
     J = Xest.dtype.type(1j)
-- 
2.43.0


From faa10a09aaf27f191389e14f473ae8bd4b95e63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:45 +0000
Subject: [PATCH 05/91] fix: make_prbs_intXOR passes the register length to
 prbs_int

---
 qampy/core/prbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/prbs.py b/qampy/core/prbs.py
index acfb793..5f4ac5b 100644
--- a/qampy/core/prbs.py
+++ b/qampy/core/prbs.py
@@ -91,6 +91,6 @@ def make_prbs_intXOR(order, nbits, seed=None):
             seed = utils.bool2bin(seed)
         except TypeError:
             seed = seed
-    out = prbs_int(seed, masks[order], nbits)
+    out = prbs_int(seed, masks[order], order, int(nbits))
     return out.astype(bool)
 
-- 
2.43.0


From 350aeaa4375f0d59be16dc86a86728eed692dcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:45 +0000
Subject: [PATCH 06/91] fix: PRBSBits picks seeds for the modes that have none,
 and never the all-zero state

---
 qampy/signals.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index ad0ed49..46b0d42 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -112,22 +112,23 @@ class PRBSBits(np.ndarray):
             tuple of ints for the PRBS order per mode
     """
     def __new__(cls, N, nmodes=1, seed=[None, None], order=[15, 23]):
-        if len(order) < nmodes:
+        if len(order) < nmodes or len(seed) < nmodes:
             warnings.warn("PRBSorder is not given for all dimensions, picking random orders and seeds")
             order_n = []
             seed_n = []
             orders = [15, 23]
             for i in range(nmodes):
                 try:
-                    order_n.append(order[i])
-                    seed_n.append(seed[i])
+                    o = order[i]
+                    s = seed[i]
                 except IndexError:
-                    o = np.random.choice(orders)
-                    order_n.append(o)
-                    s = np.random.randint(0, 2 ** o)
-                    seed_n.append(s)
-                order = order_n
-                seed = seed_n
+                    if i >= len(order):
+                        o = np.random.choice(orders)
+                    s = np.random.randint(1, 2 ** o) # the register never leaves the all-zero state
+                order_n.append(o)
+                seed_n.append(s)
+            order = order_n
+            seed = seed_n
         bits = np.empty((nmodes, N), dtype=bool)
         for i in range(nmodes):
             bits[i][:] = make_prbs_extXOR(order[i], N, seed[i])
-- 
2.43.0


From 73dec77d418c9784f69ce998a6db936b705abc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:45 +0000
Subject: [PATCH 07/91] fix: SymbolOnlySignal applies dtype to the samples as
 well

---
 qampy/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index 46b0d42..45deee4 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1050,7 +1050,7 @@ class SymbolOnlySignal(SignalQAMGrayCoded):
             coded_symbols = symbols
         else:
             coded_symbols = symbols.astype(dtype)
-        obj = np.random.choice(symbols, (nmodes, N))
+        obj = np.random.choice(coded_symbols, (nmodes, N))
         obj = obj.view(cls)
         obj._coded_symbols = coded_symbols
         obj._M = M
-- 
2.43.0


From 64a96af61c160423698e8b93064a4cd9ae807bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 08/91] fix: adjust_data_length extends correctly for offsets
 that are negative or a multiple of the length

---
 qampy/core/ber_functions.py | 37 ++++++-------------------------------
 1 file changed, 6 insertions(+), 31 deletions(-)

diff --git a/qampy/core/ber_functions.py b/qampy/core/ber_functions.py
index d8e6e1d..e2c3ffd 100644
--- a/qampy/core/ber_functions.py
+++ b/qampy/core/ber_functions.py
@@ -269,12 +269,7 @@ def adjust_data_length(data_tx, data_rx, method=None, offset=0):
         if len(data_tx) > len(data_rx):
             return data_tx[:len(data_rx)], data_rx
         elif len(data_tx) < len(data_rx):
-            if offset == 0:
-                data_tx = _adjust_to(data_tx, data_rx.shape[0])
-            else:
-                data_tx1 = _adjust_to(data_tx, offset, back=False)
-                data_tx2 = _adjust_to(data_tx, data_rx.shape[0]-offset)
-                data_tx = np.hstack([data_tx1, data_tx2])
+            data_tx = _extend(data_tx, data_rx.shape[0], offset)
             return data_tx, data_rx
         else:
             return data_tx, data_rx
@@ -287,37 +282,17 @@ def adjust_data_length(data_tx, data_rx, method=None, offset=0):
             return data_tx, data_rx
     elif method == "extend":
         if len(data_tx) > len(data_rx):
-            if offset == 0:
-                data_rx = _adjust_to(data_rx, data_tx.shape[0])
-            else:
-                data_rx1 = _adjust_to(data_rx, offset, back=False)
-                data_rx2 = _adjust_to(data_rx, data_tx.shape[0]-data_rx1.shape[0])
-                data_rx = np.hstack([data_rx1, data_rx2])
+            data_rx = _extend(data_rx, data_tx.shape[0], offset)
             return data_tx, data_rx
         elif len(data_tx) < len(data_rx):
-            if offset == 0:
-                data_tx = _adjust_to(data_tx, data_rx.shape[0])
-            else:
-                data_tx1 = _adjust_to(data_tx, offset, back=False)
-                data_tx2 = _adjust_to(data_tx, data_rx.shape[0]-data_tx1.shape[0])
-                data_tx = np.hstack([data_tx1, data_tx2])
+            data_tx = _extend(data_tx, data_rx.shape[0], offset)
             return data_tx, data_rx
         else:
             return data_tx, data_rx
 
-def _adjust_to(data, N, back=True):
-    L = data.shape[0]
-    K = N//L
-    rem = N%L
-    try:
-        tmp = np.hstack([data for i in range(K)])
-    except ValueError:
-        tmp = np.array([], dtype=data.dtype)
-    if back:
-        data = np.hstack([tmp, data[:rem]])
-    else:
-        data = np.hstack([data[-rem:], tmp])
-    return data
+def _extend(data, N, offset=0):
+    # periodically extend data to length N such that its start sits at offset
+    return data[(np.arange(N) - offset) % data.shape[0]]
 
 def cal_ber_syncd(data_rx, data_tx, threshold=0.2):
     """Calculate the bit-error rate (BER) between two synchronised binary data
-- 
2.43.0


From 16d1efc403a3fd4b0ad5d3c80748283ef183936e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 09/91] fix: sync_rx2tx/sync_tx2rx raise DataSyncError instead
 of matching the empty end of the data

---
 qampy/core/ber_functions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qampy/core/ber_functions.py b/qampy/core/ber_functions.py
index e2c3ffd..a809693 100644
--- a/qampy/core/ber_functions.py
+++ b/qampy/core/ber_functions.py
@@ -192,6 +192,8 @@ def sync_rx2tx(data_tx, data_rx, Lsync, imax=200):
     for i in np.arange(imax)*Lsync:
         try:
             sequence = data_rx[i:i + Lsync]
+            if len(sequence) < Lsync: # no complete sequence left to search for
+                break
             idx_offs = utils.find_offset(sequence, data_tx)
             idx_offs = idx_offs - i
             data_rx_synced = np.roll(data_rx, idx_offs)
@@ -232,6 +234,8 @@ def sync_tx2rx(data_tx, data_rx, Lsync, imax=200):
     for i in np.arange(imax)*Lsync:
         try:
             sequence = data_rx[i:i + Lsync]
+            if len(sequence) < Lsync: # no complete sequence left to search for
+                break
             idx_offs = utils.find_offset(sequence, data_tx)
             idx_offs = idx_offs - i
             data_tx_synced = np.roll(data_tx, -idx_offs)
-- 
2.43.0


From 413c561ccc86445a669b99d228c625598d32ba5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 10/91] fix: find_offset only matches at item boundaries

---
 qampy/core/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qampy/core/utils.py b/qampy/core/utils.py
index 502f341..28d2d07 100644
--- a/qampy/core/utils.py
+++ b/qampy/core/utils.py
@@ -150,7 +150,12 @@ def find_offset(sequence, data):
         data = data.astype(sequence.dtype)
     # using this string conversion method is much faster than array methods,
     # however it only finds the first occurence
-    return data.tostring().index(sequence.tostring()) // data.itemsize
+    dbytes = data.tobytes()
+    sbytes = sequence.tobytes()
+    idx = dbytes.index(sbytes)
+    while idx % data.itemsize: # a match in the middle of an item is not a match
+        idx = dbytes.index(sbytes, idx + 1)
+    return idx // data.itemsize
 
 
 def rolling_window(data, size, wrap=False):
-- 
2.43.0


From 9969fd419564ce9f02aec8288dc7f02b88647859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:44 +0000
Subject: [PATCH 11/91] fix: get_data and extract_pilots select exactly the
 requested frames and their symbols

---
 qampy/signals.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index 45deee4..af084cd 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1771,16 +1771,18 @@ class SignalWithPilots(SignalBase):
             nframes = self.nframes
         else:
             frames = np.atleast_1d(frames)
-            nframes = np.max(frames)
+            nframes = np.max(frames) + 1
             assert nframes <= self.nframes, "Signal object only contains {} frames can't extract more".format(self.nframes)
-        #idx = np.hstack([np.nonzero(self._idx_dat)[0] + i * self._frame_len for i in frames] )
         if nframes < 1:
             idx = self._idx_dat[:self.shape[-1]]
-        else:
-            idx = np.zeros(self.frame_len*nframes, dtype=bool)
-            for i in frames:
-                idx[i*self.frame_len:(i+1)*self.frame_len] = self._idx_dat
-        return self.symbols.recreate_from_np_array(self[:, idx].copy()) # better save to make copy here
+            return self.symbols.recreate_from_np_array(self[:, idx].copy()) # better save to make copy here
+        idx = np.hstack([np.nonzero(self._idx_dat)[0] + i * self.frame_len for i in frames])
+        data = self.symbols.recreate_from_np_array(self[:, idx].copy()) # better save to make copy here
+        ndat = np.count_nonzero(self._idx_dat)
+        symbols_tx = getattr(data, "_symbols", None)
+        if symbols_tx is not None and symbols_tx.shape[-1] > ndat: # every frame has its own data
+            data._symbols = symbols_tx[:, np.hstack([np.arange(ndat) + i * ndat for i in frames])]
+        return data
 
     def extract_pilots(self, frames=None):
         """
@@ -1800,7 +1802,7 @@ class SignalWithPilots(SignalBase):
             frames = np.arange(self.nframes)
         else:
             frames = np.atleast_1d(frames)
-            nframes = np.max(frames)
+            nframes = np.max(frames) + 1
             assert nframes <= self.nframes, "Signal object only contains {} frames can't extract more".format(self.nframes)
         idx = np.hstack([np.nonzero(self._idx_pil)[0] + i * self._frame_len for i in frames] )
         return self.pilots.recreate_from_np_array(self[:, idx])
-- 
2.43.0


From 076c39802dcbad6342640977114883d982f94a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:44 +0000
Subject: [PATCH 12/91] fix: SignalWithPilots.cal_gmi converts the pilot SNR to
 dB

---
 qampy/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index af084cd..e7b798c 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1917,7 +1917,7 @@ class SignalWithPilots(SignalBase):
         if signal_rx is None:
             signal_rx = self.get_data(frames=frames)
         if use_pilot_snr:
-            snr = self.est_snr(use_pilots=True)
+            snr = 10*np.log10(self.est_snr(use_pilots=True)) # cal_gmi expects the SNR in dB
         return signal_rx.cal_gmi(synced=synced, snr=snr)
 
     def est_snr(self, frames=None, synced=True, signal_rx=None, symbols_tx=None, use_pilots=False):
-- 
2.43.0


From 74395dcd81f04e2499f57fa6ae51c9bcbe8d003a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:44 +0000
Subject: [PATCH 13/91] fix: SignalWithPilots.from_symbol_array does not modify
 its default payload_kwargs

---
 qampy/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index e7b798c..33f4673 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1605,7 +1605,7 @@ class SignalWithPilots(SignalBase):
         if "M" in kwargs:
             assert "M" not in payload_kwargs, "M can not be provided as a argument for payload and signal"
             M = kwargs.pop("M")
-            payload_kwargs["M"] = M
+            payload_kwargs = dict(payload_kwargs, M=M)
         if np.count_nonzero(idx_dat) > N:
             warnings.warn("Data for frame is shorter than length of data array, truncating")
         if payload_is_frame:
-- 
2.43.0


From 67ca234fedb3e3e6e581e2158d6dead795773e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:44 +0000
Subject: [PATCH 14/91] fix: SignalWithPilots.from_symbol_array uses boolean
 masks for given pilot indices

---
 qampy/signals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index 33f4673..d0fad21 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1599,8 +1599,8 @@ class SignalWithPilots(SignalBase):
             idx = np.arange(frame_len)
             pidx = np.zeros(idx.shape, dtype=bool)
             pidx[pilot_idx] = True
-            idx_pil = idx[pidx]
-            idx_dat = idx[~pidx]
+            idx_pil = pidx
+            idx_dat = ~pidx
         assert np.count_nonzero(idx_dat) <= N, "data frame is to short for the given frame length"
         if "M" in kwargs:
             assert "M" not in payload_kwargs, "M can not be provided as a argument for payload and signal"
-- 
2.43.0


From 225e9ff4e79e7a57b45c95851ddf2813bdb599fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:44 +0000
Subject: [PATCH 15/91] fix: TDHQAMSymbols.from_symbol_arrays truncates to
 complete frames and leaves its input alone

---
 qampy/signals.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index d0fad21..b816df9 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1344,7 +1344,7 @@ class TDHQAMSymbols(SignalBase):
         assert syms_M1.shape[0] == syms_M2.shape[0], "Number of modes must be the same"
         f_M, f_M1, f_M2 = cls._cal_fractions(fr)
         scale = cls.calculate_power_ratio(syms_M1.coded_symbols, syms_M2.coded_symbols, power_method)
-        syms_M2 /= np.sqrt(scale)
+        syms_M2 = syms_M2 / np.sqrt(scale)
         N1 = syms_M1.shape[1]
         N2 = syms_M2.shape[1]
         N = N1 + N2
@@ -1353,6 +1353,8 @@ class TDHQAMSymbols(SignalBase):
             warnings.warn("Need to truncate input arrays as ratio is not possible otherwise")
             nframes = min(N1 // f_M1, N2 // f_M2)
         N = nframes * f_M
+        syms_M1 = syms_M1[:, :nframes * f_M1]
+        syms_M2 = syms_M2[:, :nframes * f_M2]
         out = np.zeros((syms_M1.shape[0], N), dtype=syms_M1.dtype)
         idx, idx1, idx2 = cls._cal_symbol_idx(N, f_M, f_M1)
         out[:, idx1] = syms_M1
-- 
2.43.0


From ac36f4a84798d1d82224e8a7c6fdaa0330ac66b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:44 +0000
Subject: [PATCH 16/91] fix: TDHQAMSymbols keeps its power method and can be
 resampled

---
 qampy/signals.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index b816df9..ff572c0 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -239,7 +239,8 @@ class SignalBase(np.ndarray):
 
     def resample(self, fnew, **kwargs):
         out = self._resample_array(self, fnew, self.fs, self.fb, **kwargs)
-        out._symbols = self._symbols.copy()
+        if hasattr(self, "_symbols"): # TDHQAMSymbols does not have this
+            out._symbols = self._symbols.copy()
         out._fs = fnew
         return out
 
@@ -1228,7 +1229,7 @@ class TDHQAMSymbols(SignalBase):
     fs : float
         sampling rate
     """
-    _inheritattr_ = ["_symbols_M1", "_symbols_M2", "_fr", "_powratio" ]
+    _inheritattr_ = ["_symbols_M1", "_symbols_M2", "_fr", "_powratio", "_power_method"]
 
     def __new__(cls, M, N, fr=0.5, power_method="dist",
                 M1class=SignalQAMGrayCoded, M2class=SignalQAMGrayCoded, **kwargs):
-- 
2.43.0


From 20c782cd3cafe0234579137fc929939e812bf5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 17/91] fix: cal_ber_nosyncd synchronises instead of using an
 undefined name

---
 qampy/core/ber_functions.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/qampy/core/ber_functions.py b/qampy/core/ber_functions.py
index a809693..0d5e05e 100644
--- a/qampy/core/ber_functions.py
+++ b/qampy/core/ber_functions.py
@@ -362,12 +362,9 @@ def cal_ber_nosyncd(data_rx, data_tx):
     N : int
         length of data
     """
-    try:
-        idx = find_sequence_offset(data_tx, data_rx)
-    except DataSyncError:
-        # if we cannot sync try to use inverted data
-        idx = find_sequence_offset(~data_tx, data_rx)
-    data_tx_sync = adjust_data_length(data_tx_sync, data_rx)
-    #TODO this still returns a slightly smaller value, as if there would be
-    # one less error, maybe this happens in the adjust_data_length
+    # correlate bipolar sequences so that inverted data gives a negative peak
+    idx, ac = find_sequence_offset(2.*data_rx - 1, 2.*data_tx - 1, show_cc=True)
+    data_tx_sync, data_rx = adjust_data_length(np.roll(data_tx, idx), data_rx)
+    if ac[abs(ac).argmax()] < 0:
+        data_tx_sync = ~data_tx_sync
     return cal_ber_syncd(data_rx, data_tx_sync)
-- 
2.43.0


From c068402e8f5adfa14127a517987db22dfffa0254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:45 +0000
Subject: [PATCH 18/91] fix: linspacestep returns exactly N values

---
 qampy/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/utils.py b/qampy/core/utils.py
index 28d2d07..13a514b 100644
--- a/qampy/core/utils.py
+++ b/qampy/core/utils.py
@@ -50,7 +50,7 @@ def linspacestep(start, step, N):
     out : array_like
         array of length N from start to start+N*step (not included)
     """
-    return np.arange(start, start + N * step, step=step)
+    return start + step * np.arange(N)
 
 
 def lfsr_int(seed, mask):
-- 
2.43.0


From 70ff2921aca5e86c92978f56069db362c2dbe915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:45 +0000
Subject: [PATCH 19/91] fix: rolling_window wraps along the last axis and stays
 within the data

---
 qampy/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/utils.py b/qampy/core/utils.py
index 13a514b..ee342e5 100644
--- a/qampy/core/utils.py
+++ b/qampy/core/utils.py
@@ -190,7 +190,7 @@ def rolling_window(data, size, wrap=False):
     if wrap:
         dt = size - 1
         shape = data.shape[:-1] + (data.shape[-1], size)
-        data = np.hstack([data, data[:dt]])
+        data = np.take(data, np.arange(data.shape[-1] + dt), axis=-1, mode="wrap")
     else:
         shape = data.shape[:-1] + (data.shape[-1] - size + 1, size)
     strides = data.strides + (data.strides[-1], )
-- 
2.43.0


From 1a9e96465e8b90a01fbdce654f3c51ed328375b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:45 +0000
Subject: [PATCH 20/91] fix: convert_iqtosinglebitstream interleaves per symbol
 instead of failing on float shapes

---
 qampy/core/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qampy/core/utils.py b/qampy/core/utils.py
index ee342e5..7a00a4b 100644
--- a/qampy/core/utils.py
+++ b/qampy/core/utils.py
@@ -227,8 +227,8 @@ def convert_iqtosinglebitstream(idat, qdat, nbits):
     else:
         N = [nbits//2, nbits//2]
     idat_n = idat[:len(idat)-(len(idat)%N[0])]
-    idat_n = idat_n.reshape(N[0], len(idat_n)/N[0])
+    idat_n = idat_n.reshape(-1, N[0])
     qdat_n = qdat[:len(qdat)-(len(qdat)%N[1])]
-    qdat_n = qdat_n.reshape(N[1], len(qdat_n)/N[1])
-    l = min(len(idat_n[0]), len(qdat_n[0]))
+    qdat_n = qdat_n.reshape(-1, N[1])
+    l = min(len(idat_n), len(qdat_n))
     return np.hstack([idat_n[:l], qdat_n[:l]]).flatten()
-- 
2.43.0


From f6baad61528690954275946080af28d9bb0efea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 21/91] fix: synchronisation rotates the received instead of
 the transmitted symbols

---
 qampy/core/ber_functions.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/qampy/core/ber_functions.py b/qampy/core/ber_functions.py
index 0d5e05e..3c4f80b 100644
--- a/qampy/core/ber_functions.py
+++ b/qampy/core/ber_functions.py
@@ -105,6 +105,14 @@ def find_sequence_offset_complex(x, y):
             acm = act
     return ix, y * 1.j ** ii, ii, acm
 
+def _find_offset_rotate_rx(data_tx, data_rx):
+    # offset of data_tx in data_rx, and data_rx rotated to match data_tx. We must not rotate data_tx, because the
+    # rotated symbols are in general not part of the alphabet and the mapping to bits is not invariant to rotation
+    offset, tx, ii, acm = find_sequence_offset_complex(data_rx, data_tx)
+    if ii > 0:
+        data_rx = data_rx * 1.j ** (4 - ii)
+    return offset, data_rx, acm
+
 def sync_and_adjust(data_tx, data_rx, adjust="tx"):
     """
     Synchronize and adjust length of received and transmitted data sequence. When the length
@@ -136,17 +144,17 @@ def sync_and_adjust(data_tx, data_rx, adjust="tx"):
     assert adjust == "tx" or adjust == "rx", "adjust need to be either 'tx' or 'rx'"
     if N_tx > N_rx:
         if adjust == "tx":
-            offset, tx, ii, acm = find_sequence_offset_complex(data_rx, data_tx)
-            tx = np.roll(tx, offset)
-            return adjust_data_length(tx, data_rx, method="truncate"), acm
+            offset, rx, acm = _find_offset_rotate_rx(data_tx, data_rx)
+            tx = np.roll(data_tx, offset)
+            return adjust_data_length(tx, rx, method="truncate"), acm
         elif adjust == "rx":
             offset, rx, ii, acm = find_sequence_offset_complex(data_tx, data_rx)
             tx, rx = adjust_data_length(data_tx, rx, method="extend", offset=offset)
             return (tx, rx), acm
     elif N_tx < N_rx:
         if adjust == "tx":
-            offset, tx, ii, acm = find_sequence_offset_complex(data_rx, data_tx)
-            tx, rx = adjust_data_length(tx, data_rx, method="extend", offset=offset)
+            offset, rx, acm = _find_offset_rotate_rx(data_tx, data_rx)
+            tx, rx = adjust_data_length(data_tx, rx, method="extend", offset=offset)
             return (tx, rx), acm
         elif adjust == "rx":
             offset, rx, ii, acm  = find_sequence_offset_complex(data_tx, data_rx)
@@ -154,8 +162,8 @@ def sync_and_adjust(data_tx, data_rx, adjust="tx"):
             return adjust_data_length(data_tx, rx, method="truncate"), acm
     else:
         if adjust == "tx":
-            offset, tx, ii, acm = find_sequence_offset_complex(data_rx, data_tx)
-            return (np.roll(tx, offset), data_rx), acm
+            offset, rx, acm = _find_offset_rotate_rx(data_tx, data_rx)
+            return (np.roll(data_tx, offset), rx), acm
         elif adjust == "rx":
             offset, rx, ii, acm = find_sequence_offset_complex(data_tx, data_rx)
             return (data_tx, np.roll(rx, offset)), acm
-- 
2.43.0


From 5af65fc8f56609d94d74f76a21adeb049617f64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:39 +0000
Subject: [PATCH 22/91] fix: add_dispersion does not shift the modes

---
 qampy/core/impairments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/impairments.py b/qampy/core/impairments.py
index 4a325e8..06159c5 100644
--- a/qampy/core/impairments.py
+++ b/qampy/core/impairments.py
@@ -698,6 +698,6 @@ def add_dispersion(sig, fs, D, L, wl0=1550e-9):
     beta2 = D * wl0**2 / (C*np.pi*2)
     H = np.exp(-0.5j * omega**2 * beta2 * L).astype(sig.dtype)
     sff = fft.fft(fft.ifftshift(sig, axes=-1), axis=-1)
-    sig_out = fft.fftshift(fft.ifft(sff*H))
+    sig_out = fft.fftshift(fft.ifft(sff*H), axes=-1)
     return sig_out
 
-- 
2.43.0


From 09b36ae6c9917325fa270d85ee2016e3f57860c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:39 +0000
Subject: [PATCH 23/91] fix: simulate_transmission uses its dispersion argument

---
 qampy/impairments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/impairments.py b/qampy/impairments.py
index b4543ab..5677b29 100644
--- a/qampy/impairments.py
+++ b/qampy/impairments.py
@@ -165,7 +165,7 @@ def simulate_transmission(sig, snr=None, freq_off=None, lwdth=None, dgd=None, th
     if modal_delay is not None:
         sig = add_modal_delay(sig, modal_delay)
     if dispersion is not None:
-        sig = add_dispersion(sig, D, 1)
+        sig = add_dispersion(sig, dispersion, 1)
     if dgd is not None:
         sig = apply_PMD(sig, theta, dgd)
     return sig
-- 
2.43.0


From 25b885ee6db235e70b4a0e6fe5afdd967e2923e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:39 +0000
Subject: [PATCH 24/91] fix: quantize_signal does not rescale its input in
 place

---
 qampy/core/impairments.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qampy/core/impairments.py b/qampy/core/impairments.py
index 06159c5..06410e5 100644
--- a/qampy/core/impairments.py
+++ b/qampy/core/impairments.py
@@ -347,6 +347,7 @@ def quantize_signal(sig, nbits=6, rescale=True, re_normalize=True):
 
     # Rescale to
     if rescale:
+        sig = sig.copy() # do not change the input
         for pol in range(npols):
             sig[pol] /= np.abs(sig[pol]).max()
 
-- 
2.43.0


From 2347846e9f34bc743159d32450cc6560c9fe05a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:39 +0000
Subject: [PATCH 25/91] fix: quantize_signal_New quantizes the signal also when
 it is not rescaled

---
 qampy/core/impairments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/impairments.py b/qampy/core/impairments.py
index 06410e5..299fb9c 100644
--- a/qampy/core/impairments.py
+++ b/qampy/core/impairments.py
@@ -388,7 +388,7 @@ def quantize_signal_New(sig_in, nbits=6, rescale_in=True, rescale_out=True):
     npols = sig_in.shape[0]
 
     # Rescale to
-    sig = np.zeros((npols, sig_in.shape[1]), dtype=sig_in.dtype)
+    sig = sig_in
     if rescale_in:
         sig = rescale_signal(sig_in, swing=1)
 
-- 
2.43.0


From a6490da007014f25129171ea9545c378fbcbfc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:39 +0000
Subject: [PATCH 26/91] fix: apply_DAC_filter can apply a measured response

---
 qampy/core/impairments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qampy/core/impairments.py b/qampy/core/impairments.py
index 299fb9c..79333b6 100644
--- a/qampy/core/impairments.py
+++ b/qampy/core/impairments.py
@@ -544,9 +544,9 @@ def apply_DAC_filter(sig, fs, cutoff=18e9, fn=None, ch=1):
     if fn is None:
         filter_sig = filter_signal(sig, fs, cutoff, ftype="bessel", order=2)
     else:
-        H_dac = load_dac_response(fn, fs, sig.shape[-1], ch=ch).astype(sig) # should check if response is real
+        H_dac = load_dac_response(fn, fs, sig.shape[-1], ch=ch)
         sigf = fft.fft(sig)
-        filter_sig = fft.ifft(sigf * H_dac)
+        filter_sig = fft.ifft(sigf * H_dac).astype(sig.dtype) # should check if response is real
     return filter_sig
 
 def apply_enob_as_awgn(sig, enob, verbose=False):
-- 
2.43.0


From 2b974e406e613ba14fa46e152677e067ea69abee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:39 +0000
Subject: [PATCH 27/91] fix: apply_PMD_to_field uses the correct frequencies
 for odd lengths

---
 qampy/core/impairments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/impairments.py b/qampy/core/impairments.py
index 79333b6..6c93570 100644
--- a/qampy/core/impairments.py
+++ b/qampy/core/impairments.py
@@ -127,7 +127,7 @@ def apply_PMD_to_field(field, theta, t_dgd, fs):
     out  : array_like
        new dual polarisation field with PMD
     """
-    omega = 2*np.pi*np.linspace(-fs/2, fs/2, field.shape[1], endpoint=False)
+    omega = 2*np.pi*fft.fftshift(fft.fftfreq(field.shape[1], 1/fs))
     return _applyPMD_dot(field, theta, t_dgd, omega)
 
 def phase_noise(sz, df, fs):
-- 
2.43.0


From 4cf235295c27d008770b993575e76eed33aad695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 28/91] fix: pre_filter_wdm uses an undefined name

---
 qampy/core/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/filter.py b/qampy/core/filter.py
index 2178ab4..f737c2b 100644
--- a/qampy/core/filter.py
+++ b/qampy/core/filter.py
@@ -72,7 +72,7 @@ def pre_filter_wdm(signal, bw, os,center_freq = 0):
     """
     # Prepare signal
     N = len(signal)
-    h = np.zeros(N, dtype=sig.real.dtype)
+    h = np.zeros(N, dtype=signal.real.dtype)
     freq_axis = scifft.fftfreq(N, 1 / os)
 
     # Create filter window
-- 
2.43.0


From afacbbc4915c826895e400db2b98f4977c54da40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 29/91] fix: gauss and exp filters neither permute the modes
 nor fail for odd lengths

---
 qampy/core/filter.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/qampy/core/filter.py b/qampy/core/filter.py
index f737c2b..abfc63d 100644
--- a/qampy/core/filter.py
+++ b/qampy/core/filter.py
@@ -108,24 +108,18 @@ def filter_signal(signal, fs, cutoff, ftype="bessel", order=2, analog=False):
     """
     sig = np.atleast_2d(signal)
     if ftype == "gauss":
-        f = np.linspace(-fs/2, fs/2, sig.shape[1], endpoint=False, dtype=sig.dtype)
+        f = scifft.fftfreq(sig.shape[1], 1/fs).astype(sig.dtype)
         w = cutoff/(2*np.sqrt(2*np.log(2))) # might need to add a factor of 2 here do we want FWHM or HWHM?
         g = np.exp(-f**2/(2*w**2))
-        fsignal = scifft.fftshift(scifft.fft(scifft.fftshift(sig, axes=-1), axis=-1), axes=-1) * g
-        if signal.ndim == 1:
-            return scifft.fftshift(scifft.ifft(scifft.fftshift(fsignal))).flatten()
-        else:
-            return scifft.fftshift(scifft.ifft(scifft.fftshift(fsignal)))
+        sig2 = scifft.ifft(scifft.fft(sig, axis=-1) * g, axis=-1)
+        return sig2.flatten() if signal.ndim == 1 else sig2
     if ftype == "exp":
-        f = np.linspace(-fs/2, fs/2, sig.shape[1], endpoint=False, dtype=sig.dtype)
+        f = scifft.fftfreq(sig.shape[1], 1/fs).astype(sig.dtype)
         w = cutoff/(np.sqrt(2*np.log(2)**2)) # might need to add a factor of 2 here do we want FWHM or HWHM?
         g = np.exp(-np.sqrt((f**2/(2*w**2))))
         g /= g.max()
-        fsignal = scifft.fftshift(scifft.fft(scifft.fftshift(signal))) * g
-        if signal.ndim == 1:
-            return scifft.fftshift(scifft.ifft(scifft.fftshift(fsignal))).flatten()
-        else:
-            return scifft.fftshift(scifft.ifft(scifft.fftshift(fsignal)))
+        sig2 = scifft.ifft(scifft.fft(sig, axis=-1) * g, axis=-1)
+        return sig2.flatten() if signal.ndim == 1 else sig2
     Wn = cutoff*2*np.pi if analog else cutoff
     frmt = "ba" if analog else "sos"
     fs_in = None if analog else fs
-- 
2.43.0


From 197bd1137e6b33953be5c05c3accfa62c51cbfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 30/91] fix: spectral rrcos pulseshaping works for several
 modes

---
 qampy/core/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/filter.py b/qampy/core/filter.py
index abfc63d..fd582f5 100644
--- a/qampy/core/filter.py
+++ b/qampy/core/filter.py
@@ -161,7 +161,7 @@ def _rrcos_pulseshaping_freq(sig, fs, T, beta):
     sign_out : array_like
         filtered signal in time domain
     """
-    f = scifft.fftfreq(sig.shape[0])*fs
+    f = scifft.fftfreq(sig.shape[-1])*fs
     nyq_fil = rrcos_freq(f, beta, T)
     nyq_fil /= nyq_fil.max()
     sig_f = scifft.fft(sig)
-- 
2.43.0


From 1fc6ddf5a006c6a977b74a5630ee4e3ef89b3619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 31/91] fix: rrcos_pulseshaping uses the symbol period as
 default width

---
 qampy/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/filtering.py b/qampy/filtering.py
index 4bcfd19..bb207a5 100644
--- a/qampy/filtering.py
+++ b/qampy/filtering.py
@@ -112,7 +112,7 @@ def rrcos_pulseshaping(sig, beta, T=None):
         filtered signal in time domain
     """
     if T is None:
-        T = sig.fb
+        T = 1/sig.fb
     sig_out = core.filter.rrcos_pulseshaping(sig, sig.fs, T, beta)
     return sig.recreate_from_np_array(sig_out)
 
-- 
2.43.0


From fef60874448621a47a336d92f90f201185a14075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 32/91] fix: comp_IQ_inbalance does not change its input

---
 qampy/core/analog_frontend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/analog_frontend.py b/qampy/core/analog_frontend.py
index 9454f04..8288b91 100644
--- a/qampy/core/analog_frontend.py
+++ b/qampy/core/analog_frontend.py
@@ -34,7 +34,7 @@ def comp_IQ_inbalance(signal):
     """
     
     # Center signal around a mean of 0
-    signal -= np.mean(signal)
+    signal = signal - np.mean(signal)
     I = signal.real
     Q = signal.imag
 
-- 
2.43.0


From e5bf64de1d6e4a0041cb2d1449309b3345e8495f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 33/91] fix: comp_rf_delay uses the frequencies of the signal

---
 qampy/core/analog_frontend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/analog_frontend.py b/qampy/core/analog_frontend.py
index 8288b91..1fe977e 100644
--- a/qampy/core/analog_frontend.py
+++ b/qampy/core/analog_frontend.py
@@ -75,7 +75,7 @@ def comp_rf_delay(signal, delay, sampling_rate=50e9 ):
 
     sig = np.atleast_2d(signal)
     # Frequency base vector
-    freqVector = np.fft.fftfreq(sig.shape[1], sampling_rate/2)
+    freqVector = np.fft.fftfreq(sig.shape[1], 1/sampling_rate)
     
     # Phase-delayed version
     sig_out = np.empty_like(sig)
-- 
2.43.0


From 303ddc86d909c0e0681b50c309fe023e93939bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 34/91] fix: phase_partition_16qam applies the phase it returns

---
 qampy/core/phaserecovery.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qampy/core/phaserecovery.py b/qampy/core/phaserecovery.py
index 13882ee..7145c99 100644
--- a/qampy/core/phaserecovery.py
+++ b/qampy/core/phaserecovery.py
@@ -377,9 +377,9 @@ def phase_partition_16qam(E, Nblock):
         ph_out.append(np.unwrap(phi_est) / 4 - np.pi / 4)
     phi_out = np.asarray(ph_out)
     if E.ndim == 1:
-        return (E2d * np.exp(-1.j * phi_est)).flatten(), phi_out.flatten()
+        return (E2d * np.exp(-1.j * phi_out)).flatten(), phi_out.flatten()
     else:
-        return E2d * np.exp(-1.j * phi_est), phi_out
+        return E2d * np.exp(-1.j * phi_out), phi_out
 
 
 def find_freq_offset(sig, os=1, average_over_modes = True, fft_size = 2**16):
-- 
2.43.0


From e16e3cc8b50e07b8d22d12dd198795dae49e3277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 35/91] fix: viterbiviterbi returns the phases of all modes

---
 qampy/core/phaserecovery.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qampy/core/phaserecovery.py b/qampy/core/phaserecovery.py
index 7145c99..8a40711 100644
--- a/qampy/core/phaserecovery.py
+++ b/qampy/core/phaserecovery.py
@@ -57,6 +57,7 @@ def viterbiviterbi(E, N, M):
     """
     E2d = np.atleast_2d(E)
     Eout = np.zeros_like(E2d)
+    phases = []
     L = E2d.shape[1]
     for i in range(E2d.shape[0]):
         Et = E2d[i]
@@ -67,6 +68,7 @@ def viterbiviterbi(E, N, M):
         phase_est = np.sum(sa, axis=1)
         phase_est = np.unwrap(np.angle(phase_est))
         phase_est = (phase_est - np.pi)/M
+        phases.append(phase_est)
         if N % 2:
             Eout[i, (N - 1) // 2:L - (N - 1) // 2] = E2d[i, (N - 1) // 2:L - (N - 1) // 2] * np.exp(-1.j*phase_est)
         else:
@@ -76,7 +78,7 @@ def viterbiviterbi(E, N, M):
     if E.ndim == 1:
         return  Eout.flatten(), phase_est.flatten()
     else:
-        return Eout, phase_est
+        return Eout, np.asarray(phases)
 
 def _bps_idx_py(E, angles, symbols, N):
     """
-- 
2.43.0


From 9d0453c50e5d9062717ac4bcf1852c186e3f644e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 36/91] fix: pilot_based_cpe_new uses the pilots of the
 selected blocks in every frame

---
 qampy/core/pilotbased_receiver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/pilotbased_receiver.py b/qampy/core/pilotbased_receiver.py
index e60dc63..b482c65 100644
--- a/qampy/core/pilotbased_receiver.py
+++ b/qampy/core/pilotbased_receiver.py
@@ -308,7 +308,7 @@ def pilot_based_cpe_new(signal, pilot_symbs,  pilot_idx, frame_len, seq_len=None
     ilim = pilot_idx_full < nlen
     pilot_idx_full = pilot_idx_full[ilim]
     rec_pilots = signal[:, pilot_idx_full]
-    pilot_symbs = np.tile(pilot_symbs[:, ::use_pilot_ratio], nframes)[:, :rec_pilots.shape[-1]]
+    pilot_symbs = np.tile(pilot_symbs[:, :max_num_blocks:use_pilot_ratio], nframes)[:, :rec_pilots.shape[-1]]
     assert rec_pilots.shape == pilot_symbs.shape, "Inproper pilot configuration, the number of"\
             +" received pilots differs from reference ones"
     # Check for a out of bounch error
-- 
2.43.0


From 6cba8f51dc974800639987da33290641a8f3db00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 37/91] fix: shift_signal shifts single mode signals in the
 same direction and leaves its input alone

---
 qampy/core/pilotbased_receiver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qampy/core/pilotbased_receiver.py b/qampy/core/pilotbased_receiver.py
index b482c65..2756972 100644
--- a/qampy/core/pilotbased_receiver.py
+++ b/qampy/core/pilotbased_receiver.py
@@ -444,11 +444,12 @@ def correct_shifts(shift_factors, ntaps, os):
 
 def shift_signal(sig, shift_factors):
     k = len(shift_factors)
+    sig = sig.copy()
     if k > 1:
         for i in range(k):
             sig[i] = np.roll(sig[i], -shift_factors[i])
     else:
-        sig = np.roll(sig, shift_factors, axis=-1)
+        sig = np.roll(sig, -shift_factors[0], axis=-1)
     return sig
 
 def equalize_pilot_sequence(rx_signal, ref_symbs, shift_fctrs, os, foe_comp=False, mu=(1e-4, 1e-4), M_pilot=4, Ntaps=45, Niter=30,
-- 
2.43.0


From c7d1edc0dfcf3b6fd83a9077aeafcca4ea713664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 38/91] fix: correct_shifts does not modify the shift factors
 of the caller

---
 qampy/core/pilotbased_receiver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/pilotbased_receiver.py b/qampy/core/pilotbased_receiver.py
index 2756972..d4ec6bb 100644
--- a/qampy/core/pilotbased_receiver.py
+++ b/qampy/core/pilotbased_receiver.py
@@ -435,7 +435,7 @@ def frame_sync(rx_signal, ref_symbs, os, frame_len=2 ** 16, M_pilot=4,
 
 def correct_shifts(shift_factors, ntaps, os):
     # taps cause offset on shift factors
-    shift_factors = np.asarray(shift_factors)
+    shift_factors = np.array(shift_factors)
     if not((ntaps[1]-ntaps[0])%os  ==  0):
         raise ValueError("Taps for search and convergence impropper configured")
     tap_cor = int((ntaps[1]-ntaps[0])/2)
-- 
2.43.0


From 922a58aecbdf19575bca61dda2d82ef39d6254be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 39/91] fix: equalize_pilot_sequence uses the pilot order also
 when the modes are shifted

---
 qampy/core/pilotbased_receiver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/pilotbased_receiver.py b/qampy/core/pilotbased_receiver.py
index d4ec6bb..87dee7d 100644
--- a/qampy/core/pilotbased_receiver.py
+++ b/qampy/core/pilotbased_receiver.py
@@ -540,7 +540,7 @@ def equalize_pilot_sequence(rx_signal, ref_symbs, shift_fctrs, os, foe_comp=Fals
                 rx_sig_mode = phaserecovery.comp_freq_offset(rx_sig_mode, np.ones(foePerMode.shape)*foe, os=os)
             out_taps, err = equalisation.equalise_signal(rx_sig_mode, os, mu[0], M_pilot, wxy=out_taps, Ntaps=Ntaps, Niter=Niter,
                                                                 method=methods[0], adaptive_stepsize=adaptive_stepsize, modes=[i], symbols=ref_symbs, apply=False)
-            out_taps, err = equalisation.equalise_signal(rx_sig_mode, os, mu[1], 4, wxy=out_taps, Ntaps=Ntaps, Niter=Niter,
+            out_taps, err = equalisation.equalise_signal(rx_sig_mode, os, mu[1], M_pilot, wxy=out_taps, Ntaps=Ntaps, Niter=Niter,
                                                          method=methods[1], adaptive_stepsize=adaptive_stepsize, modes=[i], symbols=ref_symbs, apply=False)
     else:
         rx_sig_mode = rx_signal[:, shift_fctrs[0] : shift_fctrs[0] + pilot_seq_len * os + Ntaps - 1]
-- 
2.43.0


From a6a77215e7aaa24cc8aaf336f8a00405a9aaa0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 40/91] fix: pilot_equaliser trains on the requested frame also
 when no tap correction is needed

---
 qampy/equalisation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qampy/equalisation.py b/qampy/equalisation.py
index 209b959..e073db5 100644
--- a/qampy/equalisation.py
+++ b/qampy/equalisation.py
@@ -315,8 +315,10 @@ def pilot_equaliser(signal, mu, Ntaps, apply=True, foe_comp=True, wxinit=None, f
         Ntaps = wxinit.shape[-1]
     if (abs(Ntaps-signal.synctaps) % 2) != 0:
         raise ValueError("Tap difference need to be an integer of the oversampling")
-    elif Ntaps != signal.synctaps:
-        eq_shiftfctrs = eq_shiftfctrs - (Ntaps - signal.synctaps)//2 + signal.os*signal.frame_len*frame
+    eq_shiftfctrs = eq_shiftfctrs - (Ntaps - signal.synctaps)//2
+    if np.min(eq_shiftfctrs) < 0: # the signal starts within the first frame
+        eq_shiftfctrs = eq_shiftfctrs + signal.os*signal.frame_len
+    eq_shiftfctrs = eq_shiftfctrs + signal.os*signal.frame_len*frame
     assert signal.shape[-1] - eq_shiftfctrs.max() > signal.frame_len*signal.os, "You are trying to equalise an incomplete frame which does not work"
     
     taps_all, foe_all = pilotbased_receiver.equalize_pilot_sequence(signal, signal.pilot_seq, eq_shiftfctrs, os=signal.os, mu=mu,
-- 
2.43.0


From cda7f471a96b8a127ecabfb843fff89ba7620359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 41/91] fix: pilot_equaliser returns its results for
 apply=False

---
 qampy/equalisation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qampy/equalisation.py b/qampy/equalisation.py
index e073db5..1ae5c22 100644
--- a/qampy/equalisation.py
+++ b/qampy/equalisation.py
@@ -335,7 +335,7 @@ def pilot_equaliser(signal, mu, Ntaps, apply=True, foe_comp=True, wxinit=None, f
             return taps_all, eq_mode_sig
     else:
         if verbose:
-            taps_all, foe_all, (Ntaps, signal.synctaps)
+            return taps_all, foe_all, (Ntaps, signal.synctaps)
         else:
             return taps_all
         
@@ -386,6 +386,8 @@ def pilot_equaliser_nframes(signal, mu, Ntaps, apply=True, foe_comp=True, frames
     rets= []
     for i in frames:
         ret = pilot_equaliser(signal, mu, Ntaps, apply=apply, foe_comp=foe_comp, wxinit=wxinit, verbose=verbose, frame=i, **eqkwargs)
+        if not (apply or verbose): # only the taps are returned
+            ret = (ret,)
         if i == 0:
             wxinit = ret[0]
         rets.append(ret)
-- 
2.43.0


From 43d1877c84733f022209725ea0a2180336a57c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 42/91] fix: apply_filter does not change the shift factors of
 a pilot signal

---
 qampy/equalisation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/equalisation.py b/qampy/equalisation.py
index 1ae5c22..3a17ff7 100644
--- a/qampy/equalisation.py
+++ b/qampy/equalisation.py
@@ -45,7 +45,7 @@ def _apply_to_pilotsignal(sig, wxy, frames):
     if Ntaps != sig.synctaps:
         shiftfctrs = shiftfctrs - (Ntaps - sig.synctaps)//2
     if np.min(shiftfctrs) < 0:
-        shiftfctrs += sig.os*sig.frame_len
+        shiftfctrs = shiftfctrs + sig.os*sig.frame_len
     assert shiftfctrs.max() + sig.os*sig.frame_len*(max(frames)+1) < sig.shape[-1] - (Ntaps - 1), \
         "Trying to equalise frame {}, but signal is not long enough".format(max(frames))
     if np.all(np.diff(frames) == 1):
-- 
2.43.0


From e340f639dbdda0dcd3598fbd4be293e9eebd570c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 43/91] fix: equalise_signal does not overwrite the initial
 taps of the caller

---
 qampy/core/equalisation/equalisation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/equalisation/equalisation.py b/qampy/core/equalisation/equalisation.py
index 4bef90f..61d6d15 100644
--- a/qampy/core/equalisation/equalisation.py
+++ b/qampy/core/equalisation/equalisation.py
@@ -544,7 +544,7 @@ def equalise_signal(E, os, mu, M, wxy=None, Ntaps=None, TrSyms=None, Niter=1, me
     if wxy is None:
         wxy = _init_taps(Ntaps, nmodes, nmodes, E.dtype)
     else:
-        wxy = np.ascontiguousarray(wxy, dtype=E.dtype)
+        wxy = np.array(wxy, dtype=E.dtype, order="C") # copy, because the training updates it
         Ntaps = wxy.shape[-1]
         assert wxy.ndim == 3, "wxy needs to be three dimensional"
         assert wxy.shape[:2] == (nmodes, nmodes), "The first 2 dimensions of wxy need to be the same shape as E"
-- 
2.43.0


From 42aa1351605bd39d6ec83e4dba3e308bb559572d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 44/91] fix: dual_mode_equalisation generates the symbols when
 none are given

---
 qampy/core/equalisation/equalisation.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/qampy/core/equalisation/equalisation.py b/qampy/core/equalisation/equalisation.py
index 61d6d15..fded96f 100644
--- a/qampy/core/equalisation/equalisation.py
+++ b/qampy/core/equalisation/equalisation.py
@@ -454,9 +454,12 @@ def dual_mode_equalisation(E, os, mu, M, wxy=None, Ntaps=None, TrSyms=(None,None
 
     if apply is False do not return E
     """
-    symbols = np.atleast_1d(symbols)
-    if symbols.ndim < 3:
-        symbols = np.tile(symbols, (2,1,1))
+    if symbols is None:
+        symbols = (None, None)
+    elif not isinstance(symbols, tuple): # a tuple has the symbols of the two equalisers
+        symbols = np.atleast_1d(symbols)
+        if symbols.ndim < 3:
+            symbols = np.tile(symbols, (2,1,1))
     wxy, err1 = equalise_signal(E, os, mu[0], M, wxy=wxy, Ntaps=Ntaps, TrSyms=TrSyms[0], Niter=Niter[0], method=methods[0], adaptive_stepsize=adaptive_stepsize[0], symbols=symbols[0],  modes=modes,**kwargs)
     wxy2, err2 = equalise_signal(E, os, mu[1], M, wxy=wxy, TrSyms=TrSyms[1], Niter=Niter[1], method=methods[1], adaptive_stepsize=adaptive_stepsize[1],  symbols=symbols[1],  modes=modes, **kwargs)
     if apply:
-- 
2.43.0


From 0f28c91a3fb6b37d2f31e0182319ef053291d892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 45/91] fix: dual_mode_equalisation selects the symbols for
 each of the two methods

---
 qampy/equalisation.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/qampy/equalisation.py b/qampy/equalisation.py
index 3a17ff7..0f19507 100644
--- a/qampy/equalisation.py
+++ b/qampy/equalisation.py
@@ -244,14 +244,8 @@ def dual_mode_equalisation(sig, mu, Ntaps, TrSyms=(None, None), Niter=(1, 1), me
 
     """
     if symbols is None:
-        for method in methods:
-            if method in core.equalisation.DATA_AIDED:
-                symbols = sig.symbols
-            else:
-                try:
-                    symbols = sig.coded_symbols
-                except AttributeError:
-                    symbols = None
+        symbols = tuple(sig.symbols if method in core.equalisation.DATA_AIDED else getattr(sig, "coded_symbols", None)
+                        for method in methods)
     if apply:
         sig_out, wx, err = core.equalisation.dual_mode_equalisation(sig, sig.os, mu, sig.M, Ntaps=Ntaps, TrSyms=TrSyms, methods=methods,
                                                        adaptive_stepsize=adaptive_stepsize, symbols=symbols, Niter=Niter,
-- 
2.43.0


From d5ca99eae72ee0e132a8fdb8303975e252b3e034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 46/91] fix: CDcomp uses the frequencies of the FFT, also for
 the overlap-add blocks

---
 qampy/core/equalisation/equalisation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qampy/core/equalisation/equalisation.py b/qampy/core/equalisation/equalisation.py
index fded96f..0f46a3d 100644
--- a/qampy/core/equalisation/equalisation.py
+++ b/qampy/core/equalisation/equalisation.py
@@ -642,7 +642,7 @@ def CDcomp(E, fs, N, L, D, wl):
     #H *= H
     #H *= D * wl**2 * L / (c * N**2)
 
-    omega = np.pi * fs * np.linspace(-1,1,N,dtype = complex)
+    omega = 2 * np.pi * np.fft.fftshift(np.fft.fftfreq(N, 1/fs))
     beta2 = D * wl**2 / (c * 2 * np.pi)
 
     H = np.exp(-.5j * omega**2 * beta2 * L )
@@ -663,7 +663,7 @@ def CDcomp(E, fs, N, L, D, wl):
             sigB = np.zeros(N, dtype=np.complex128)
             sigB[zp:-zp] = E[i * n:i * n + n]
             sigB = np.fft.fft(sigB)
-            sigB *= H
+            sigB *= np.fft.ifftshift(H)
             sigB = np.fft.ifft(sigB)
             sB[i, :] = sigB
             sigEQ[i * n:i * n + n + 2 * zp] = sigEQ[i * n:i * n + n + 2 *
-- 
2.43.0


From 90e27d6e932d53082f7c1b31143dd3893b505991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:18 +0000
Subject: [PATCH 47/91] fix: sync2frame rearranges three and more modes in the
 order of the pilots

---
 qampy/signals.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qampy/signals.py b/qampy/signals.py
index ff572c0..de79b89 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1738,6 +1738,7 @@ class SignalWithPilots(SignalBase):
                                                                               Ntaps=Ntaps,
                                                                               frame_len=self.frame_len,
                                                                               M_pilot=self.Mpilots, **eqargs)
+        mode_alignment = np.argsort(mode_alignment) # signal mode for each pilot mode
         self[:,:] = self[mode_alignment,:]
         shift_factors[shift_factors<0] += self.frame_len*self.os # we don't really want negative shift factors
         self.shiftfctrs = shift_factors[mode_alignment]
-- 
2.43.0


From 9524bf3540907f605031a9ad03b54e5a14176c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:02 +0000
Subject: [PATCH 48/91] fix: equalise_signal does not train beyond the end of
 the signal or of the reference symbols

---
 qampy/core/equalisation/equalisation.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/qampy/core/equalisation/equalisation.py b/qampy/core/equalisation/equalisation.py
index 0f46a3d..3707257 100644
--- a/qampy/core/equalisation/equalisation.py
+++ b/qampy/core/equalisation/equalisation.py
@@ -551,9 +551,15 @@ def equalise_signal(E, os, mu, M, wxy=None, Ntaps=None, TrSyms=None, Niter=1, me
         Ntaps = wxy.shape[-1]
         assert wxy.ndim == 3, "wxy needs to be three dimensional"
         assert wxy.shape[:2] == (nmodes, nmodes), "The first 2 dimensions of wxy need to be the same shape as E"
+    symbols = _reshape_symbols(symbols, method, M, E.dtype, nmodes)
     if TrSyms is None:
         TrSyms = _cal_training_symbol_len(os, Ntaps, E.shape[-1])
-    symbols = _reshape_symbols(symbols, method, M, E.dtype, nmodes)
+        if method in DATA_AIDED:
+            TrSyms = min(TrSyms, symbols.shape[-1])
+    elif (TrSyms - 1)*os + Ntaps > E.shape[-1]:
+        raise ValueError("The signal is too short to train over {} symbols".format(TrSyms))
+    elif method in DATA_AIDED and TrSyms > symbols.shape[-1]:
+        raise ValueError("Training over {} symbols, but there are only {} reference symbols".format(TrSyms, symbols.shape[-1]))
     if method in REAL_VALUED:
         err, wxy, mu = pythran_equalisation.train_equaliser_realvalued(E, TrSyms, Niter, os, mu, wxy, modes, adaptive_stepsize, symbols.copy(), method[:-5]) # copies are needed because pythran has problems with reshaped arrays
     else:
-- 
2.43.0


From af8e7157bc996f3d88382f78fb1207631d5ae37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:53 +0000
Subject: [PATCH 49/91] fix: mrde partitions for constellations with different
 numbers of real and imaginary levels

---
 qampy/core/equalisation/equalisation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qampy/core/equalisation/equalisation.py b/qampy/core/equalisation/equalisation.py
index 3707257..3eedb00 100644
--- a/qampy/core/equalisation/equalisation.py
+++ b/qampy/core/equalisation/equalisation.py
@@ -329,6 +329,10 @@ def generate_partition_codes_complex(M):
     syms /= np.sqrt(scale)
     syms_r = np.unique(abs(syms.real)**4/abs(syms.real)**2)
     syms_i = np.unique(abs(syms.imag)**4/abs(syms.imag)**2)
+    # repeating the outermost radius gives both the same number of codes without changing the decision (e.g. 8-QAM)
+    n = max(syms_r.size, syms_i.size)
+    syms_r = np.pad(syms_r, (0, n - syms_r.size), mode="edge")
+    syms_i = np.pad(syms_i, (0, n - syms_i.size), mode="edge")
     codes = syms_r + 1.j * syms_i
     part_r = syms_r[:-1] + np.diff(syms_r)/2
     part_i = syms_i[:-1] + np.diff(syms_i)/2
-- 
2.43.0


From 99b3351302dd4237e76f80d6f7d58afc92b921db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:53 +0000
Subject: [PATCH 50/91] fix: bps and TDHQAMSymbols.from_symbol_arrays compare
 dtypes by value

---
 qampy/core/phaserecovery.py | 2 +-
 qampy/signals.py            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qampy/core/phaserecovery.py b/qampy/core/phaserecovery.py
index 8a40711..8638ce1 100644
--- a/qampy/core/phaserecovery.py
+++ b/qampy/core/phaserecovery.py
@@ -140,7 +140,7 @@ def bps(E, Mtestangles, symbols, N, method="pyt", **kwargs):
         bps_fct = _bps_idx_pyt
     else:
         raise ValueError("Method needs to be 'pyx', 'py' or 'af'")
-    if E.dtype is np.dtype(np.complex64):
+    if E.dtype == np.dtype(np.complex64):
         dtype = np.float32
     else:
         dtype = np.float64
diff --git a/qampy/signals.py b/qampy/signals.py
index de79b89..ee25824 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1341,7 +1341,7 @@ class TDHQAMSymbols(SignalBase):
             output time-domain hybrid QAM signal
         """
         assert syms_M1.ndim == 2 and syms_M2.ndim == 2, "input needs to have two dimensions"
-        assert syms_M1.dtype is syms_M2.dtype, "both input symbol arrays need to have the same dtype"
+        assert syms_M1.dtype == syms_M2.dtype, "both input symbol arrays need to have the same dtype"
         assert syms_M1.shape[0] == syms_M2.shape[0], "Number of modes must be the same"
         f_M, f_M1, f_M2 = cls._cal_fractions(fr)
         scale = cls.calculate_power_ratio(syms_M1.coded_symbols, syms_M2.coded_symbols, power_method)
-- 
2.43.0


From ed32b1a247d0bb875b7cae78199c9ed0d768628b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:20 +0000
Subject: [PATCH 51/91] fix: get_data gives contiguous symbols for frames with
 their own data

---
 qampy/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index ee25824..e1dd29b 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1785,7 +1785,7 @@ class SignalWithPilots(SignalBase):
         ndat = np.count_nonzero(self._idx_dat)
         symbols_tx = getattr(data, "_symbols", None)
         if symbols_tx is not None and symbols_tx.shape[-1] > ndat: # every frame has its own data
-            data._symbols = symbols_tx[:, np.hstack([np.arange(ndat) + i * ndat for i in frames])]
+            data._symbols = symbols_tx[:, np.hstack([np.arange(ndat) + i * ndat for i in frames])].copy() # needed for pythran
         return data
 
     def extract_pilots(self, frames=None):
-- 
2.43.0


From a40b45c337c3ab52c0b59b5a1acd312c3e6743e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:20 +0000
Subject: [PATCH 52/91] fix: SignalWithPilots with several frames keeps the
 pilots of one frame

---
 qampy/signals.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index e1dd29b..b914fee 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1501,13 +1501,14 @@ class SignalWithPilots(SignalBase):
         out_symbs = np.empty((nmodes, frame_len*nframes), dtype=dtype)
         idx, idx_dat, idx_pil = cls._cal_pilot_idx(frame_len, pilot_seq_len, pilot_ins_rat)
         if repeat_pilots:
-            pilots = np.tile(SignalQAMGrayCoded(Mpilots, np.count_nonzero(idx_pil), nmodes=nmodes, dtype=dtype, **kwargs) * pilot_scale, (1, nframes))
+            pilots = SignalQAMGrayCoded(Mpilots, np.count_nonzero(idx_pil), nmodes=nmodes, dtype=dtype, **kwargs) * pilot_scale
+            out_symbs[:, np.tile(idx_pil, nframes)] = np.tile(pilots, (1, nframes))
         else:
             pilots = SignalQAMGrayCoded(Mpilots, np.count_nonzero(idx_pil), nmodes=nmodes, dtype=dtype, **kwargs) * pilot_scale
+            out_symbs[:, np.tile(idx_pil, nframes)] = pilots
 
         # Note that currently the phase pilots start one symbol after the sequence
         # TODO: we should probably fix this
-        out_symbs[:, np.tile(idx_pil, nframes)] = pilots
         if repeat_data:
             symbs = np.tile(dataclass(M, np.count_nonzero(idx_dat), nmodes=nmodes, dtype=dtype, **kwargs), (1, nframes))
         else:
-- 
2.43.0


From dc65ceaf42dd0e07befcc1282341bef08fe84e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 53/91] fix: SignalWithPilots.from_symbol_array truncates the
 symbols and bits of longer payloads

---
 qampy/signals.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index b914fee..30a5711 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1642,7 +1642,12 @@ class SignalWithPilots(SignalBase):
         obj._frame_len = frame_len
         obj._pilot_seq_len = pilot_seq_len
         obj._pilot_ins_rat = pilot_ins_rat
-        obj._symbols = payload[:, :Ndat].copy()
+        symbs = payload[:, :Ndat].copy()
+        if N > Ndat and getattr(symbs, "_symbols", None) is not None and symbs._symbols.shape[-1] > Ndat: # the attributes need to be truncated as well
+            symbs._symbols = symbs._symbols[:, :Ndat].copy()
+            if getattr(symbs, "_bits", None) is not None:
+                symbs._bits = symbs._bits[:, :Ndat*symbs.Nbits]
+        obj._symbols = symbs
         obj._pilots = pilots
         obj._idx_dat = idx_dat
         obj._idx_pil = idx_pil
-- 
2.43.0


From 84b42c837b5816df18ba0b00f6604250fc95bf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 54/91] fix: bps considers all distances, not only those below
 a fixed limit

---
 qampy/core/pythran_dsp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qampy/core/pythran_dsp.py b/qampy/core/pythran_dsp.py
index 10d52c2..c424a72 100644
--- a/qampy/core/pythran_dsp.py
+++ b/qampy/core/pythran_dsp.py
@@ -29,7 +29,7 @@ def select_angle_index(x, N):
     csum = np.zeros((L, M), dtype=x.dtype)
     idx = np.zeros(L, dtype=np.int32)
     for i in range(1, L):
-        dmin = 1000.
+        dmin = np.inf
         if i < N:
             for k in range(M):
                 csum[i, k] = csum[i-1, k] + x[i, k]
@@ -71,7 +71,7 @@ def bps(E, testangles, symbols, N):
     M = symbols.shape[0]
     Ntestangles = testangles.shape[1]
     comp = np.exp(1j*testangles)
-    dists = np.zeros((L, Ntestangles), dtype=testangles.dtype)+100.
+    dists = np.zeros((L, Ntestangles), dtype=testangles.dtype)+np.inf
     #omp parallel for
     for i in range(L):
         if p > 1:
-- 
2.43.0


From ec6d5991ea95133e1b87c03a72a7a421006836c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 55/91] fix: quantize_signal_New accepts plain arrays

---
 qampy/core/impairments.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qampy/core/impairments.py b/qampy/core/impairments.py
index 6c93570..f7fd4a6 100644
--- a/qampy/core/impairments.py
+++ b/qampy/core/impairments.py
@@ -411,7 +411,10 @@ def quantize_signal_New(sig_in, nbits=6, rescale_in=True, rescale_out=True):
         max_swing = np.maximum(abs(sig_in.real).max(), abs(sig_in.imag).max())
         sig_out = sig_out * max_swing
 
-    return sig_in.recreate_from_np_array(sig_out)
+    try:
+        return sig_in.recreate_from_np_array(sig_out)
+    except AttributeError:
+        return sig_out
 
 def modulator_response(rfsig, dcbias=1, gfactr=1, cfactr=0, dcbias_out=0.5, gfactr_out=1):
     """
-- 
2.43.0


From 264cc1443ea105908ae40b5e2266d1b5b0a7c61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 56/91] fix: modulator_response uses complex parameters with a
 zero quadrature part as given

---
 qampy/core/impairments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qampy/core/impairments.py b/qampy/core/impairments.py
index f7fd4a6..0104a87 100644
--- a/qampy/core/impairments.py
+++ b/qampy/core/impairments.py
@@ -448,11 +448,11 @@ def modulator_response(rfsig, dcbias=1, gfactr=1, cfactr=0, dcbias_out=0.5, gfac
 
     """
 
-    if not np.iscomplex(dcbias):
+    if not np.iscomplexobj(dcbias):
         dcbias = dcbias + 1j*dcbias
-    if not np.iscomplex(gfactr):
+    if not np.iscomplexobj(gfactr):
         gfactr = gfactr + 1j*gfactr
-    if not np.iscomplex(cfactr):
+    if not np.iscomplexobj(cfactr):
         cfactr = cfactr + 1j*cfactr
     volt = rfsig.real + dcbias.real + 1j * (rfsig.imag + dcbias.imag)
     # Use the minus sign (-) to modulate lower level RF signal to corresponding Low-level optical field, if V_bias = Vpi
-- 
2.43.0


From 1e0079642b230d2b7613e9740f99867bc4193255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 57/91] fix: rescale_signal accepts one-dimensional signals

---
 qampy/helpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qampy/helpers.py b/qampy/helpers.py
index c3c8c85..78ca598 100644
--- a/qampy/helpers.py
+++ b/qampy/helpers.py
@@ -100,12 +100,13 @@ def rescale_signal(E, swing=1):
     Rescale the (1-pol) signal to (-swing, swing).
     """
     swing = np.atleast_1d(swing)
+    if E.ndim > 1:
+        swing = swing[:, np.newaxis]
     if np.iscomplexobj(E):
         scale_factor = np.maximum(np.max(abs(E.real), axis=-1), np.max(abs(E.imag), axis=-1))
-        return E / scale_factor[:, np.newaxis] * swing[:,np.newaxis]
     else:
         scale_factor = np.max(abs(E), axis=-1)
-        return E / scale_factor[:, np.newaxis] * swing[:,np.newaxis]
+    return E / scale_factor[..., np.newaxis] * swing
 
 def set_mid_and_resale(E,mid_pos=0,swing=1):
     """
-- 
2.43.0


From 6058c7a52ef642b593b16721492385577160a392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 58/91] fix: normalise_and_center_pil accepts one-dimensional
 signals

---
 qampy/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/helpers.py b/qampy/helpers.py
index 78ca598..8c237d0 100644
--- a/qampy/helpers.py
+++ b/qampy/helpers.py
@@ -60,7 +60,7 @@ def normalise_and_center_pil(sig, idx_pil):
     """
     Normalise and center the input field only based on pilot symbols, by calculating the mean power for each polarisation separate and dividing by its square-root
     """
-    sig_pil = sig[:, idx_pil]
+    sig_pil = sig[..., idx_pil]
     if sig.ndim > 1:
         ct_fac = - np.mean(sig_pil, axis=-1)[:, np.newaxis]
         sig_pil = sig_pil + ct_fac
-- 
2.43.0


From 0f1a9ac12415dcd43507d560d776930d43c9978a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 59/91] fix: find_pilot_idx marks the samples of the phase
 pilots for any oversampling

---
 qampy/helpers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qampy/helpers.py b/qampy/helpers.py
index 8c237d0..37c5470 100644
--- a/qampy/helpers.py
+++ b/qampy/helpers.py
@@ -137,8 +137,7 @@ def find_pilot_idx(nframe=2, frame_len = 2 ** 16, os_rate=2, pilot_seq_len=1024,
     for i in range(nframe):
         idx_temp = frame_len * os_rate * i
         idx_pil_seq = idx_pil_seq | ((idx_temp <= idx_os) & (idx_os < idx_temp + pilot_seq_len * os_rate))
-        idx_pil_ph = idx_pil_ph | ((((idx_os - pilot_seq_len * os_rate - idx_temp) % (pilot_ins_rat * os_rate) == 0) | (
-                    (idx_os - pilot_seq_len * os_rate - idx_temp) % (pilot_ins_rat * os_rate) == 1)) & (
+        idx_pil_ph = idx_pil_ph | ((((idx_os - pilot_seq_len * os_rate - idx_temp) % (pilot_ins_rat * os_rate)) < os_rate) & (
                                                idx_os - pilot_seq_len * os_rate - idx_temp >= 0) & (
                                                idx_os < idx_temp + frame_len * os_rate))
     idx_pil = idx_pil_seq | idx_pil_ph
-- 
2.43.0


From 4e1e6e699f2170152608a6a32118aceed5ab3803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 60/91] fix: segment_axis segments arrays that are not
 contiguous, and accepts negative axes

---
 qampy/core/segmentaxis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qampy/core/segmentaxis.py b/qampy/core/segmentaxis.py
index 1d3c6e2..b6caacd 100644
--- a/qampy/core/segmentaxis.py
+++ b/qampy/core/segmentaxis.py
@@ -56,6 +56,8 @@ def segment_axis(a, length, overlap=0, axis=None, end='cut', endvalue=0):
     if axis is None:
         a = N.ravel(a)  # may copy
         axis = 0
+    elif axis < 0:
+        axis += a.ndim
 
     l = a.shape[axis]
 
@@ -114,10 +116,11 @@ def segment_axis(a, length, overlap=0, axis=None, end='cut', endvalue=0):
             shape=newshape,
             buffer=a,
             dtype=a.dtype)
-    except TypeError:
+    except (TypeError, ValueError):
         warnings.warn("Problem with ndarray creation forces copy.")
         a = a.copy()
         # Shape doesn't change but strides does
+        s = a.strides[axis]
         newstrides = a.strides[:axis] + (
             (length - overlap) * s, s) + a.strides[axis + 1:]
         return N.ndarray.__new__(
-- 
2.43.0


From 8fe7bc417de450c64ebf5cfbbcee479466034120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 61/91] fix: rcos_time, rcos_freq and rrcos_time use the limits
 only at their singularities, and accept a roll-off of zero

---
 qampy/core/special_fcts.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/qampy/core/special_fcts.py b/qampy/core/special_fcts.py
index eb3c6e5..cbe8bd3 100644
--- a/qampy/core/special_fcts.py
+++ b/qampy/core/special_fcts.py
@@ -127,8 +127,10 @@ def sech(x, A, x0, w):
 
 def rcos_time(t, beta, T):
     """Time response of a raised cosine filter with a given roll-off factor and width """
-    return np.sinc(t / T) * np.cos(t / T * np.pi * beta) / (1 - 4 *
-                                                            (beta * t / T)**2)
+    with np.errstate(divide='ignore', invalid='ignore'):
+        rcos = np.sinc(t / T) * np.cos(t / T * np.pi * beta) / (1 - 4 *
+                                                                (beta * t / T)**2)
+    return np.where(abs(2 * beta * abs(t / T) - 1) < 1e-6, np.pi / 4 * np.sinc(t / T), rcos)
 
 
 def rcos_freq(f, beta, T):
@@ -137,7 +139,8 @@ def rcos_freq(f, beta, T):
     rc[np.where(np.abs(f) <= (1 - beta) / (2 * T))] = T
     idx = np.where((np.abs(f) > (1 - beta) / (2 * T)) & (np.abs(f) <= (
         1 + beta) / (2 * T)))
-    rc[idx] = T / 2 * (1 + np.cos(np.pi * T / beta *
+    if beta > 0:
+        rc[idx] = T / 2 * (1 + np.cos(np.pi * T / beta *
                                                      (np.abs(f[idx]) - (1 - beta) /
                                                       (2 * T))))
     return rc
@@ -195,9 +198,11 @@ def rrcos_time(t, beta, T):
     """
     with np.errstate(divide='ignore', invalid='ignore'):
         rrcos = 1/T*((np.sin(np.pi*t/T*(1-beta)) +  4*beta*t/T*np.cos(np.pi*t/T*(1+beta)))/(np.pi*t/T*(1-(4*beta*t/T)**2)))
-        eps = abs(t[0]-t[1])/4
+        eps = 1e-6*T
         idx1 = np.where(abs(t)<eps)
         rrcos[idx1] = 1/T*(1+beta*(4/np.pi-1))
+        if beta == 0:
+            return rrcos
         idx2 = np.where(abs(abs(t)-abs(T/(4*beta)))<eps)
         rrcos[idx2] = beta/(T*np.sqrt(2))*((1+2/np.pi)*np.sin(np.pi/(4*beta))+(1-2/np.pi)*np.cos(np.pi/(4*beta)))
     return rrcos
-- 
2.43.0


From 9a859c59f2eb76d3f23a966ce831e2d8e6e25ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 62/91] fix: pre_filter rejects the given fraction of the
 spectrum instead of all of it

---
 qampy/core/filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qampy/core/filter.py b/qampy/core/filter.py
index fd582f5..8679b81 100644
--- a/qampy/core/filter.py
+++ b/qampy/core/filter.py
@@ -41,7 +41,8 @@ def pre_filter(signal, bw):
     sig = np.atleast_2d(signal)
     N = sig.shape
     h = np.zeros(N, dtype=sig.real.dtype)
-    h[:,int(N[1]/(bw/2)):-int(N[1]/(bw/2))] = 1
+    edge = int(N[1]*bw/2)
+    h[:,edge:N[1]-edge] = 1
     s = scifft.ifft(scifft.ifftshift(scifft.fftshift(scifft.fft(sig, axis=-1), axes=-1)*h, axes=-1), axis=-1)
     if signal.ndim < 2:
         return s.flatten()
-- 
2.43.0


From 8fc700538f075de59e9475bef3bb592680e488d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 63/91] fix: orthonormalize_signal gives both quadratures the
 same power

---
 qampy/core/analog_frontend.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qampy/core/analog_frontend.py b/qampy/core/analog_frontend.py
index 1fe977e..aa74531 100644
--- a/qampy/core/analog_frontend.py
+++ b/qampy/core/analog_frontend.py
@@ -119,12 +119,13 @@ def orthonormalize_signal(E, os=1):
 
         # Calculate scalar products
         mean_pow_inphase = np.mean(real_out**2)
-        mean_pow_quadphase = np.mean(tmp_imag**2)
         mean_pow_imb = np.mean(real_out*tmp_imag)
+        tmp_imag = tmp_imag - mean_pow_imb * real_out / mean_pow_inphase
+        mean_pow_quadphase = np.mean(tmp_imag**2)
 
         # Output, Imag orthogonal to Real part of signal
         sig_out = real_out / np.sqrt(mean_pow_inphase) +\
-                                    1j*(tmp_imag - mean_pow_imb * real_out / mean_pow_inphase) / np.sqrt(mean_pow_quadphase)
+                                    1j*tmp_imag / np.sqrt(mean_pow_quadphase)
         # Final total normalization to ensure IQ-power equals 1
         E_out[l,:] = sig_out - np.mean(sig_out[::os])
         E_out[l,:] = E_out[l,:] / np.sqrt(np.mean(np.abs(E_out[l,::os])**2))
-- 
2.43.0


From 5fd4a37fe273982f81deb59a2a34670ee140a1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 64/91] fix: generate_ps_symbols and hybrid_qam_ber_vs_esn0 use
 undefined names

---
 qampy/theory.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qampy/theory.py b/qampy/theory.py
index 11e27a3..73cbc36 100644
--- a/qampy/theory.py
+++ b/qampy/theory.py
@@ -26,7 +26,7 @@ from scipy.special import erfc
 from qampy.core.special_fcts import q_function
 from qampy.core import pythran_dsp
 from qampy.core.utils import bin2gray
-from qampy.helpers import dB2lin
+from qampy.helpers import dB2lin, normalise_and_center
 
 
 # All the formulas below are taken from dsplog.com
@@ -244,7 +244,7 @@ def generate_ps_symbols(N, symbs, px, normalize=True):
     mod_symbs = np.random.choice(symbs, N, p=px) + \
                 1j * np.random.choice(symbs, N, p=px)
     if normalize:
-        mod_symbs = utils.normalise_and_center(mod_symbs)
+        mod_symbs = normalise_and_center(mod_symbs)
     return mod_symbs
 
 def hybrid_qam_ber_vs_esn0(snr, pr, fr, M1, M2):
@@ -277,7 +277,7 @@ def hybrid_qam_ber_vs_esn0(snr, pr, fr, M1, M2):
     snr = 10**(snr/10)
     bps1 = np.log2(M1)
     bps2 = np.log2(M2)
-    return 1/((1-fr)*bps1+fr*bps2)*((1-fr)*bps1*theory.MQAM_BERvsEsN0(snr/((1-fr)+fr*pr), M1) + fr*bps2*theory.MQAM_BERvsEsN0(pr*snr/((1-fr)+fr*pr), M2))
+    return 1/((1-fr)*bps1+fr*bps2)*((1-fr)*bps1*ber_vs_es_over_n0_qam(snr/((1-fr)+fr*pr), M1) + fr*bps2*ber_vs_es_over_n0_qam(pr*snr/((1-fr)+fr*pr), M2))
 
 def cal_gmi(M, snr, N=10**3):
     """
-- 
2.43.0


From 906fc3f546a5e494cb1f7a243ed1d778ad45cb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 65/91] fix: sim_mi_mc does not normalise the symbols of the
 caller

---
 qampy/theory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/theory.py b/qampy/theory.py
index 73cbc36..55ebaeb 100644
--- a/qampy/theory.py
+++ b/qampy/theory.py
@@ -327,7 +327,7 @@ def sim_mi_mc(symbols, snr, N):
         mi : float
             Mutual information of the symbol alphabet at the given SNR
     """
-    symbols /= np.sqrt(np.mean(abs(symbols)**2))
+    symbols = symbols / np.sqrt(np.mean(abs(symbols)**2))
     N0 = 10**(-snr/10)
     sigma = np.sqrt(N0/2)
     noise = (np.random.randn(N) + 1j*np.random.randn(N))*sigma
-- 
2.43.0


From d37324aa11dd35e90b5709143354a8711dd2a2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 66/91] fix: the oversampling is not truncated by rounding
 errors of the rates

---
 qampy/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index 30a5711..6c9ad6a 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -179,7 +179,7 @@ class SignalBase(np.ndarray):
 
     @property
     def os(self):
-        return int(self.fs/self.fb)
+        return int(round(self.fs/self.fb, 9))
 
     @staticmethod
     def _copy_inherits(objold, objnew):
-- 
2.43.0


From 7155cce4fc6a3b4647d739789f8d012eac6bde74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:36 +0000
Subject: [PATCH 67/91] fix: analogue filters keep the imaginary part of the
 signal

---
 qampy/core/filter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qampy/core/filter.py b/qampy/core/filter.py
index 8679b81..e962fbf 100644
--- a/qampy/core/filter.py
+++ b/qampy/core/filter.py
@@ -132,7 +132,9 @@ def filter_signal(signal, fs, cutoff, ftype="bessel", order=2, analog=False):
         t = np.arange(0, sig.shape[1])*1/fs
         sig2 = np.zeros_like(sig)
         for i in range(sig.shape[0]):
-            to, yo, xo = scisig.lsim(system, sig[i], t)
+            to, yo, xo = scisig.lsim(system, sig[i].real, t)
+            if np.iscomplexobj(sig): # lsim is real-valued
+                yo = yo + 1j*scisig.lsim(system, sig[i].imag, t)[1]
             sig2[i] = yo.astype(sig.dtype)
     else:
         sig2 = scisig.sosfilt(system.astype(sig.dtype), sig, axis=-1)
-- 
2.43.0


From e039b97328fc545e2802cb0cbdbc2809c8d3e15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:36 +0000
Subject: [PATCH 68/91] fix: rrcos_resample filters with fftconv=False also
 when the rate does not change

---
 qampy/core/resample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/resample.py b/qampy/core/resample.py
index 8f7637d..126d23c 100644
--- a/qampy/core/resample.py
+++ b/qampy/core/resample.py
@@ -109,7 +109,7 @@ def rrcos_resample(signal, fold, fnew, Ts=None, beta=None, taps=4001, renormalis
     fup = up*fold
     # for very large tap lengths it is better to filter with fftconvolve
     # it could be better to use default values here, but this seems to depend on pc
-    if fftconv or taps is None:
+    if fftconv or taps is None or up == down: # resample_poly does not filter then
         sig_new = np.zeros((up*signal.size,), dtype=signal.dtype)
         sig_new[::up] = signal
         sig_new = rrcos_pulseshaping(sig_new, fup, Ts, beta, taps)
-- 
2.43.0


From 74511ebcb5b2f909771262068e01a5c4747d571a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:36 +0000
Subject: [PATCH 69/91] fix: soft L-values and GMI do not underflow at high SNR

---
 qampy/core/pythran_dsp.py | 7 +++++--
 qampy/signals.py          | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/qampy/core/pythran_dsp.py b/qampy/core/pythran_dsp.py
index c424a72..1d3466b 100644
--- a/qampy/core/pythran_dsp.py
+++ b/qampy/core/pythran_dsp.py
@@ -86,8 +86,11 @@ def bps(E, testangles, symbols, N):
     return select_angle_index(dists, 2*N)
 
 def cal_l_values(btx, rx, snr):
-    tmp = np.sum(np.exp(-snr*abs(btx - rx)**2), axis=0)
-    return np.log(tmp[1]) - np.log(tmp[0])
+    dist1 = snr*abs(btx[:,1] - rx)**2
+    dist0 = snr*abs(btx[:,0] - rx)**2
+    min1 = np.min(dist1) # without the common factor exp(-min) one term is always 1
+    min0 = np.min(dist0)
+    return np.log(np.sum(np.exp(min1 - dist1))) - np.log(np.sum(np.exp(min0 - dist0))) + min0 - min1
 
 #pythran export soft_l_value_demapper(complex128[], int, float64, complex128[][][])
 #pythran export soft_l_value_demapper(complex128[], int, float32, complex128[][][])
diff --git a/qampy/signals.py b/qampy/signals.py
index 6c9ad6a..34c8f2b 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -504,7 +504,7 @@ class SignalBase(np.ndarray):
             else:
                 l_values = soft_l_value_demapper(rx[mode], self.Nbits, snr[mode], self._bitmap_mtx)
             # GMI per bit
-            GMI_per_bit[mode, :] = 1 - np.mean(np.log2(1 + np.exp(((-1)**bits[mode]) * l_values)), axis=0)
+            GMI_per_bit[mode, :] = 1 - np.mean(np.logaddexp(0, ((-1)**bits[mode]) * l_values), axis=0)/np.log(2)
         GMI = np.sum(GMI_per_bit, axis=-1)
         return GMI, GMI_per_bit
 
-- 
2.43.0


From 63a45232ac0d0d0212b66a1c3a3d7c101374e7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:36 +0000
Subject: [PATCH 70/91] fix: min-max L-values consider all distances and single
 precision signals

---
 qampy/core/pythran_dsp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qampy/core/pythran_dsp.py b/qampy/core/pythran_dsp.py
index 1d3466b..86db404 100644
--- a/qampy/core/pythran_dsp.py
+++ b/qampy/core/pythran_dsp.py
@@ -108,8 +108,8 @@ def soft_l_value_demapper(rx_symbs, num_bits, snr, bits_map):
     return L_values
 
 def find_minmax(btx, rx):
-    tmp = 10000.
-    tmp2 = 10000.
+    tmp = np.inf
+    tmp2 = np.inf
     k = btx.shape[0]
     for l in range(k):
         tmp3 = abs(btx[l,1] - rx)**2
@@ -122,6 +122,7 @@ def find_minmax(btx, rx):
 
 #pythran export soft_l_value_demapper_minmax(complex128[], int, float64, complex128[][][])
 #pythran export soft_l_value_demapper_minmax(complex64[], int, float32, complex64[][][])
+#pythran export soft_l_value_demapper_minmax(complex64[], int, float64, complex64[][][])
 def soft_l_value_demapper_minmax(rx_symbs, num_bits, snr, bits_map):
     assert bits_map.shape[0] >= num_bits
     N = rx_symbs.shape[0]
-- 
2.43.0


From 64a05ddaf4c2676bc148383bb8c496a9b7ce94cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:36 +0000
Subject: [PATCH 71/91] fix: cal_mi works for single precision signals

---
 qampy/core/signal_quality.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qampy/core/signal_quality.py b/qampy/core/signal_quality.py
index cd47db2..f137c3f 100644
--- a/qampy/core/signal_quality.py
+++ b/qampy/core/signal_quality.py
@@ -327,8 +327,7 @@ def cal_mi(signal, symbols_tx, alphabet, N0, fast=True):
         mi: float
             The calculated mutual information
     """
-    nmodes = signal.shape[0]
-    mi = np.zeros(nmodes, dtype=np.float64)
+    signal, symbols_tx, alphabet = (np.asarray(x, dtype=np.complex128) for x in (signal, symbols_tx, alphabet))
     if fast:
         return cal_mi_mc_fast(signal, symbols_tx, alphabet, N0)
     else:
-- 
2.43.0


From 31fbe296a0d706e4c2dd37599ad269a7a4952ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:36 +0000
Subject: [PATCH 72/91] fix: cal_lut does not write beyond the table for
 alphabets with more quadrature than in-phase levels

---
 qampy/core/digital_pre_compensation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/digital_pre_compensation.py b/qampy/core/digital_pre_compensation.py
index 1c41b23..bf96ce7 100644
--- a/qampy/core/digital_pre_compensation.py
+++ b/qampy/core/digital_pre_compensation.py
@@ -172,7 +172,7 @@ def cal_lut(tx_sig, rx_sig, ref_sym, mem_len=3, idx_data=None, real_ptrns=True):
     if real_ptrns:
         ref_sym_I = np.unique(ref_sym.real)
         ref_sym_Q = np.unique(ref_sym.imag)
-        M = ref_sym_I.size
+        M = max(ref_sym_I.size, ref_sym_Q.size)
         N = int(M**mem_len)
         idx_I = find_sym_patterns(tx_sig.real, ref_sym_I, mem_len)
         idx_Q = find_sym_patterns(tx_sig.imag, ref_sym_Q, mem_len)
-- 
2.43.0


From 65b67b3cc31ad7f16f939dc951343a760cac9f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:36 +0000
Subject: [PATCH 73/91] fix: dump_edges of zero samples keeps the signal

---
 qampy/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qampy/helpers.py b/qampy/helpers.py
index 37c5470..fe6f401 100644
--- a/qampy/helpers.py
+++ b/qampy/helpers.py
@@ -79,9 +79,9 @@ def dump_edges(E, N):
     Remove N samples from the front and end of the input field.
     """
     if E.ndim > 1:
-        return E[:,N:-N]
+        return E[:,N:E.shape[1]-N]
     else:
-        return E[N:-N]
+        return E[N:E.shape[0]-N]
 
 def set_mid_point(E, mid_pos=0):
     """
-- 
2.43.0


From e4620e048d7c3d1d24804df4fe90ce523e9c7c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:36 +0000
Subject: [PATCH 74/91] fix: comp_mod_sin is the inverse of the modulator
 response

---
 qampy/core/digital_pre_compensation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qampy/core/digital_pre_compensation.py b/qampy/core/digital_pre_compensation.py
index bf96ce7..320d226 100644
--- a/qampy/core/digital_pre_compensation.py
+++ b/qampy/core/digital_pre_compensation.py
@@ -50,8 +50,8 @@ def comp_mod_sin(sig, vpi=1.14):
     """
     if not np.iscomplexobj(vpi):
         vpi = vpi + 1j*vpi
-    sig_out_re = 2 * vpi.real * np.arcsin(sig.real)
-    sig__out_im = 2 * vpi.imag * np.arcsin(sig.imag)
+    sig_out_re = 2 * vpi.real / np.pi * np.arcsin(sig.real)
+    sig__out_im = 2 * vpi.imag / np.pi * np.arcsin(sig.imag)
     sig_out = sig_out_re + 1j*sig__out_im
     return sig_out
 
-- 
2.43.0


From 78481e68409e3bc8eba1e0d88036f922b961c76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:20 +0000
Subject: [PATCH 75/91] fix: cal_mi does not overflow for samples far from
 their symbols

---
 qampy/core/pythran_dsp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qampy/core/pythran_dsp.py b/qampy/core/pythran_dsp.py
index 86db404..6531163 100644
--- a/qampy/core/pythran_dsp.py
+++ b/qampy/core/pythran_dsp.py
@@ -312,8 +312,11 @@ def cal_mi_mc_fast(sig, sig_tx, symbols, N0):
     mi_out = 0
     #omp parallel for reduction(+:mi_out)
     for l in range(L):
+        dmin = abs(sig[l]-symbols[0])**2
+        for j in range(1, M):
+            dmin = min(dmin, abs(sig[l]-symbols[j])**2)
         tmp = 0
         for j in range(M):
-            tmp += np.exp(-(abs(sig[l]-symbols[j])**2 - abs(sig[l]-sig_tx[l])**2)/N0)
-        mi_out += np.log2(tmp)
+            tmp += np.exp(-(abs(sig[l]-symbols[j])**2 - dmin)/N0)
+        mi_out += np.log2(tmp) + (abs(sig[l]-sig_tx[l])**2 - dmin)/N0/np.log(2)
     return np.log2(M) - mi_out/L
-- 
2.43.0


From cf993b20323b9ba614ce026708f11ce636068e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:08 +0000
Subject: [PATCH 76/91] fix: pilot_based_cpe averages for any number of modes

---
 qampy/core/pilotbased_receiver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/pilotbased_receiver.py b/qampy/core/pilotbased_receiver.py
index 87dee7d..6aca901 100644
--- a/qampy/core/pilotbased_receiver.py
+++ b/qampy/core/pilotbased_receiver.py
@@ -238,7 +238,7 @@ def pilot_based_cpe(rec_symbs, pilot_symbs, pilot_ins_ratio, num_average = 1, us
     pp1 = pilot_phase_base[:, :int((num_average-1)/2)]
     pp2 = pilot_phase_average[:]
     t = pilot_phase_base[:,:int((num_average-1)/2)]
-    t2 = pp2[:, -1].reshape(2,1)
+    t2 = pp2[:, -1].reshape(npols,1)
     pp3 = np.ones(t.shape)*t2
     pilot_phase = np.hstack([pp1, pp2, pp3])
     pilot_pos = np.arange(0,pilot_phase.shape[-1]*pilot_ins_ratio*use_pilot_ratio, pilot_ins_ratio*use_pilot_ratio)
-- 
2.43.0


From c0a19cfe87638f89f5d23b783457704055b62d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:08 +0000
Subject: [PATCH 77/91] fix: add_carrier_offset keeps its precision on long
 complex64 signals

---
 qampy/core/impairments.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qampy/core/impairments.py b/qampy/core/impairments.py
index 0104a87..a6d9f3a 100644
--- a/qampy/core/impairments.py
+++ b/qampy/core/impairments.py
@@ -251,10 +251,13 @@ def add_carrier_offset(sig, fo, fs):
         signal with added offset
     """
     sign = np.atleast_2d(sig)
+    # the phase grows with the length of the signal, it needs double precision also for complex64 signals
+    offset = np.exp(2.j * np.pi * np.arange(sign.shape[1]) * fo / fs)
+    offset = offset.astype(np.result_type(sign.dtype, np.complex64))
     if sig.ndim == 1:
-        return  (sign * np.exp(2.j * np.pi * np.arange(sign.shape[1], dtype=sign.dtype) * fo / fs)).flatten()
+        return  (sign * offset).flatten()
     else:
-        return  sign * np.exp(2.j * np.pi * np.arange(sign.shape[1], dtype=sign.dtype) * fo / fs)
+        return  sign * offset
 
 def add_modal_delay(sig, delay):
     """
-- 
2.43.0


From 13e6f3f38344282f3bfb94bc94f875204df54b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:16 +0000
Subject: [PATCH 78/91] fix: SignalWithPilots.from_symbol_array multiplies
 generated pilots with pilot_scale as documented

---
 qampy/signals.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index 34c8f2b..b5e0f92 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1618,8 +1618,7 @@ class SignalWithPilots(SignalBase):
         out_symbs = np.empty((nmodes, frame_len), dtype=payload.dtype)
         Ndat = np.count_nonzero(idx_dat)
         if pilots is None:
-            pilots = pilot_class(pilot_kwargs["M"],  np.count_nonzero(idx_pil), nmodes=nmodes, dtype=payload.dtype, **kwargs) / np.sqrt(
-                pilot_scale) # this is still not super general
+            pilots = pilot_class(pilot_kwargs["M"],  np.count_nonzero(idx_pil), nmodes=nmodes, dtype=payload.dtype, **kwargs) * pilot_scale # this is still not super general
         else:
             assert (nmodes == pilots.shape[0]) or (pilots.shape[0] == 1), "Pilots need to have the same number of modes as data or be one mode"
             if pilots.shape[0] == nmodes:
-- 
2.43.0


From b8906cf42f360119e11f924310d20b83a2c78761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:55 +0000
Subject: [PATCH 79/91] fix: processing imports the phase search that exists

---
 qampy/core/processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qampy/core/processing.py b/qampy/core/processing.py
index 5ddcd83..cb04f40 100644
--- a/qampy/core/processing.py
+++ b/qampy/core/processing.py
@@ -20,7 +20,7 @@ import zmq
 import numpy as np
 import msgpack
 import msgpack_numpy as msgp_npy
-from qampy.core.phaserecovery import blindphasesearch
+from qampy.core.phaserecovery import bps
 
 # careful we cannot use the unpatched msgpack because it messes up dictionary keys to bytes
 msgp_npy.patch()
@@ -145,7 +145,7 @@ class PhRecWorker(RepWorker):
         M = pdict['Mtestangles']
         syms = pdict['symbols']
         N = pdict['N']
-        Eout, ph = blindphasesearch(E, M, syms, N)
+        Eout, ph = bps(E, M, syms, N)
         return {'Eout':Eout, 'ph':ph, 'id': id}
 
 
-- 
2.43.0


From 450e5aca4db9cf2a0b0346ac103a5dfdc3c286df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:55 +0000
Subject: [PATCH 80/91] fix: PPWorker receives, answers and reports errors

---
 qampy/core/processing.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/qampy/core/processing.py b/qampy/core/processing.py
index cb04f40..ae5bcd2 100644
--- a/qampy/core/processing.py
+++ b/qampy/core/processing.py
@@ -46,21 +46,21 @@ class PPWorker(object):
         self.receive_socket = self.context.socket(zmq.PULL)
         self.receive_socket.connect(receive_url)
 
-    def send_msg(self, msg, success=b"OK", flags=None):
-        self.send_socket.send_multipart([success, pack_array(A)], flags=flags)
+    def send_msg(self, msg, success=b"OK", flags=0):
+        self.send_socket.send_multipart([success, pack_array(msg)], flags=flags)
 
-    def recv_msg(self, flags=None):
-        header, msg = self.collect_socket.recv_multipart(flags=flags)
+    def recv_msg(self, flags=0):
+        header, msg = self.receive_socket.recv_multipart(flags=flags)
         return header, unpack_array(msg)
 
-    def process(self, flags=None):
+    def process(self, flags=0):
         header, msg = self.recv_msg(flags=flags)
         try:
-            result = getattr(self, header)(**msg)
+            result = getattr(self, header.decode("ascii"))(**msg)
             success = b"OK"
         except Exception as err:
             success = b"ERR"
-            result = err.encode("ascii")
+            result = repr(err).encode("ascii")
         self.send_msg(result, success)
 
     def run(self):
-- 
2.43.0


From 4b881be0205235d38ea4890140272e1a7805c871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:55 +0000
Subject: [PATCH 81/91] fix: workers report error messages outside ASCII

---
 qampy/core/processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qampy/core/processing.py b/qampy/core/processing.py
index ae5bcd2..c9fa515 100644
--- a/qampy/core/processing.py
+++ b/qampy/core/processing.py
@@ -60,7 +60,7 @@ class PPWorker(object):
             success = b"OK"
         except Exception as err:
             success = b"ERR"
-            result = repr(err).encode("ascii")
+            result = repr(err).encode("ascii", "backslashreplace")
         self.send_msg(result, success)
 
     def run(self):
@@ -89,7 +89,7 @@ class RepWorker(object):
             success = b"OK"
         except Exception as err:
             success = b"ERR"
-            result = repr(err).encode("ascii")
+            result = repr(err).encode("ascii", "backslashreplace")
         finally:
             self.send_msg(result, success)
 
-- 
2.43.0


From e1ed2b63a00084d983699acbd2eb375050dba36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:55 +0000
Subject: [PATCH 82/91] fix: ResultSink binds to integer ports and keeps its
 port

---
 qampy/core/processing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qampy/core/processing.py b/qampy/core/processing.py
index c9fa515..c5b7903 100644
--- a/qampy/core/processing.py
+++ b/qampy/core/processing.py
@@ -133,9 +133,10 @@ class ResultSink(object):
         self.context = context or zmq.Context.instance()
         self.socket = self.context.socket(zmq.PULL)
         if port is None:
-            self.socket.bind_to_random_port(url)
+            self.port = self.socket.bind_to_random_port(url)
         else:
-            self.socket.bind(url+":"+port)
+            self.socket.bind(u"{}:{}".format(url, port))
+            self.port = port
 
 
 class PhRecWorker(RepWorker):
-- 
2.43.0


From 67cf7eadff30a990b8535c7175478b2399ed6fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:10 +0000
Subject: [PATCH 83/91] fix: ErrorFctRDE and ErrorFctMRDE of numba_equalisation
 use their arguments

---
 qampy/core/equalisation/numba_equalisation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qampy/core/equalisation/numba_equalisation.py b/qampy/core/equalisation/numba_equalisation.py
index 456c02e..1379218 100644
--- a/qampy/core/equalisation/numba_equalisation.py
+++ b/qampy/core/equalisation/numba_equalisation.py
@@ -196,7 +196,7 @@ def ErrorFctRDE(partition, codebook):
     @numba.jit(nopython=True)
     def rde_fct(Xest):
         Ssq = abs(Xest)**2
-        S_DD = partition_value(Ssq, part, code)
+        S_DD = partition_value(Ssq, partition, codebook)
         return (S_DD - Ssq)*Xest
     return rde_fct
 
@@ -223,7 +223,7 @@ def ErrorFctMRDE(partition, codebook):
     @numba.jit(nopython=True)
     def mrde_fct(Xest):
         Ssq = Xest.real**2 + 1.j * Xest.imag**2
-        R = partition_value(Ssq.real, partion.real, codebook.real) + partition_value(Ssq.imag, partition.imag, codebook.imag)*1.j
+        R = partition_value(Ssq.real, partition.real, codebook.real) + partition_value(Ssq.imag, partition.imag, codebook.imag)*1.j
         return (R.real - Ssq.real)*Xest.real + (R.imag - Ssq.imag)*1.j*Xest.imag
     return mrde_fct
 
-- 
2.43.0


From 82bfd6ac48ac8c550ec842aa1aec3c5c71726933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:18 +0000
Subject: [PATCH 84/91] fix: partition_16qam estimates the power for 16-QAM

---
 qampy/core/phaserecovery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/phaserecovery.py b/qampy/core/phaserecovery.py
index 8638ce1..faabd03 100644
--- a/qampy/core/phaserecovery.py
+++ b/qampy/core/phaserecovery.py
@@ -318,7 +318,7 @@ def partition_16qam(E):
        Technol. Lett. …, vol. 22, no. 20, pp. 1515–1517, 2010.
     """
 
-    S0 = cal_s0(E, 1.32)
+    S0 = cal_s0(E, 16)
     inner = (np.sqrt(S0 / 5) + np.sqrt(S0)) / 2.
     outer = (np.sqrt(9 * S0 / 5) + np.sqrt(S0)) / 2.
     Ea = abs(E)
-- 
2.43.0


From 43bb21e31402551da82f30e164a92d800971da46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:18 +0000
Subject: [PATCH 85/91] fix: phase_partition_16qam takes the rotation of class
 2 symbols closer to the class 1 average

---
 qampy/core/phaserecovery.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qampy/core/phaserecovery.py b/qampy/core/phaserecovery.py
index faabd03..edd2343 100644
--- a/qampy/core/phaserecovery.py
+++ b/qampy/core/phaserecovery.py
@@ -372,9 +372,9 @@ def phase_partition_16qam(E, Nblock):
         phi_est = np.zeros(L, dtype=np.float64)
         for i in range(0, L, Nblock):
             S1_sum = np.sum(S1[i:i + Nblock])
-            Sx_tmp = np.min(
-                [S1_sum - Sx[i:i + Nblock], S1_sum - So[i:i + Nblock]],
-                axis=0)[c2_m[i:i + Nblock]]
+            # of the two rotations of each class 2 symbol, take the one closer to the class 1 average
+            Sx_b, So_b = Sx[i:i + Nblock], So[i:i + Nblock]
+            Sx_tmp = np.where(abs(S1_sum - Sx_b) < abs(S1_sum - So_b), Sx_b, So_b)
             phi_est[i:i + Nblock] = np.angle(S1_sum + Sx_tmp.sum())
         ph_out.append(np.unwrap(phi_est) / 4 - np.pi / 4)
     phi_out = np.asarray(ph_out)
-- 
2.43.0


From 05f9c08f85ddb889e329ea2d97576d33d2488907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:18 +0000
Subject: [PATCH 86/91] fix: dual_mode_equalisation applies the taps like
 equalise_signal

---
 qampy/core/equalisation/equalisation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qampy/core/equalisation/equalisation.py b/qampy/core/equalisation/equalisation.py
index 3eedb00..5f1dce7 100644
--- a/qampy/core/equalisation/equalisation.py
+++ b/qampy/core/equalisation/equalisation.py
@@ -465,11 +465,12 @@ def dual_mode_equalisation(E, os, mu, M, wxy=None, Ntaps=None, TrSyms=(None,None
         if symbols.ndim < 3:
             symbols = np.tile(symbols, (2,1,1))
     wxy, err1 = equalise_signal(E, os, mu[0], M, wxy=wxy, Ntaps=Ntaps, TrSyms=TrSyms[0], Niter=Niter[0], method=methods[0], adaptive_stepsize=adaptive_stepsize[0], symbols=symbols[0],  modes=modes,**kwargs)
-    wxy2, err2 = equalise_signal(E, os, mu[1], M, wxy=wxy, TrSyms=TrSyms[1], Niter=Niter[1], method=methods[1], adaptive_stepsize=adaptive_stepsize[1],  symbols=symbols[1],  modes=modes, **kwargs)
+    ret = equalise_signal(E, os, mu[1], M, wxy=wxy, TrSyms=TrSyms[1], Niter=Niter[1], method=methods[1], adaptive_stepsize=adaptive_stepsize[1],  symbols=symbols[1],  modes=modes, apply=apply, **kwargs)
     if apply:
-        Eest = apply_filter(E, os, wxy2, modes=modes)
+        Eest, wxy2, err2 = ret
         return Eest, wxy2, (err1, err2)
     else:
+        wxy2, err2 = ret
         return wxy2, (err1, err2)
 
 def equalise_signal(E, os, mu, M, wxy=None, Ntaps=None, TrSyms=None, Niter=1, method="mcma", adaptive_stepsize=False,  symbols=None,  modes=None, apply=False,  **kwargs):
-- 
2.43.0


From d19954ef3176a94719781602182d76befdf0e321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:14 +0000
Subject: [PATCH 87/91] fix: pilot_based_cpe uses a multiple of the pilot ratio
 when there are fewer pilots than blocks

---
 qampy/core/pilotbased_receiver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qampy/core/pilotbased_receiver.py b/qampy/core/pilotbased_receiver.py
index 6aca901..4ddf1c2 100644
--- a/qampy/core/pilotbased_receiver.py
+++ b/qampy/core/pilotbased_receiver.py
@@ -209,9 +209,10 @@ def pilot_based_cpe(rec_symbs, pilot_symbs, pilot_ins_ratio, num_average = 1, us
     # Check that the number of blocks are equal and is valid
     numRefPilots = np.shape(pilot_symbs)[1]
     if numBlocks > numRefPilots:
-        numBlocks = numRefPilots
+        numBlocks = numRefPilots - (numRefPilots % use_pilot_ratio)
         rec_symbs = rec_symbs[:,:int(numBlocks*pilot_ins_ratio)]
         rec_pilots = rec_pilots[:,:int(numBlocks)]
+        pilot_symbs = pilot_symbs[:,:int(numBlocks)]
     elif numRefPilots > numBlocks:
         pilot_symbs = pilot_symbs[:,:int(numBlocks)]
 
-- 
2.43.0


From 48c224c7b324978f25371ba1f9c3d9bc8f18c705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:14 +0000
Subject: [PATCH 88/91] fix: make_decision and cal_mi accept slices of arrays

---
 qampy/core/signal_quality.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qampy/core/signal_quality.py b/qampy/core/signal_quality.py
index f137c3f..6e4d7a2 100644
--- a/qampy/core/signal_quality.py
+++ b/qampy/core/signal_quality.py
@@ -65,7 +65,7 @@ def make_decision(signal, symbols, method="pyt", **kwargs):
 
     """
     if method == "pyt":
-        return _decision_pyt(signal, symbols, **kwargs)
+        return _decision_pyt(np.ascontiguousarray(signal), np.ascontiguousarray(symbols), **kwargs) # pythran does not accept strided views
     elif method == "af":
         if af == None:
             raise RuntimeError("Arrayfire was not imported so cannot use this method for quantization")
@@ -327,7 +327,7 @@ def cal_mi(signal, symbols_tx, alphabet, N0, fast=True):
         mi: float
             The calculated mutual information
     """
-    signal, symbols_tx, alphabet = (np.asarray(x, dtype=np.complex128) for x in (signal, symbols_tx, alphabet))
+    signal, symbols_tx, alphabet = (np.ascontiguousarray(x, dtype=np.complex128) for x in (signal, symbols_tx, alphabet))
     if fast:
         return cal_mi_mc_fast(signal, symbols_tx, alphabet, N0)
     else:
-- 
2.43.0


From d188c43a8170c11ab89ab71475cc02ab1d2e56a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:14 +0000
Subject: [PATCH 89/91] fix: est_snr and cal_gmi accept slices of signals

---
 qampy/signals.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index b5e0f92..93e8ae5 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -451,7 +451,8 @@ class SignalBase(np.ndarray):
         s0 = np.zeros(nmodes, dtype=np.float64)
         n0 = np.zeros(nmodes, dtype=np.float64)
         for i in range(nmodes):
-            snr[i], s0[i], n0[i] = estimate_snr(signal_rx[i], symbols_tx[i], self.coded_symbols)
+            snr[i], s0[i], n0[i] = estimate_snr(np.ascontiguousarray(signal_rx[i]), np.ascontiguousarray(symbols_tx[i]),
+                                                self.coded_symbols)
         if verbose:
             return snr, s0, n0
         else:
@@ -500,9 +501,9 @@ class SignalBase(np.ndarray):
         # For every mode present, calculate GMI based on SD-demapping
         for mode in range(nmodes):
             if llr_minmax:
-                l_values = soft_l_value_demapper_minmax(rx[mode], self.Nbits, snr[mode], self._bitmap_mtx)
+                l_values = soft_l_value_demapper_minmax(np.ascontiguousarray(rx[mode]), self.Nbits, snr[mode], self._bitmap_mtx)
             else:
-                l_values = soft_l_value_demapper(rx[mode], self.Nbits, snr[mode], self._bitmap_mtx)
+                l_values = soft_l_value_demapper(np.ascontiguousarray(rx[mode]), self.Nbits, snr[mode], self._bitmap_mtx)
             # GMI per bit
             GMI_per_bit[mode, :] = 1 - np.mean(np.logaddexp(0, ((-1)**bits[mode]) * l_values), axis=0)/np.log(2)
         GMI = np.sum(GMI_per_bit, axis=-1)
-- 
2.43.0


From c3f675a8ac130a5dbe8c916f1f28748e904b807e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:14 +0000
Subject: [PATCH 90/91] fix: bps and bps_twostage accept slices and
 column-major arrays

---
 qampy/core/phaserecovery.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qampy/core/phaserecovery.py b/qampy/core/phaserecovery.py
index edd2343..457a4dd 100644
--- a/qampy/core/phaserecovery.py
+++ b/qampy/core/phaserecovery.py
@@ -145,7 +145,8 @@ def bps(E, Mtestangles, symbols, N, method="pyt", **kwargs):
     else:
         dtype = np.float64
     angles = np.linspace(-np.pi/4, np.pi/4, Mtestangles, endpoint=False, dtype=dtype).reshape(1,-1)
-    Ew = np.atleast_2d(E).astype(E.dtype)
+    Ew = np.atleast_2d(E).astype(E.dtype, order="C") # pythran does not accept strided views
+    symbols = np.ascontiguousarray(symbols)
     ph = []
     for i in range(Ew.shape[0]):
         idx =  bps_fct(Ew[i], angles, symbols, N)
@@ -273,6 +274,7 @@ def bps_twostage(E, Mtestangles, symbols, N , B=4, method="pyt", **kwargs):
         raise ValueError("Method needs to be 'pyx', 'py' or 'af'")
     angles = np.linspace(-np.pi/4, np.pi/4, Mtestangles, endpoint=False, dtype=E.real.dtype).reshape(1,-1)
     Ew = np.atleast_2d(E)
+    symbols = np.ascontiguousarray(symbols)
     ph_out = []
     for i in range(Ew.shape[0]):
         idx =  bps_fct(np.copy(Ew[i]), angles, symbols, N, **kwargs)
-- 
2.43.0


From f834ff54ea1be7bef6ee2649eb2466f07b8cd23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:14 +0000
Subject: [PATCH 91/91] fix: apply_filter accepts column-major arrays

---
 qampy/core/equalisation/equalisation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qampy/core/equalisation/equalisation.py b/qampy/core/equalisation/equalisation.py
index 5f1dce7..04a6235 100644
--- a/qampy/core/equalisation/equalisation.py
+++ b/qampy/core/equalisation/equalisation.py
@@ -163,8 +163,8 @@ def apply_filter(E, os, wxy, method="pyt", modes=None):
     Eest   : array_like
         equalised signal
     """
-    E = np.copy(E) # pythran requires non-reshaped arrays, copy to make sure they are
-    wxy = np.copy(wxy)
+    E = np.copy(E, order="C") # pythran requires non-reshaped arrays, copy to make sure they are
+    wxy = np.copy(wxy, order="C")
     if modes is None:
         modes = np.arange(wxy.shape[0])
     else:
-- 
2.43.0

