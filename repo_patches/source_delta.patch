From 875da7ab5a0b4f366488955e91dc762a5e255a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:31 +0000
Subject: [PATCH 01/30] fix: count all chunks of a transmission in full-metrics
 BER and chunk errors

---
 commpy/links.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commpy/links.py b/commpy/links.py
index 356f32d..5d56ee7 100644
--- a/commpy/links.py
+++ b/commpy/links.py
@@ -257,9 +257,9 @@ class LinkModel:
 
                 chunk_count[id_tx] += number_chunks_per_send
                 total_tx_send += 1
-            BERs[id_SNR] = bit_err.sum() / (total_tx_send * send_chunk)
+            BERs[id_SNR] = bit_err.sum() / (total_tx_send * send_chunk * number_chunks_per_send)
             BEs[id_SNR] = bit_err
-            CEs[id_SNR] = np.where(bit_err > 0, 1, 0)
+            CEs[id_SNR] = chunk_loss
             NCs[id_SNR] = chunk_count
             if BEs[id_SNR].sum() < err_min:
                 break
-- 
2.43.0


From fcbb5c622538df1178e8b8e12ac51f027d5a4b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:31 +0000
Subject: [PATCH 02/30] fix: binary channels never alter a bit with probability
 0 (random() may return 0.0)

---
 commpy/channels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commpy/channels.py b/commpy/channels.py
index d374755..03f4cbc 100644
--- a/commpy/channels.py
+++ b/commpy/channels.py
@@ -645,7 +645,7 @@ def bec(input_bits, p_e):
         Output bits from the channel.
     """
     output_bits = input_bits.copy()
-    output_bits[random(len(output_bits)) <= p_e] = -1
+    output_bits[random(len(output_bits)) < p_e] = -1
     return output_bits
 
 
@@ -667,7 +667,7 @@ def bsc(input_bits, p_t):
         Output bits from the channel.
     """
     output_bits = input_bits.copy()
-    flip_locs = (random(len(output_bits)) <= p_t)
+    flip_locs = (random(len(output_bits)) < p_t)
     output_bits[flip_locs] = 1 ^ output_bits[flip_locs]
     return output_bits
 
-- 
2.43.0


From aee45756267457ee234db6631fa77d403e447b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:31 +0000
Subject: [PATCH 03/30] fix: propagate through complex correlated MIMO channels
 whatever precision sqrtm returns

---
 commpy/channels.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/commpy/channels.py b/commpy/channels.py
index 03f4cbc..f3e007c 100644
--- a/commpy/channels.py
+++ b/commpy/channels.py
@@ -374,8 +374,9 @@ class MIMOFlatChannel(_FlatChannel):
             self.channel_gains = standard_normal(dims)
 
         # Add correlation and mean
-        einsum('ij,ajk,lk->ail', sqrtm(self.fading_param[2]), self.channel_gains, sqrtm(self.fading_param[1]),
-               out=self.channel_gains, optimize='greedy')
+        # (sqrtm may return an extended precision that could not be cast back into the gains)
+        einsum('ij,ajk,lk->ail', sqrtm(self.fading_param[2]).astype(self.channel_gains.dtype), self.channel_gains,
+               sqrtm(self.fading_param[1]).astype(self.channel_gains.dtype), out=self.channel_gains, optimize='greedy')
         self.channel_gains += self.fading_param[0]
 
         # Generate outputs
-- 
2.43.0


From b944773b1652562639f9fde1f067b31458610d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 04/30] fix: reject invalid correlation constants before
 changing the fading of a MIMO channel

---
 commpy/channels.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/commpy/channels.py b/commpy/channels.py
index f3e007c..18d3752 100644
--- a/commpy/channels.py
+++ b/commpy/channels.py
@@ -521,10 +521,12 @@ class MIMOFlatChannel(_FlatChannel):
                     If betat or betar are negative.
         """
         # Check inputs
-        if abs(t) - 1 > 1e-4:
+        if abs(abs(t) - 1) > 1e-4:
             raise ValueError('abs(t) must be one.')
-        if abs(r) - 1 > 1e-4:
+        if abs(abs(r) - 1) > 1e-4:
             raise ValueError('abs(r) must be one.')
+        if betat < 0 or betar < 0:
+            raise ValueError("beta must be positif")
 
         # Construct the exponent matrix
         expo_tx = fromiter((j - i for i in range(self.nb_tx) for j in range(self.nb_tx)), int, self.nb_tx ** 2)
@@ -603,10 +605,12 @@ class MIMOFlatChannel(_FlatChannel):
                     If betat or betar are negative.
         """
         # Check inputs
-        if abs(t) - 1 > 1e-4:
+        if abs(abs(t) - 1) > 1e-4:
             raise ValueError('abs(t) must be one.')
-        if abs(r) - 1 > 1e-4:
+        if abs(abs(r) - 1) > 1e-4:
             raise ValueError('abs(r) must be one.')
+        if betat < 0 or betar < 0:
+            raise ValueError("beta must be positif")
 
         # Scaling
         nb_antennas = mean.size
-- 
2.43.0


From 37607192fb7326da7833ffaeb8c06076fa0722c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 05/30] fix: decimal2bitarray returns a fresh array instead of
 the one held by its cache

---
 commpy/utilities.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/commpy/utilities.py b/commpy/utilities.py
index 5212aab..6c49be9 100644
--- a/commpy/utilities.py
+++ b/commpy/utilities.py
@@ -48,14 +48,13 @@ def dec2bitarray(in_number, bit_width):
     """
 
     if isinstance(in_number, (np.integer, int)):
-        return decimal2bitarray(in_number, bit_width).copy()
+        return decimal2bitarray(in_number, bit_width)
     result = np.zeros(bit_width * len(in_number), np.int8)
     for pox, number in enumerate(in_number):
-        result[pox * bit_width:(pox + 1) * bit_width] = decimal2bitarray(number, bit_width).copy()
+        result[pox * bit_width:(pox + 1) * bit_width] = decimal2bitarray(number, bit_width)
     return result
 
 
-@functools.lru_cache(maxsize=128, typed=False)
 def decimal2bitarray(number, bit_width):
     """
     Converts a positive integer to NumPy array of the specified size containing bits (0 and 1). This version is slightly
@@ -75,6 +74,12 @@ def decimal2bitarray(number, bit_width):
         Array containing the binary representation of all the input decimal(s).
 
     """
+    return _cached_decimal2bitarray(number, bit_width).copy()
+
+
+@functools.lru_cache(maxsize=128, typed=False)
+def _cached_decimal2bitarray(number, bit_width):
+    """ Cached part of decimal2bitarray: the returned array is shared and must be copied before leaving this module. """
     result = np.zeros(bit_width, np.int8)
     i = 1
     pox = 0
-- 
2.43.0


From 0be7327b9f16bfd43d805bc420ed1c9045f08724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 06/30] fix: soft demodulation gives exact finite LLRs far from
 the constellation and at low noise

---
 commpy/modulation.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/commpy/modulation.py b/commpy/modulation.py
index 4f90a52..50930e4 100644
--- a/commpy/modulation.py
+++ b/commpy/modulation.py
@@ -25,7 +25,7 @@ from bisect import insort
 import matplotlib.pyplot as plt
 from numpy import arange, array, zeros, pi, sqrt, log2, argmin, \
     hstack, repeat, tile, dot, shape, concatenate, exp, \
-    log, vectorize, empty, eye, kron, inf, full, abs, newaxis, minimum, clip, fromiter
+    logaddexp, vectorize, empty, eye, kron, inf, full, abs, newaxis, minimum, clip, fromiter
 from numpy.fft import fft, ifft
 from numpy.linalg import qr, norm
 from sympy.combinatorics.graycode import GrayCode
@@ -127,14 +127,15 @@ class Modem:
             for i in arange(len(input_symbols)):
                 current_symbol = input_symbols[i]
                 for bit_index in arange(self.num_bits_symbol):
-                    llr_num = 0
-                    llr_den = 0
+                    # Sums are computed in the log-domain to avoid underflow
+                    llr_num = -inf
+                    llr_den = -inf
                     for bit_value, symbol in enumerate(self._constellation):
                         if (bit_value >> bit_index) & 1:
-                            llr_num += exp((-abs(current_symbol - symbol) ** 2) / noise_var)
+                            llr_num = logaddexp(llr_num, (-abs(current_symbol - symbol) ** 2) / noise_var)
                         else:
-                            llr_den += exp((-abs(current_symbol - symbol) ** 2) / noise_var)
-                    demod_bits[i * self.num_bits_symbol + self.num_bits_symbol - 1 - bit_index] = log(llr_num / llr_den)
+                            llr_den = logaddexp(llr_den, (-abs(current_symbol - symbol) ** 2) / noise_var)
+                    demod_bits[i * self.num_bits_symbol + self.num_bits_symbol - 1 - bit_index] = llr_num - llr_den
         else:
             raise ValueError('demod_type must be "hard" or "soft"')
 
-- 
2.43.0


From 335a19667aadd7c3db97e2e0c4ad0daf6bc84347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 07/30] fix: OFDM modulation uses integer sizes (and supports
 an empty cyclic prefix)

---
 commpy/modulation.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/commpy/modulation.py b/commpy/modulation.py
index 50930e4..9860060 100644
--- a/commpy/modulation.py
+++ b/commpy/modulation.py
@@ -266,18 +266,18 @@ class QAMModem(Modem):
 def ofdm_tx(x, nfft, nsc, cp_length):
     """ OFDM Transmit signal generation """
 
-    nfft = float(nfft)
-    nsc = float(nsc)
-    cp_length = float(cp_length)
+    nfft = int(nfft)
+    nsc = int(nsc)
+    cp_length = int(cp_length)
     ofdm_tx_signal = array([])
 
     for i in range(0, shape(x)[1]):
         symbols = x[:, i]
         ofdm_sym_freq = zeros(nfft, dtype=complex)
-        ofdm_sym_freq[1:(nsc / 2) + 1] = symbols[nsc / 2:]
-        ofdm_sym_freq[-(nsc / 2):] = symbols[0:nsc / 2]
+        ofdm_sym_freq[1:(nsc // 2) + 1] = symbols[nsc // 2:]
+        ofdm_sym_freq[-(nsc // 2):] = symbols[0:nsc // 2]
         ofdm_sym_time = ifft(ofdm_sym_freq)
-        cp = ofdm_sym_time[-cp_length:]
+        cp = ofdm_sym_time[nfft - cp_length:]
         ofdm_tx_signal = concatenate((ofdm_tx_signal, cp, ofdm_sym_time))
 
     return ofdm_tx_signal
@@ -292,7 +292,7 @@ def ofdm_rx(y, nfft, nsc, cp_length):
     for i in range(0, num_ofdm_symbols):
         ofdm_symbol = y[i * nfft + (i + 1) * cp_length:(i + 1) * (nfft + cp_length)]
         symbols_freq = fft(ofdm_symbol)
-        x_hat[:, i] = concatenate((symbols_freq[-nsc / 2:], symbols_freq[1:(nsc / 2) + 1]))
+        x_hat[:, i] = concatenate((symbols_freq[-(nsc // 2):], symbols_freq[1:(nsc // 2) + 1]))
 
     return x_hat
 
-- 
2.43.0


From 929f270d0ac9dcb084fefbd3079e57a7758b7c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 08/30] fix: viterbi_decode no longer overwrites the end of the
 caller's received sequence

---
 commpy/channelcoding/convcode.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/commpy/channelcoding/convcode.py b/commpy/channelcoding/convcode.py
index d1dcf16..855d74a 100644
--- a/commpy/channelcoding/convcode.py
+++ b/commpy/channelcoding/convcode.py
@@ -725,11 +725,11 @@ def viterbi_decode(coded_bits, trellis, tb_depth=None, decoding_type='hard'):
         # Pad with '0'
         else:
             if decoding_type == 'hard':
-                r_codeword[:] = 0
+                r_codeword = np.zeros(n, 'int')
             elif decoding_type == 'soft':
-                r_codeword[:] = 0
+                r_codeword = np.zeros(n, 'int')
             elif decoding_type == 'unquantized':
-                r_codeword[:] = -1
+                r_codeword = -np.ones(n, 'int')
             else:
                 raise ValueError('The available decoding types are "hard", "soft" and "unquantized')
 
-- 
2.43.0


From 17cb3e56c4dbcadbc09cee4f8f70b08027f94df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 09/30] fix: viterbi_decode decodes every bit when the
 traceback is deeper than the received sequence

---
 commpy/channelcoding/convcode.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/commpy/channelcoding/convcode.py b/commpy/channelcoding/convcode.py
index 855d74a..066fe53 100644
--- a/commpy/channelcoding/convcode.py
+++ b/commpy/channelcoding/convcode.py
@@ -701,6 +701,9 @@ def viterbi_decode(coded_bits, trellis, tb_depth=None, decoding_type='hard'):
     if tb_depth is None:
         tb_depth = min(5 * total_memory, L)
 
+    # Number of steps in the trellis, the traceback cannot be deeper
+    n_steps = max(int((L + total_memory) / k) - 1, L // k)
+    tb_depth = max(2, min(tb_depth, n_steps + 1))
 
     path_metrics = np.full((trellis.number_states, 2), np.inf)
     path_metrics[0][0] = 0
@@ -708,7 +711,7 @@ def viterbi_decode(coded_bits, trellis, tb_depth=None, decoding_type='hard'):
     paths[0][0] = 0
 
     decoded_symbols = np.zeros([trellis.number_states, tb_depth], 'int')
-    decoded_bits = np.empty(int(math.ceil((L + tb_depth) / k) * k), 'int')
+    decoded_bits = np.zeros(max(L, n_steps * k), 'int')
     r_codeword = np.zeros(n, 'int')
 
     tb_count = 1
@@ -718,7 +721,7 @@ def viterbi_decode(coded_bits, trellis, tb_depth=None, decoding_type='hard'):
     if decoding_type == 'soft':
         coded_bits = coded_bits.clip(-500, 500)
 
-    for t in range(1, int((L+total_memory)/k)):
+    for t in range(1, n_steps + 1):
         # Get the received codeword corresponding to t
         if t <= L // k:
             r_codeword = coded_bits[(t-1)*n:t*n]
-- 
2.43.0


From c12bcfd2842f9a5411aab269c04b7abcef60aed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 10/30] fix: conv_encode returns only the bits kept by the
 puncture matrix

---
 commpy/channelcoding/convcode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commpy/channelcoding/convcode.py b/commpy/channelcoding/convcode.py
index 066fe53..b0bf5a5 100644
--- a/commpy/channelcoding/convcode.py
+++ b/commpy/channelcoding/convcode.py
@@ -555,7 +555,7 @@ def conv_encode(message_bits, trellis, termination = 'term', puncture_matrix=Non
             p_outbits[j] = outbits[i]
             j = j + 1
 
-    return p_outbits
+    return p_outbits[:j]
 
 
 def _where_c(inarray, rows, cols, search_value, index_array):
-- 
2.43.0


From cf3134f49c5c130349de8bba5274058a8aaa8341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 11/30] fix: Trellis construction and drawing leave the
 caller's generator matrix and state order unchanged

---
 commpy/channelcoding/convcode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/commpy/channelcoding/convcode.py b/commpy/channelcoding/convcode.py
index b0bf5a5..5ea4fe8 100644
--- a/commpy/channelcoding/convcode.py
+++ b/commpy/channelcoding/convcode.py
@@ -133,6 +133,7 @@ class Trellis:
                  DeprecationWarning)
 
             if code_type == 'rsc':
+                g_matrix = g_matrix.copy()
                 for i in range(self.k):
                     g_matrix[i][i] = feedback
 
@@ -344,7 +345,7 @@ class Trellis:
         ax = plt.axes([0,0,1,1])
         trellis_patches = []
 
-        state_order.reverse()
+        state_order = state_order[::-1]
 
         trellis_grid = self._generate_grid(trellis_length)
         state_patches = self._generate_states(trellis_length, trellis_grid,
-- 
2.43.0


From 12352ff5b7d7285f79912807188eed20adbe09fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 12/30] fix: viterbi_decode supports trellises with more inputs
 than states

---
 commpy/channelcoding/convcode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commpy/channelcoding/convcode.py b/commpy/channelcoding/convcode.py
index 5ea4fe8..45f2732 100644
--- a/commpy/channelcoding/convcode.py
+++ b/commpy/channelcoding/convcode.py
@@ -603,7 +603,7 @@ def _acs_traceback(r_codeword, trellis, decoding_type,
     next_state_table = trellis.next_state_table
     output_table = trellis.output_table
     pmetrics = np.empty(number_inputs)
-    index_array = np.empty([number_states, 2], 'int')
+    index_array = np.empty([number_states * number_inputs, 2], 'int')
 
     # Loop over all the current states (Time instant: t)
     for state_num in range(current_number_states):
-- 
2.43.0


From ec199540182f45ddae77f2c018c0d1978444dae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 13/30] fix: 802.11 generator polynomials (133, 171) are octal

---
 commpy/wifi80211.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commpy/wifi80211.py b/commpy/wifi80211.py
index 58ee435..10cef94 100644
--- a/commpy/wifi80211.py
+++ b/commpy/wifi80211.py
@@ -46,7 +46,7 @@ class Wifi80211:
     # "The encoder uses a 6-stage shift register."
     # (https://pdfs.semanticscholar.org/c63b/71e43dc23b17ca57267f3b769224c64d5e33.pdf p.19)
     memory = np.array(6, ndmin=1)
-    generator_matrix = np.array((133, 171), ndmin=2)  # from 802.11 standard, page 2295
+    generator_matrix = np.array((0o133, 0o171), ndmin=2)  # octal, from 802.11 standard, page 2295
 
     def get_modem(self) -> mod.Modem:
         """
@@ -105,7 +105,7 @@ class Wifi80211:
 
     @staticmethod
     def _get_trellis():
-        return cc.Trellis(Wifi80211.memory, Wifi80211.generator_matrix)
+        return cc.Trellis(Wifi80211.memory, Wifi80211.generator_matrix, polynomial_format='Matlab')
 
     def __init__(self, mcs: int):
         """
-- 
2.43.0


From 0b960801d12293baea0375a2d00770cfa1d9b283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 14/30] fix: generator matrix of an LDPC code with a single
 parity check

---
 commpy/channelcoding/ldpc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/commpy/channelcoding/ldpc.py b/commpy/channelcoding/ldpc.py
index b8fe73c..ac84d7d 100644
--- a/commpy/channelcoding/ldpc.py
+++ b/commpy/channelcoding/ldpc.py
@@ -45,7 +45,9 @@ def build_matrix(ldpc_code_params):
     parity_part = parity_check_matrix[:, :-n_cnodes]
 
     ldpc_code_params['parity_check_matrix'] = parity_check_matrix
-    ldpc_code_params['generator_matrix'] = splg.inv(systematic_part).dot(parity_part).tocsr()
+    # splg.inv returns a dense vector for a 1 x 1 matrix
+    inv_systematic_part = sp.csc_matrix(splg.inv(systematic_part))
+    ldpc_code_params['generator_matrix'] = inv_systematic_part.dot(parity_part).tocsr()
 
 
 def get_ldpc_code_params(ldpc_design_filename, compute_matrix=False):
-- 
2.43.0


From 7c631ca5f52e1ab559915c107128e710ded14f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 15/30] fix: LDPC generator matrices are exact (rounding errors
 gave invalid codewords)

---
 commpy/channelcoding/ldpc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/commpy/channelcoding/ldpc.py b/commpy/channelcoding/ldpc.py
index ac84d7d..e63e1f1 100644
--- a/commpy/channelcoding/ldpc.py
+++ b/commpy/channelcoding/ldpc.py
@@ -46,8 +46,11 @@ def build_matrix(ldpc_code_params):
 
     ldpc_code_params['parity_check_matrix'] = parity_check_matrix
     # splg.inv returns a dense vector for a 1 x 1 matrix
-    inv_systematic_part = sp.csc_matrix(splg.inv(systematic_part))
-    ldpc_code_params['generator_matrix'] = inv_systematic_part.dot(parity_part).tocsr()
+    inv_systematic_part = sp.csc_matrix(splg.inv(systematic_part.astype(float)))
+    # The generator matrix is binary: remove rounding errors of the inversion and even multiples
+    generator_matrix = inv_systematic_part.dot(parity_part).rint().tocsr()
+    generator_matrix.data %= 2
+    ldpc_code_params['generator_matrix'] = generator_matrix
 
 
 def get_ldpc_code_params(ldpc_design_filename, compute_matrix=False):
-- 
2.43.0


From f12a30e108b1ac6e7d1eba89ffde95b4c48ed995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 16/30] fix: soft Viterbi decoding of low-precision and integer
 LLRs no longer overflows (nor corrupts later calls)

---
 commpy/channelcoding/convcode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/commpy/channelcoding/convcode.py b/commpy/channelcoding/convcode.py
index 45f2732..0dcd6ae 100644
--- a/commpy/channelcoding/convcode.py
+++ b/commpy/channelcoding/convcode.py
@@ -720,7 +720,8 @@ def viterbi_decode(coded_bits, trellis, tb_depth=None, decoding_type='hard'):
     current_number_states = trellis.number_states
 
     if decoding_type == 'soft':
-        coded_bits = coded_bits.clip(-500, 500)
+        # Double precision is required: exp(500) overflows in lower precisions
+        coded_bits = coded_bits.astype(float).clip(-500, 500)
 
     for t in range(1, n_steps + 1):
         # Get the received codeword corresponding to t
-- 
2.43.0


From a9ccb9a906942b5d3870846b6f9efe11ae51a49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:38 +0000
Subject: [PATCH 17/30] fix: conv_encode terminates recursive codes in the zero
 state

---
 commpy/channelcoding/convcode.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/commpy/channelcoding/convcode.py b/commpy/channelcoding/convcode.py
index 0dcd6ae..530b1d5 100644
--- a/commpy/channelcoding/convcode.py
+++ b/commpy/channelcoding/convcode.py
@@ -541,10 +541,9 @@ def conv_encode(message_bits, trellis, termination = 'term', puncture_matrix=Non
         j += 1
 
     if code_type == 'rsc' and termination == 'term':
-        term_bits = dec2bitarray(current_state, trellis.total_memory)
-        term_bits = term_bits[::-1]
         for i in range(trellis.total_memory):
-            current_input = bitarray2dec(term_bits[i*k:(i+1)*k])
+            # The input that cancels the feedback shifts zeros in the registers, hence leads to the lowest state
+            current_input = next_state_table[current_state].argmin()
             current_output = output_table[current_state][current_input]
             outbits[j*n:(j+1)*n] = dec2bitarray(current_output, n)
             current_state = next_state_table[current_state][current_input]
-- 
2.43.0


From f51e01a0f68bd73142c81b26ea3edd3f133aa829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 18/30] fix: correlated channels still refuse complex
 correlations in a real channel

---
 commpy/channels.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/commpy/channels.py b/commpy/channels.py
index 18d3752..a7c5d3c 100644
--- a/commpy/channels.py
+++ b/commpy/channels.py
@@ -375,8 +375,9 @@ class MIMOFlatChannel(_FlatChannel):
 
         # Add correlation and mean
         # (sqrtm may return an extended precision that could not be cast back into the gains)
-        einsum('ij,ajk,lk->ail', sqrtm(self.fading_param[2]).astype(self.channel_gains.dtype), self.channel_gains,
-               sqrtm(self.fading_param[1]).astype(self.channel_gains.dtype), out=self.channel_gains, optimize='greedy')
+        dtype = self.channel_gains.dtype
+        einsum('ij,ajk,lk->ail', sqrtm(self.fading_param[2]).astype(dtype, casting='same_kind'), self.channel_gains,
+               sqrtm(self.fading_param[1]).astype(dtype, casting='same_kind'), out=self.channel_gains, optimize='greedy')
         self.channel_gains += self.fading_param[0]
 
         # Generate outputs
-- 
2.43.0


From 928650c0ad856fb638befb4f050c5132abecbf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 19/30] fix: normalised SISO fadings are not rejected because
 of rounding errors

---
 commpy/channels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commpy/channels.py b/commpy/channels.py
index a7c5d3c..8e2980c 100644
--- a/commpy/channels.py
+++ b/commpy/channels.py
@@ -227,7 +227,7 @@ class SISOFlatChannel(_FlatChannel):
 
     @fading_param.setter
     def fading_param(self, fading_param):
-        if fading_param[1] + absolute(fading_param[0]) ** 2 != 1:
+        if not absolute(fading_param[1] + absolute(fading_param[0]) ** 2 - 1) <= 1e-9:
             raise ValueError("With this parameters, the channel would add or remove energy.")
 
         self._fading_param = fading_param
-- 
2.43.0


From d467dd85b59b11476693d136aca83b75c336eca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 20/30] fix: channels recognise complex messages and fadings of
 every precision

---
 commpy/channels.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/commpy/channels.py b/commpy/channels.py
index 8e2980c..a6b1623 100644
--- a/commpy/channels.py
+++ b/commpy/channels.py
@@ -20,7 +20,7 @@ Channel Models (:mod:`commpy.channels`)
 from __future__ import division, print_function  # Python 2 compatibility
 
 from numpy import abs, sqrt, sum, zeros, identity, hstack, einsum, trace, kron, absolute, fromiter, array, exp, \
-    pi, cos
+    pi, cos, iscomplexobj
 from numpy.random import randn, random, standard_normal
 from scipy.linalg import sqrtm
 
@@ -202,7 +202,7 @@ class SISOFlatChannel(_FlatChannel):
                         If the noise standard deviation as not been set yet.
         """
 
-        if isinstance(msg[0], complex) and not self.isComplex:
+        if iscomplexobj(msg) and not self.isComplex:
             raise TypeError('Trying to propagate a complex message in a real channel.')
         nb_symb = len(msg)
 
@@ -231,7 +231,7 @@ class SISOFlatChannel(_FlatChannel):
             raise ValueError("With this parameters, the channel would add or remove energy.")
 
         self._fading_param = fading_param
-        self._isComplex = isinstance(fading_param[0], complex)
+        self._isComplex = iscomplexobj(fading_param[0])
 
     @property
     def k_factor(self):
@@ -351,7 +351,7 @@ class MIMOFlatChannel(_FlatChannel):
                         If the noise standard deviation noise_std as not been set yet.
         """
 
-        if isinstance(msg[0], complex) and not self.isComplex:
+        if iscomplexobj(msg) and not self.isComplex:
             raise TypeError('Trying to propagate a complex message in a real channel.')
         (nb_vect, mod) = divmod(len(msg), self.nb_tx)
 
@@ -467,7 +467,7 @@ class MIMOFlatChannel(_FlatChannel):
             raise ValueError("With this parameters, the channel would add or remove energy.")
 
         self._fading_param = fading_param
-        self._isComplex = isinstance(fading_param[0][0, 0], complex)
+        self._isComplex = iscomplexobj(fading_param[0])
 
     @property
     def k_factor(self):
@@ -704,7 +704,7 @@ def awgn(input_signal, snr_dB, rate=1.0):
     snr_linear = 10 ** (snr_dB / 10.0)
     noise_variance = avg_energy / (2 * rate * snr_linear)
 
-    if isinstance(input_signal[0], complex):
+    if iscomplexobj(input_signal):
         noise = (sqrt(noise_variance) * randn(len(input_signal))) + (sqrt(noise_variance) * randn(len(input_signal))*1j)
     else:
         noise = sqrt(2 * noise_variance) * randn(len(input_signal))
-- 
2.43.0


From 5dfda338c15d0607f49f763641c46480c8dc202f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 21/30] fix: MAP and turbo decoding no longer underflow at high
 SNR (metrics kept as logarithms)

---
 commpy/channelcoding/turbo.py | 53 ++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/commpy/channelcoding/turbo.py b/commpy/channelcoding/turbo.py
index 491f2c2..af7bae2 100644
--- a/commpy/channelcoding/turbo.py
+++ b/commpy/channelcoding/turbo.py
@@ -3,7 +3,7 @@
 
 """ Turbo Codes """
 
-from numpy import array, zeros, exp, log, empty
+from numpy import array, zeros, full, empty, inf, logaddexp
 
 from commpy.channelcoding import conv_encode
 from commpy.utilities import dec2bitarray
@@ -70,8 +70,8 @@ def _compute_branch_prob(code_bit_0, code_bit_1, rx_symbol_0, rx_symbol_1,
     x = rx_symbol_0 - code_symbol_0
     y = rx_symbol_1 - code_symbol_1
 
-    # Normalized branch transition probability
-    branch_prob = exp(-(x*x + y*y)/(2*noise_variance))
+    # Logarithm of the normalized branch transition probability
+    branch_prob = -(x*x + y*y)/(2*noise_variance)
 
     return branch_prob
 
@@ -103,12 +103,13 @@ def _backward_recursion(trellis, msg_length, noise_variance,
                                                    rx_symbol_0, rx_symbol_1,
                                                    noise_variance)
                 branch_probs[current_input, current_state, reverse_time_index-1] = branch_prob
-                b_state_metrics[current_state, reverse_time_index-1] += \
-                        (b_state_metrics[next_state, reverse_time_index] * branch_prob *
-                                priors[current_input, reverse_time_index-1])
+                b_state_metrics[current_state, reverse_time_index-1] = \
+                        logaddexp(b_state_metrics[current_state, reverse_time_index-1],
+                                  b_state_metrics[next_state, reverse_time_index] + branch_prob +
+                                  priors[current_input, reverse_time_index-1])
 
-        b_state_metrics[:,reverse_time_index-1] /= \
-            b_state_metrics[:,reverse_time_index-1].sum()
+        b_state_metrics[:,reverse_time_index-1] -= \
+            b_state_metrics[:,reverse_time_index-1].max()
 
 
 def _forward_recursion_decoding(trellis, mode, msg_length, noise_variance,
@@ -127,22 +128,22 @@ def _forward_recursion_decoding(trellis, mode, msg_length, noise_variance,
     # Forward Recursion
     for time_index in range(1, msg_length+1):
 
-        app[:] = 0
+        app[:] = -inf
         for current_state in range(number_states):
             for current_input in range(number_inputs):
                 next_state = next_state_table[current_state, current_input]
                 branch_prob = branch_probs[current_input, current_state, time_index-1]
                 # Compute the forward state metrics
-                f_state_metrics[next_state, 1] += (f_state_metrics[current_state, 0] *
-                                                   branch_prob *
-                                                   priors[current_input, time_index-1])
+                f_state_metrics[next_state, 1] = logaddexp(f_state_metrics[next_state, 1],
+                                                           f_state_metrics[current_state, 0] + branch_prob +
+                                                           priors[current_input, time_index-1])
 
                 # Compute APP
-                app[current_input] += (f_state_metrics[current_state, 0] *
-                                       branch_prob *
-                                       b_state_metrics[next_state, time_index])
+                app[current_input] = logaddexp(app[current_input],
+                                               f_state_metrics[current_state, 0] + branch_prob +
+                                               b_state_metrics[next_state, time_index])
 
-        lappr = L_int[time_index-1] + log(app[1]/app[0])
+        lappr = L_int[time_index-1] + app[1] - app[0]
         L_ext[time_index-1] = lappr
 
         if mode == 'decode':
@@ -152,12 +153,10 @@ def _forward_recursion_decoding(trellis, mode, msg_length, noise_variance,
                 decoded_bits[time_index-1] = 0
 
         # Normalization of the forward state metrics
-        f_state_metrics[:,1] = f_state_metrics[:,1]/f_state_metrics[:,1].sum()
+        f_state_metrics[:,1] = f_state_metrics[:,1] - f_state_metrics[:,1].max()
 
         f_state_metrics[:,0] = f_state_metrics[:,1]
-        f_state_metrics[:,1] = 0.0
-
-
+        f_state_metrics[:,1] = -inf
 
 
 def map_decode(sys_symbols, non_sys_symbols, trellis, noise_variance, L_int, mode='decode'):
@@ -216,14 +215,16 @@ def map_decode(sys_symbols, non_sys_symbols, trellis, noise_variance, L_int, mod
 
     msg_length = len(sys_symbols)
 
+    # All metrics are logarithms of probabilities to avoid underflows.
+
     # Initialize forward state metrics (alpha)
-    f_state_metrics = zeros([number_states, 2])
-    f_state_metrics[0][0] = 1
+    f_state_metrics = full([number_states, 2], -inf)
+    f_state_metrics[0][0] = 0
     #print f_state_metrics
 
     # Initialize backward state metrics (beta)
-    b_state_metrics = zeros([number_states, msg_length+1])
-    b_state_metrics[:,msg_length] = 1
+    b_state_metrics = full([number_states, msg_length+1], -inf)
+    b_state_metrics[:,msg_length] = 0
 
     # Initialize branch transition probabilities (gamma)
     branch_probs = zeros([number_inputs, number_states, msg_length+1])
@@ -236,8 +237,8 @@ def map_decode(sys_symbols, non_sys_symbols, trellis, noise_variance, L_int, mod
     L_ext = zeros(msg_length)
 
     priors = empty([2, msg_length])
-    priors[0,:] = 1/(1 + exp(L_int))
-    priors[1,:] = 1 - priors[0,:]
+    priors[0,:] = -logaddexp(0, L_int)
+    priors[1,:] = -logaddexp(0, -L_int)
 
     # Backward recursion
     _backward_recursion(trellis, msg_length, noise_variance, sys_symbols,
-- 
2.43.0


From e931938c847e707e4a476e6c20a5cb600ff90e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:45 +0000
Subject: [PATCH 22/30] fix: sum-product decoding of erased bits (null LLRs) no
 longer gives NaN

---
 commpy/channelcoding/ldpc.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/commpy/channelcoding/ldpc.py b/commpy/channelcoding/ldpc.py
index e63e1f1..956afaa 100644
--- a/commpy/channelcoding/ldpc.py
+++ b/commpy/channelcoding/ldpc.py
@@ -216,7 +216,11 @@ def ldpc_bp_decode(llr_vec, ldpc_code_params, decoder_algorithm, n_iters):
                 message_matrix.data *= .5
                 np.tanh(message_matrix.data, out=message_matrix.data)
 
-                # Runtime Warnings are expected when llr = 0. No warn should be raised as this case are expected.
+                # Null messages (llr = 0) are left out of the products
+                null_msgs = message_matrix.data == 0
+                message_matrix.data[null_msgs] = 1
+
+                # Runtime Warnings are expected when |llr| is large. No warn should be raised as this case are expected.
                 with np.errstate(divide='ignore', invalid='ignore'):
                     # Compute product as exponent of the sum of logarithm
                     log2_msg_matrix = message_matrix.astype(complex).copy()
@@ -231,6 +235,11 @@ def ldpc_bp_decode(llr_vec, ldpc_code_params, decoder_algorithm, n_iters):
                     message_matrix.data *= 2
                     message_matrix.data.clip(-_llr_max, _llr_max, message_matrix.data)
 
+                # Outgoing messages are null if another incoming message of the same check node is null
+                rows = message_matrix.tocoo().row
+                nb_null_msgs = np.bincount(rows, null_msgs)
+                message_matrix.data[nb_null_msgs[rows] > null_msgs] = 0
+
             elif decoder_algorithm == 'MSA':
                 message_matrix = message_matrix.tocsr()
                 for row_idx in range(message_matrix.shape[0]):
-- 
2.43.0


From 9bde8ffb9d9c8a3fa3712777b3cecce18d11b426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:45 +0000
Subject: [PATCH 23/30] fix: min-sum decoding of codes with a check of a single
 bit

---
 commpy/channelcoding/ldpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commpy/channelcoding/ldpc.py b/commpy/channelcoding/ldpc.py
index 956afaa..a8469e8 100644
--- a/commpy/channelcoding/ldpc.py
+++ b/commpy/channelcoding/ldpc.py
@@ -249,7 +249,7 @@ def ldpc_bp_decode(llr_vec, ldpc_code_params, decoder_algorithm, n_iters):
                     indexes = np.arange(len(row_data))
                     for j, i in enumerate(range(begin_row, end_row)):
                         other_val = row_data[indexes != j]
-                        message_matrix.data[i] = np.sign(other_val).prod() * np.abs(other_val).min()
+                        message_matrix.data[i] = np.sign(other_val).prod() * (np.abs(other_val).min() if len(other_val) else _llr_max)
             else:
                 raise NameError('Please input a valid decoder_algorithm string (meanning "SPA" or "MSA").')
 
-- 
2.43.0


From 5e99a7ad0c4ccb6db86350cd70310a5d0ff348ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:17 +0000
Subject: [PATCH 24/30] fix: K-best detection keeps the imaginary part of
 complex64 constellations

---
 commpy/modulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commpy/modulation.py b/commpy/modulation.py
index 9860060..df67761 100644
--- a/commpy/modulation.py
+++ b/commpy/modulation.py
@@ -25,7 +25,7 @@ from bisect import insort
 import matplotlib.pyplot as plt
 from numpy import arange, array, zeros, pi, sqrt, log2, argmin, \
     hstack, repeat, tile, dot, shape, concatenate, exp, \
-    logaddexp, vectorize, empty, eye, kron, inf, full, abs, newaxis, minimum, clip, fromiter
+    logaddexp, vectorize, empty, eye, kron, inf, full, abs, newaxis, minimum, clip, fromiter, iscomplexobj
 from numpy.fft import fft, ifft
 from numpy.linalg import qr, norm
 from sympy.combinatorics.graycode import GrayCode
@@ -378,7 +378,7 @@ def kbest(y, h, constellation, K, noise_var=0, output_type='hard', demode=None):
     m = len(constellation)
     nb_can = 1
 
-    if isinstance(constellation[0], complex):
+    if iscomplexobj(constellation):
         const_type = complex
     else:
         const_type = float
-- 
2.43.0


From e212dde10ffed755e64af9a9d233fb448e58e92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:01 +0000
Subject: [PATCH 25/30] fix: correlated fadings accept the integer correlation
 coefficients 1 and -1

---
 commpy/channels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commpy/channels.py b/commpy/channels.py
index a6b1623..9de325f 100644
--- a/commpy/channels.py
+++ b/commpy/channels.py
@@ -538,7 +538,7 @@ class MIMOFlatChannel(_FlatChannel):
         expo_rx = expo_rx.reshape(self.nb_rx, self.nb_rx)
 
         # Set fading
-        self.fading_param = zeros((self.nb_rx, self.nb_tx), complex), t ** expo_tx, r ** expo_rx
+        self.fading_param = zeros((self.nb_rx, self.nb_tx), complex), (1. * t) ** expo_tx, (1. * r) ** expo_rx
 
         # Update Rr and Rt
         self._update_corr_KBSM(betat, betar)
@@ -627,7 +627,7 @@ class MIMOFlatChannel(_FlatChannel):
         expo_rx = expo_rx.reshape(self.nb_rx, self.nb_rx)
 
         # Set fading
-        self.fading_param = mean, t ** expo_tx * NLOS_gain / nb_antennas, r ** expo_rx
+        self.fading_param = mean, (1. * t) ** expo_tx * NLOS_gain / nb_antennas, (1. * r) ** expo_rx
 
         # Update Rr and Rt
         self._update_corr_KBSM(betat, betar)
-- 
2.43.0


From 2a62f9ef38b0512b0f5ae8a9a92786e24fe88d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 26/30] fix: fully correlated channels no longer give NaN gains
 (square root of singular correlation matrices)

---
 commpy/channels.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/commpy/channels.py b/commpy/channels.py
index 9de325f..6be58bc 100644
--- a/commpy/channels.py
+++ b/commpy/channels.py
@@ -22,7 +22,7 @@ from __future__ import division, print_function  # Python 2 compatibility
 from numpy import abs, sqrt, sum, zeros, identity, hstack, einsum, trace, kron, absolute, fromiter, array, exp, \
     pi, cos, iscomplexobj
 from numpy.random import randn, random, standard_normal
-from scipy.linalg import sqrtm
+from scipy.linalg import eigh
 
 __all__ = ['SISOFlatChannel', 'MIMOFlatChannel', 'bec', 'bsc', 'awgn']
 
@@ -374,16 +374,21 @@ class MIMOFlatChannel(_FlatChannel):
             self.channel_gains = standard_normal(dims)
 
         # Add correlation and mean
-        # (sqrtm may return an extended precision that could not be cast back into the gains)
         dtype = self.channel_gains.dtype
-        einsum('ij,ajk,lk->ail', sqrtm(self.fading_param[2]).astype(dtype, casting='same_kind'), self.channel_gains,
-               sqrtm(self.fading_param[1]).astype(dtype, casting='same_kind'), out=self.channel_gains, optimize='greedy')
+        einsum('ij,ajk,lk->ail', self._sqrt_corr(self.fading_param[2]).astype(dtype, casting='same_kind'), self.channel_gains,
+               self._sqrt_corr(self.fading_param[1]).astype(dtype, casting='same_kind'), out=self.channel_gains, optimize='greedy')
         self.channel_gains += self.fading_param[0]
 
         # Generate outputs
         self.unnoisy_output = einsum('ijk,ik->ij', self.channel_gains, msg)
         return self.unnoisy_output + self.noises
 
+    @staticmethod
+    def _sqrt_corr(correlation):
+        """ Square root of a correlation matrix (positive semi-definite, possibly singular). """
+        eigval, eigvect = eigh(correlation)
+        return (eigvect * sqrt(eigval.clip(0))).dot(eigvect.conj().T)
+
     def _update_corr_KBSM(self, betat, betar):
 
         """
-- 
2.43.0


From d51c8477efbf6db71a791120dd8925578006883c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:05 +0000
Subject: [PATCH 27/30] fix: LDPC decoding leaves the caller's received LLRs
 unchanged

---
 commpy/channelcoding/ldpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commpy/channelcoding/ldpc.py b/commpy/channelcoding/ldpc.py
index a8469e8..790d3d4 100644
--- a/commpy/channelcoding/ldpc.py
+++ b/commpy/channelcoding/ldpc.py
@@ -188,7 +188,7 @@ def ldpc_bp_decode(llr_vec, ldpc_code_params, decoder_algorithm, n_iters):
     """
 
     # Clip LLRs
-    llr_vec.clip(-_llr_max, _llr_max, llr_vec)
+    llr_vec = llr_vec.clip(-_llr_max, _llr_max)
 
     # Build parity_check_matrix if required
     if ldpc_code_params.get('parity_check_matrix') is None:
-- 
2.43.0


From c4839d78afbeb1d148b5355a032f3a7109424e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:29 +0000
Subject: [PATCH 28/30] fix: Trellis no longer reads uninitialised memory for
 polynomials longer than their memory

---
 commpy/channelcoding/convcode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commpy/channelcoding/convcode.py b/commpy/channelcoding/convcode.py
index 530b1d5..517dfd4 100644
--- a/commpy/channelcoding/convcode.py
+++ b/commpy/channelcoding/convcode.py
@@ -224,7 +224,7 @@ class Trellis:
 
             # shift_regs holds on each column the state of a shift register.
             # The first row is the input of each shift reg.
-            shift_regs = np.empty((max_values_lign, self.k), np.int8)
+            shift_regs = np.zeros((max_values_lign, self.k), np.int8)
 
             # Compute the entries in the next state table and the output table
             for current_state in range(self.number_states):
-- 
2.43.0


From 0ff1b43adb7e39388262834d78a412fd36217286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:59 +0000
Subject: [PATCH 29/30] fix: decoders that are methods or callable objects get
 the arguments of their own prototype

---
 commpy/links.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/commpy/links.py b/commpy/links.py
index 5d56ee7..48f9b46 100644
--- a/commpy/links.py
+++ b/commpy/links.py
@@ -17,7 +17,7 @@ from __future__ import division  # Python 2 compatibility
 
 import math
 from fractions import Fraction
-from inspect import getfullargspec
+from inspect import Parameter, signature
 
 import numpy as np
 
@@ -213,7 +213,7 @@ class LinkModel:
         send_chunk = max(divider, send_chunk // divider * divider)
 
         receive_size = self.channel.nb_tx * self.num_bits_symbol
-        full_args_decoder = len(getfullargspec(self.decoder).args) > 1
+        full_args_decoder = _count_args(self.decoder) > 1
 
         # Computations
         for id_SNR in range(len(SNRs)):
@@ -303,7 +303,7 @@ class LinkModel:
         send_chunk = max(divider, send_chunk // divider * divider)
 
         receive_size = self.channel.nb_tx * self.num_bits_symbol
-        full_args_decoder = len(getfullargspec(self.decoder).args) > 1
+        full_args_decoder = _count_args(self.decoder) > 1
 
         # Computations
         for id_SNR in range(len(SNRs)):
@@ -342,6 +342,14 @@ class LinkModel:
         return BERs
 
 
+def _count_args(function):
+    """
+    Number of positional arguments the caller of function can give (self excluded for methods and callable objects).
+    """
+    positional = (Parameter.POSITIONAL_ONLY, Parameter.POSITIONAL_OR_KEYWORD)
+    return sum(param.kind in positional for param in signature(function).parameters.values())
+
+
 def idd_decoder(detector, decoder, decision, n_it):
     """
     Produce a decoder function that model the specified MIMO iterative detection and decoding (IDD) process.
-- 
2.43.0


From cb1c4fcc0ae738e9d44f957b380e84a2f9361012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:23 +0000
Subject: [PATCH 30/30] fix: raised cosine filters recognise their singular
 points up to rounding

Whether t hits Ts/(2 alpha) (Ts/(4 alpha) for the root raised cosine) was decided by exact floating-point equality. With many symbol and
sampling rates (3.84 MHz with 4 samples per symbol and roll-off 0.2) the time index is off by one rounding error, the general formula
divides rounding errors by each other, and the tap comes out wrong (-0.018 instead of 0.1).
---
 commpy/filters.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/commpy/filters.py b/commpy/filters.py
index 8a5f64f..9ea5793 100644
--- a/commpy/filters.py
+++ b/commpy/filters.py
@@ -57,9 +57,7 @@ def rcosfilter(N, alpha, Ts, Fs):
         t = (x-N/2)*T_delta
         if t == 0.0:
             h_rc[x] = 1.0
-        elif alpha != 0 and t == Ts/(2*alpha):
-            h_rc[x] = (np.pi/4)*(np.sin(np.pi*t/Ts)/(np.pi*t/Ts))
-        elif alpha != 0 and t == -Ts/(2*alpha):
+        elif alpha != 0 and abs(1 - 2*alpha*abs(t)/Ts) < 1e-8:
             h_rc[x] = (np.pi/4)*(np.sin(np.pi*t/Ts)/(np.pi*t/Ts))
         else:
             h_rc[x] = (np.sin(np.pi*t/Ts)/(np.pi*t/Ts))* \
@@ -105,10 +103,7 @@ def rrcosfilter(N, alpha, Ts, Fs):
         t = (x-N/2)*T_delta
         if t == 0.0:
             h_rrc[x] = 1.0 - alpha + (4*alpha/np.pi)
-        elif alpha != 0 and t == Ts/(4*alpha):
-            h_rrc[x] = (alpha/np.sqrt(2))*(((1+2/np.pi)* \
-                    (np.sin(np.pi/(4*alpha)))) + ((1-2/np.pi)*(np.cos(np.pi/(4*alpha)))))
-        elif alpha != 0 and t == -Ts/(4*alpha):
+        elif alpha != 0 and abs(1 - 4*alpha*abs(t)/Ts) < 1e-8:
             h_rrc[x] = (alpha/np.sqrt(2))*(((1+2/np.pi)* \
                     (np.sin(np.pi/(4*alpha)))) + ((1-2/np.pi)*(np.cos(np.pi/(4*alpha)))))
         else:
-- 
2.43.0

