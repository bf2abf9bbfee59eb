From 70f0c619e3f620cc461fa836dd5445a230ece000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:49 +0000
Subject: [PATCH 01/97] fix: derive coding chain block sizes from all enabled
 encoders

The block sizes reported by EncoderManager were zero or inconsistent if the
code block size of a step does not divide the next step's bit block size, and
decoding the padded code of a multi-step chain was refused.
---
 hermespy/fec/coding.py | 65 ++++++++++++++++++++----------------------
 1 file changed, 31 insertions(+), 34 deletions(-)

diff --git a/hermespy/fec/coding.py b/hermespy/fec/coding.py
index 7242f9f..e64fb5a 100644
--- a/hermespy/fec/coding.py
+++ b/hermespy/fec/coding.py
@@ -2,7 +2,7 @@
 
 from __future__ import annotations
 from abc import ABC, abstractmethod
-from math import ceil
+from math import ceil, lcm
 from typing_extensions import override
 
 import numpy as np
@@ -315,13 +315,14 @@ class EncoderManager(RandomNode, Serializable):
             RuntimeError: If truncating is required but disabled by `allow_truncating`.
         """
 
-        bit_block_size = self.bit_block_size
-        code_block_size = self.code_block_size
-        # Float to int conversion floors by default
-        num_blocks = int(encoded_bits.shape[0] / self.code_block_size)
-
         if num_data_bits is not None:
-            num_data_bits_full = num_blocks * bit_block_size
+            # Number of data bits recovered by the chain of decoding steps
+            num_data_bits_full = encoded_bits.shape[0]
+            for encoder in reversed(self._encoders):
+                if encoder.enabled:
+                    num_data_bits_full = (
+                        num_data_bits_full // encoder.code_block_size * encoder.bit_block_size
+                    )
 
             if num_data_bits > num_data_bits_full:
                 raise RuntimeError(
@@ -333,7 +334,8 @@ class EncoderManager(RandomNode, Serializable):
                 raise RuntimeError("Data truncating is required but not allowed")
 
         else:
-            num_data_bits = num_blocks * bit_block_size
+            bit_block_size, code_block_size = self.__block_sizes()
+            num_data_bits = encoded_bits.shape[0] // code_block_size * bit_block_size
 
         data_state = encoded_bits.copy()
 
@@ -372,28 +374,7 @@ class EncoderManager(RandomNode, Serializable):
         or the number of output bits during receive decoding.
         Referred to as :math:`K` within the respective equations."""
 
-        if len(self._encoders) < 1:
-            return 1
-
-        encoder_index = 0
-        block_size = 1
-        num_bits = 1
-
-        for encoder_index, encoder in enumerate(self._encoders):
-            if encoder.enabled:
-                block_size = encoder.bit_block_size
-                num_bits = encoder.code_block_size
-                break
-
-        for encoder in self._encoders[encoder_index + 1 :]:
-            if not encoder.enabled:
-                continue
-
-            repetitions = int(encoder.bit_block_size / num_bits)
-            block_size *= repetitions
-            num_bits *= int(repetitions / encoder.rate)
-
-        return block_size
+        return self.__block_sizes()[0]
 
     @property
     def code_block_size(self) -> int:
@@ -404,11 +385,27 @@ class EncoderManager(RandomNode, Serializable):
         Referred to as :math:`L` within the respective equations.
         """
 
-        for encoder in reversed(self.encoders):
-            if encoder.enabled:
-                return encoder.code_block_size
+        return self.__block_sizes()[1]
+
+    def __block_sizes(self) -> tuple[int, int]:
+        """Compute the block sizes of the full coding chain.
+
+        The smallest number of data bits that passes through all enabled coding steps without
+        requiring any padding, and the number of code bits it is encoded to.
+
+        Returns: Number of data bits and number of code bits.
+        """
+
+        num_bits, num_code_bits = 1, 1
+        for encoder in self._encoders:
+            if not encoder.enabled:
+                continue
+
+            num_step_bits = lcm(num_code_bits, encoder.bit_block_size)
+            num_bits *= num_step_bits // num_code_bits
+            num_code_bits = num_step_bits // encoder.bit_block_size * encoder.code_block_size
 
-        return 1
+        return num_bits, num_code_bits
 
     def __execution_order(self) -> list[Encoder]:
         """Sort the encoders into an order of execution.
-- 
2.43.0


From 8dd26ab5715cc9ce138668bacb7e199958ce02e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:49 +0000
Subject: [PATCH 02/97] fix: cyclic redundancy check without check bits decodes
 to an empty block

---
 hermespy/fec/cyclic_redundancy_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/fec/cyclic_redundancy_check.py b/hermespy/fec/cyclic_redundancy_check.py
index 254b53d..4ab0a5c 100644
--- a/hermespy/fec/cyclic_redundancy_check.py
+++ b/hermespy/fec/cyclic_redundancy_check.py
@@ -64,7 +64,7 @@ class CyclicRedundancyCheck(Encoder, RandomNode, Serializable):
         return np.append(data, self._rng.integers(0, 2, self.__check_block_size))
 
     def decode(self, code: np.ndarray) -> np.ndarray:
-        return code[: -self.__check_block_size]
+        return code[: len(code) - self.__check_block_size]
 
     @property
     def bit_block_size(self) -> int:
-- 
2.43.0


From 8d27083ca2e2b4fb34d49e94e9ef027f0b67833d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:49 +0000
Subject: [PATCH 03/97] fix: 802.11a scrambler shares its register between
 encoding and decoding

Decoding the code produced by the same scrambler did not recover the data,
since the descrambling sequence continued where the scrambling sequence ended.
---
 hermespy/fec/scrambler.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/hermespy/fec/scrambler.py b/hermespy/fec/scrambler.py
index 1ecda1c..5522472 100644
--- a/hermespy/fec/scrambler.py
+++ b/hermespy/fec/scrambler.py
@@ -192,6 +192,7 @@ class Scrambler80211a(Encoder, Serializable):
 
     __seed: np.ndarray
     __queue: deque
+    __receive_queue: deque
     __default_seed: np.ndarray = np.array([0, 1, 0, 1, 1, 0, 1], dtype=int)
 
     def __init__(self, seed: np.ndarray | None = None) -> None:
@@ -209,6 +210,7 @@ class Scrambler80211a(Encoder, Serializable):
         # The default seed is all zeros
         self.__seed = self.__default_seed.copy() if seed is None else seed
         self.__queue = deque(self.__seed, 7)
+        self.__receive_queue = deque(self.__seed, 7)
 
     @property
     def seed(self) -> np.ndarray:
@@ -239,41 +241,51 @@ class Scrambler80211a(Encoder, Serializable):
 
         self.__seed = value
         self.__queue = deque(self.__seed, 7)
+        self.__receive_queue = deque(self.__seed, 7)
 
     def encode(self, data: np.ndarray) -> np.ndarray:
-        code = np.array([self.__scramble_bit(bit) for bit in data], dtype=int)
+        code = np.array([self.__scramble_bit(bit, self.__queue) for bit in data], dtype=int)
         return code
 
     def decode(self, code: np.ndarray) -> np.ndarray:
-        data = np.array([self.__scramble_bit(bit) for bit in code], dtype=int)
+        data = np.array([self.__scramble_bit(bit, self.__receive_queue) for bit in code], dtype=int)
         return data
 
-    def __forward_code_bit(self) -> int:
+    def __forward_code_bit(self, queue: deque | None = None) -> int:
         """Generate the next bit in the scrambling sequence.
 
         The sequence depends on the configured seed.
 
+        Args:
+            queue:
+                Register queue to be forwarded.
+                If not specified, the transmit register is assumed.
+
         Returns:
             int:
                 The next bit within the scrambling sequence
         """
 
-        code_bit = (self.__queue[3] + self.__queue[6]) % 2
-        self.__queue.appendleft(code_bit)
+        queue = self.__queue if queue is None else queue
+        code_bit = (queue[3] + queue[6]) % 2
+        queue.appendleft(code_bit)
 
         return code_bit
 
-    def __scramble_bit(self, bit: int) -> int:
+    def __scramble_bit(self, bit: int, queue: deque) -> int:
         """Scramble a given bit.
 
         Args:
             bit(int):
                 The bit to be scrambled.
 
+            queue(deque):
+                Register queue generating the scrambling sequence.
+
         Returns:
             int: The scrambled bit."""
 
-        return (self.__forward_code_bit() + bit) % 2
+        return (self.__forward_code_bit(queue) + bit) % 2
 
     @property
     def bit_block_size(self) -> int:
-- 
2.43.0


From f282336888a619fa005d212125e467fc54710cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:59 +0000
Subject: [PATCH 04/97] fix: serialization of scramblers drops the scrambling
 seed

---
 hermespy/fec/scrambler.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/hermespy/fec/scrambler.py b/hermespy/fec/scrambler.py
index 5522472..4b531b5 100644
--- a/hermespy/fec/scrambler.py
+++ b/hermespy/fec/scrambler.py
@@ -132,6 +132,7 @@ class Scrambler3GPP(Encoder, Serializable):
     See section 7.3.1.1 of the respective technical standard :footcite:t:`2018:ts138211` for details.
     """
 
+    __seed: np.ndarray
     __transmit_rng: PseudoRandomGenerator
     __receive_rng: PseudoRandomGenerator
     __default_seed = np.array([0, 1, 0, 1, 1, 0, 1], int)
@@ -149,10 +150,10 @@ class Scrambler3GPP(Encoder, Serializable):
         Encoder.__init__(self)
 
         # Initialize the pseudo random number generator
-        seed = self.__default_seed.copy() if seed is None else seed
+        self.__seed = self.__default_seed.copy() if seed is None else seed
 
-        self.__transmit_rng = PseudoRandomGenerator(seed)
-        self.__receive_rng = PseudoRandomGenerator(seed)
+        self.__transmit_rng = PseudoRandomGenerator(self.__seed)
+        self.__receive_rng = PseudoRandomGenerator(self.__seed)
 
     def encode(self, data: np.ndarray) -> np.ndarray:
         codeword = self.__transmit_rng.generate_sequence(data.shape[0])
@@ -176,12 +177,12 @@ class Scrambler3GPP(Encoder, Serializable):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
-        return
+        process.serialize_array(self.__seed, "seed")
 
     @override
     @classmethod
     def Deserialize(cls, process: DeserializationProcess) -> Scrambler3GPP:
-        return cls()
+        return cls(process.deserialize_array("seed", int))
 
 
 class Scrambler80211a(Encoder, Serializable):
@@ -297,9 +298,9 @@ class Scrambler80211a(Encoder, Serializable):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
-        return
+        process.serialize_array(self.seed, "seed")
 
     @override
     @classmethod
     def Deserialize(cls, process: DeserializationProcess) -> Scrambler80211a:
-        return cls()
+        return cls(process.deserialize_array("seed", int))
-- 
2.43.0


From 278c3f27486201be13b0ca69f6d770580b6a5f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 05/97] fix: precoding sequences passed to constructors end up
 in reversed order

Serialization round trips reversed the configured chains. Passing coding
configuration objects instead of sequences duplicated their steps, or never
terminated.
---
 hermespy/core/device.py |  4 ++--
 hermespy/modem/modem.py | 27 +++++++++++++--------------
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/hermespy/core/device.py b/hermespy/core/device.py
index b8ec5e7..5be70b5 100644
--- a/hermespy/core/device.py
+++ b/hermespy/core/device.py
@@ -1169,7 +1169,7 @@ class Device(ABC, Generic[DST], Transformable, RandomNode, Serializable):
                 else transmit_encoding
             )
             for encoder in _tx_encoders:
-                self.__transmit_coding[-1] = encoder
+                self.__transmit_coding[len(self.__transmit_coding)] = encoder
 
         # Initialize digital receive decoding layer
         self.__receive_coding = ReceiveSignalCoding()
@@ -1180,7 +1180,7 @@ class Device(ABC, Generic[DST], Transformable, RandomNode, Serializable):
                 else receive_decoding
             )
             for decoder in _rx_decoders:
-                self.__receive_coding[-1] = decoder
+                self.__receive_coding[len(self.__receive_coding)] = decoder
 
         # Initialize other various class attributes
         self.__input_callbacks = Hookable()
diff --git a/hermespy/modem/modem.py b/hermespy/modem/modem.py
index 5046aed..cf68f23 100644
--- a/hermespy/modem/modem.py
+++ b/hermespy/modem/modem.py
@@ -541,8 +541,7 @@ class BaseModem(Generic[CWT], RandomNode, Serializable):
             self.encoder_manager = encoding
         else:
             self.encoder_manager = EncoderManager()
-        if encoding is not None:
-            for encoder in encoding.encoders if isinstance(encoding, EncoderManager) else encoding:
+            for encoder in encoding or []:
                 self.encoder_manager.add_encoder(encoder)
 
         # Initialize the remaining attributes
@@ -694,18 +693,18 @@ class TransmittingModemBase(Generic[CWT], BaseModem[CWT]):
             self.__transmit_symbol_coding = transmit_symbol_coding
         else:
             self.__transmit_symbol_coding = TransmitSymbolCoding()
-        if transmit_symbol_coding is not None:
-            for transmit_symbol_encoder in transmit_symbol_coding:
-                self.__transmit_symbol_coding[-1] = transmit_symbol_encoder
+            for transmit_symbol_encoder in transmit_symbol_coding or []:
+                coding = self.__transmit_symbol_coding
+                coding[len(coding)] = transmit_symbol_encoder
 
         # Initialize transmit signal coding configuration
         if isinstance(transmit_signal_coding, TransmitSignalCoding):
             self.__transmit_signal_coding = transmit_signal_coding
         else:
             self.__transmit_signal_coding = TransmitSignalCoding()
-        if transmit_signal_coding is not None:
-            for transmit_signal_encoder in transmit_signal_coding:
-                self.__transmit_signal_coding[-1] = transmit_signal_encoder
+            for transmit_signal_encoder in transmit_signal_coding or []:
+                coding = self.__transmit_signal_coding
+                coding[len(coding)] = transmit_signal_encoder
 
         # Initialize remaining attributes
         self.bits_source = RandomBitsSource() if bits_source is None else bits_source
@@ -1049,18 +1048,18 @@ class ReceivingModemBase(Generic[CWT], BaseModem[CWT]):
             self.__receive_symbol_coding = receive_symbol_coding
         else:
             self.__receive_symbol_coding = ReceiveSymbolCoding()
-        if receive_symbol_coding is not None:
-            for receive_symbol_decoder in receive_symbol_coding:
-                self.__receive_symbol_coding[-1] = receive_symbol_decoder
+            for receive_symbol_decoder in receive_symbol_coding or []:
+                coding = self.__receive_symbol_coding
+                coding[len(coding)] = receive_symbol_decoder
 
         # Initialize receive signal coding configuration
         if isinstance(receive_signal_coding, ReceiveSignalCoding):
             self.__receive_signal_coding = receive_signal_coding
         else:
             self.__receive_signal_coding = ReceiveSignalCoding()
-        if receive_signal_coding is not None:
-            for receive_signal_decoder in receive_signal_coding:
-                self.__receive_signal_coding[-1] = receive_signal_decoder
+            for receive_signal_decoder in receive_signal_coding or []:
+                coding = self.__receive_signal_coding
+                coding[len(coding)] = receive_signal_decoder
 
     @property
     def receive_signal_coding(self) -> ReceiveSignalCoding:
-- 
2.43.0


From b59db1ce634619b9e5ef548df996820e4bc642c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 06/97] fix: channel decoding processes bits padded by the
 transmitter

Stateful coding steps such as scramblers lost their synchronization to
the transmitter for all frames following a padded frame.
---
 hermespy/fec/coding.py | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/hermespy/fec/coding.py b/hermespy/fec/coding.py
index e64fb5a..0c38180 100644
--- a/hermespy/fec/coding.py
+++ b/hermespy/fec/coding.py
@@ -315,14 +315,14 @@ class EncoderManager(RandomNode, Serializable):
             RuntimeError: If truncating is required but disabled by `allow_truncating`.
         """
 
+        encoders = [encoder for encoder in self._encoders if encoder.enabled]
+
         if num_data_bits is not None:
-            # Number of data bits recovered by the chain of decoding steps
+            # Number of data bits recovered by the full chain of decoding steps
             num_data_bits_full = encoded_bits.shape[0]
-            for encoder in reversed(self._encoders):
-                if encoder.enabled:
-                    num_data_bits_full = (
-                        num_data_bits_full // encoder.code_block_size * encoder.bit_block_size
-                    )
+            for encoder in reversed(encoders):
+                num_blocks = num_data_bits_full // encoder.code_block_size
+                num_data_bits_full = num_blocks * encoder.bit_block_size
 
             if num_data_bits > num_data_bits_full:
                 raise RuntimeError(
@@ -337,22 +337,24 @@ class EncoderManager(RandomNode, Serializable):
             bit_block_size, code_block_size = self.__block_sizes()
             num_data_bits = encoded_bits.shape[0] // code_block_size * bit_block_size
 
-        data_state = encoded_bits.copy()
+        # Number of bits fed into each coding step during encoding,
+        # anything beyond was padded by the transmitter
+        num_step_bits = [num_data_bits]
+        for encoder in encoders:
+            num_blocks = ceil(num_step_bits[-1] / encoder.bit_block_size)
+            num_step_bits.append(num_blocks * encoder.code_block_size)
 
-        # Loop through the encoders decode the code using the output of the last encoder as input to the next
-        for encoder in reversed(self._encoders):
-            # Skip if the respective encoder is disabled
-            if not encoder.enabled:
-                continue
+        data_state = encoded_bits[: num_step_bits.pop()].copy()
 
+        # Loop through the encoders decode the code using the output of the last encoder as input to the next
+        for encoder in reversed(encoders):
             code_block_size = encoder.code_block_size
             data_block_size = encoder.bit_block_size
 
             # Compute the number of blocks within the code for this coding step
-            num_blocks = int(len(data_state) / code_block_size)
+            num_blocks = len(data_state) // code_block_size
 
-            # Truncate if allowed, otherwise throw an exception
-            code_state = data_state[: num_blocks * code_block_size]
+            code_state = data_state
             data_state = np.empty(num_blocks * data_block_size, dtype=bool)
 
             # Decode all blocks sequentially
@@ -363,8 +365,11 @@ class EncoderManager(RandomNode, Serializable):
                     )
                 )
 
+            # Drop the bits padded in front of this coding step
+            data_state = data_state[: num_step_bits.pop()]
+
         # Return resulting data
-        return data_state[:num_data_bits]
+        return data_state
 
     @property
     def bit_block_size(self) -> int:
-- 
2.43.0


From 0f827e97cc111375ac84a6ddf7c9d31c094ad12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:59 +0000
Subject: [PATCH 07/97] fix: number of data bits fitting into the code of
 unaligned coding chains

A coding chain whose steps do not align in size reported more data bits than
fit into the code, or less than a full padding block, so that encoding failed.
---
 hermespy/fec/coding.py | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/hermespy/fec/coding.py b/hermespy/fec/coding.py
index 0c38180..13d9fa5 100644
--- a/hermespy/fec/coding.py
+++ b/hermespy/fec/coding.py
@@ -2,7 +2,7 @@
 
 from __future__ import annotations
 from abc import ABC, abstractmethod
-from math import ceil, lcm
+from math import ceil
 from typing_extensions import override
 
 import numpy as np
@@ -318,11 +318,7 @@ class EncoderManager(RandomNode, Serializable):
         encoders = [encoder for encoder in self._encoders if encoder.enabled]
 
         if num_data_bits is not None:
-            # Number of data bits recovered by the full chain of decoding steps
-            num_data_bits_full = encoded_bits.shape[0]
-            for encoder in reversed(encoders):
-                num_blocks = num_data_bits_full // encoder.code_block_size
-                num_data_bits_full = num_blocks * encoder.bit_block_size
+            num_data_bits_full = self.required_num_data_bits(encoded_bits.shape[0])
 
             if num_data_bits > num_data_bits_full:
                 raise RuntimeError(
@@ -334,8 +330,7 @@ class EncoderManager(RandomNode, Serializable):
                 raise RuntimeError("Data truncating is required but not allowed")
 
         else:
-            bit_block_size, code_block_size = self.__block_sizes()
-            num_data_bits = encoded_bits.shape[0] // code_block_size * bit_block_size
+            num_data_bits = self.required_num_data_bits(encoded_bits.shape[0])
 
         # Number of bits fed into each coding step during encoding,
         # anything beyond was padded by the transmitter
@@ -395,22 +390,19 @@ class EncoderManager(RandomNode, Serializable):
     def __block_sizes(self) -> tuple[int, int]:
         """Compute the block sizes of the full coding chain.
 
-        The smallest number of data bits that passes through all enabled coding steps without
-        requiring any padding, and the number of code bits it is encoded to.
+        Code blocks are the smallest integer multiple of the last enabled coding step's
+        code blocks carrying at least a single data block.
 
-        Returns: Number of data bits and number of code bits.
+        Returns: Number of data bits and number of code bits per block.
         """
 
-        num_bits, num_code_bits = 1, 1
+        num_step_bits = 1
         for encoder in self._encoders:
-            if not encoder.enabled:
-                continue
-
-            num_step_bits = lcm(num_code_bits, encoder.bit_block_size)
-            num_bits *= num_step_bits // num_code_bits
-            num_code_bits = num_step_bits // encoder.bit_block_size * encoder.code_block_size
+            if encoder.enabled:
+                num_step_blocks = ceil(num_step_bits / encoder.bit_block_size)
+                num_step_bits = num_step_blocks * encoder.code_block_size
 
-        return num_bits, num_code_bits
+        return self.required_num_data_bits(num_step_bits), num_step_bits
 
     def __execution_order(self) -> list[Encoder]:
         """Sort the encoders into an order of execution.
@@ -450,8 +442,12 @@ class EncoderManager(RandomNode, Serializable):
         Returns: The required number of input bits.
         """
 
-        num_blocks = int(num_code_bits / self.code_block_size)
-        return self.bit_block_size * num_blocks
+        num_bits = num_code_bits
+        for encoder in reversed(self._encoders):
+            if encoder.enabled:
+                num_bits = num_bits // encoder.code_block_size * encoder.bit_block_size
+
+        return num_bits
 
     def __getitem__(self, item: int) -> Encoder:
         """Select an encoder from the current configuration chain.
-- 
2.43.0


From 710d5aa4913b875fc1e8ba515d97913ceeabcedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:08 +0000
Subject: [PATCH 08/97] fix: a single signal block with an offset loses its
 offset during signal creation

---
 hermespy/core/signal_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index 9cc47e1..e64c166 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -895,7 +895,9 @@ class Signal(ABC, Iterable, Serializable):
             SparseSignal if samples argument is a list of ndarrays. DenseSignal otherwise.
         """
 
-        if isinstance(samples, Sequence) and len(samples) != 1:
+        if isinstance(samples, Sequence) and (
+            len(samples) != 1 or getattr(samples[0], "offset", 0) > 0
+        ):
             return SparseSignal(samples, sampling_rate, carrier_frequency, noise_power, delay)
 
         dense_delay = delay
-- 
2.43.0


From b85553c2b8257f57f77272586d788db4f64a62fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:08 +0000
Subject: [PATCH 09/97] fix: scaling of constant and all-zero signals during
 interleaving

---
 hermespy/core/signal_model.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index e64c166..6574513 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -1141,11 +1141,10 @@ class Signal(ABC, Iterable, Serializable):
         samples = self.to_dense().copy().view(np.ndarray)
 
         # Scale samples if required
-        if (
-            scale and samples.shape[1] > 0 and (samples.max() > 1.0 or samples.min() < 1.0)
-        ):  # pragma: no cover
-            samples /= np.max(abs(samples))
-            samples *= np.iinfo(data_type).max
+        if scale:
+            peak = np.max(abs(samples), initial=0.0)
+            if peak > 0.0:
+                samples *= np.iinfo(data_type).max / peak
 
         return samples.view(np.float64).astype(data_type)
 
-- 
2.43.0


From 58898f428c73ad6c3a75cec1eb4852db1fe8dede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:09 +0000
Subject: [PATCH 10/97] fix: energy, power and stream cancellation of sparse
 signals

---
 hermespy/core/signal_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index 6574513..97bd44d 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -1716,12 +1716,12 @@ class SparseSignal(Signal):
     @property
     @override
     def energy(self) -> np.ndarray:
-        return np.sum([b.energy for b in self.blocks])
+        return np.sum([b.energy for b in self.blocks], axis=0)
 
     @property
     @override
     def power(self) -> np.ndarray:
-        return np.mean([b.power for b in self.blocks], axis=0)
+        return self.energy / self.num_samples
 
     @override
     def view(self, dtype: type[AT]) -> AT:
@@ -1765,7 +1765,7 @@ class SparseSignal(Signal):
             return [SignalBlock(block.shape[0], block.shape[1], offset, block.tobytes())]
 
         # Find nonzero columns indices
-        nonzero_cols_idx = np.sum(block.view(np.ndarray), axis=0).nonzero()[
+        nonzero_cols_idx = np.any(block.view(np.ndarray), axis=0).nonzero()[
             0
         ]  # [3, 4, 5, 6, 12, 13, 14, 16, 17, ...]
         if len(nonzero_cols_idx) == 0:
-- 
2.43.0


From b369af1c5624b3b58759c8a4b7792c706fcfc54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 11/97] fix: superposition and slicing of delayed, sparse and
 multi-stream signals

---
 hermespy/core/signal_model.py | 418 ++++++++++++++--------------------
 1 file changed, 166 insertions(+), 252 deletions(-)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index 97bd44d..0ef1a2b 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -1107,6 +1107,33 @@ class Signal(ABC, Iterable, Serializable):
         """
         ...  # pragma: no cover
 
+    @staticmethod
+    def _superimposed_streams(
+        num_added_streams: int, stream_indices: Sequence[int] | slice | None
+    ) -> tuple[np.ndarray, np.ndarray]:
+        """Match the streams of superimposed signals.
+
+        Args:
+            num_added_streams: Number of streams of the added signal.
+            stream_indices: Indices of the streams to be mixed.
+
+        Returns:
+            Indices of the streams superimposed to, and indices of the respective added streams.
+            If a signal features as many streams as there are selected,
+            its streams are assigned to the selected ones in order.
+        """
+
+        if stream_indices is None:
+            stream_indices = slice(None)
+        if isinstance(stream_indices, slice):
+            streams = np.arange(num_added_streams)[stream_indices]
+            return streams, streams
+
+        target_streams = np.asarray(stream_indices, dtype=np.int64).flatten()
+        if len(target_streams) == num_added_streams:
+            return target_streams, np.arange(num_added_streams)
+        return target_streams, target_streams
+
     @abstractmethod
     def to_dense(self) -> DenseSignal:
         """Concatenate all the blocks in the signal into one block.
@@ -1452,12 +1479,31 @@ class DenseSignal(SignalBlock, Signal):  # type: ignore[misc]
         stream_indices: Sequence[int] | slice | None = None,
         interpolation: InterpolationMode = InterpolationMode.NEAREST,
     ) -> Signal:
-        if stream_indices is None:
-            stream_indices = slice(None)
-
-        # If this signal is empty, simply return the added signal
+        # If this signal is empty, simply return a copy of the added signal
         if self.size < 1:
-            return added_signal
+            target_streams, source_streams = self._superimposed_streams(
+                added_signal.num_streams, stream_indices
+            )
+            if len(target_streams) < 1:
+                return self
+
+            num_streams = max(self.num_streams, 1 + int(max(target_streams)))
+            if num_streams == added_signal.num_streams and np.array_equal(
+                target_streams, np.arange(num_streams)
+            ):
+                return added_signal.copy()
+
+            padded_signal = DenseSignal.Zeros(
+                num_streams,
+                added_signal.num_samples,
+                added_signal.sampling_rate,
+                added_signal.carrier_frequency,
+                added_signal.noise_power,
+                added_signal.delay,
+            )
+            for b in added_signal.blocks:
+                padded_signal[target_streams, b.offset : b.end] = b[source_streams, :]
+            return padded_signal
 
         # Resample the added signal to the target sampling rate
         if added_signal.sampling_rate != self.sampling_rate:
@@ -1475,39 +1521,41 @@ class DenseSignal(SignalBlock, Signal):  # type: ignore[misc]
             _added_signal = added_signal
 
         # Account for possible delay differences
+        num_delay_samples = 0
         if self.delay != _added_signal.delay:
-            if interpolation == InterpolationMode.NEAREST:
-                if self.delay > _added_signal.delay:
-                    _added_signal = _added_signal[
-                        :,
-                        int(
-                            round((self.delay - _added_signal.delay) * _added_signal.sampling_rate)
-                        ) :,
-                    ]
-                else:
-                    _added_signal = _added_signal[
-                        :,
-                        : _added_signal.num_samples
-                        - int(
-                            round((_added_signal.delay - self.delay) * _added_signal.sampling_rate)
-                        ),
-                    ]
-
-            else:
+            if interpolation != InterpolationMode.NEAREST:
                 raise NotImplementedError(
                     f"Interpolation mode {interpolation} is not implemented yet."
                 )
+            num_delay_samples = int(
+                round((_added_signal.delay - self.delay) * _added_signal.sampling_rate)
+            )
 
-        if (
-            _added_signal.num_streams <= self.num_streams
-            and _added_signal.num_samples <= self.num_samples
-        ):
+        # Select the streams to be mixed
+        target_streams, source_streams = self._superimposed_streams(
+            _added_signal.num_streams, stream_indices
+        )
+        if len(target_streams) < 1:
+            return self
+
+        # Align the added blocks to this signal, cut everything in front of its first sample
+        added_blocks: list[tuple[int, SignalBlock]] = []
+        for b in _added_signal.blocks:
+            block_offset = b.offset + num_delay_samples
+            cut_samples = max(0, -block_offset)
+            if cut_samples < b.num_samples:
+                added_blocks.append((max(0, block_offset), b[source_streams, cut_samples:]))
+
+        new_num_streams = max(self.num_streams, 1 + int(max(target_streams)))
+        new_num_samples = max(
+            [self.num_samples] + [offset + b.num_samples for offset, b in added_blocks]
+        )
+
+        if new_num_streams <= self.num_streams and new_num_samples <= self.num_samples:
             return_signal = self
 
         else:
             # Generate a new dense signal with enough memory to hold both signals
-            new_num_streams = max(self.num_streams, _added_signal.num_streams)
-            new_num_samples = max(self.num_samples, _added_signal.num_samples)
             dense_signal = DenseSignal.Zeros(
                 new_num_streams,
                 new_num_samples,
@@ -1522,9 +1570,8 @@ class DenseSignal(SignalBlock, Signal):  # type: ignore[misc]
             return_signal = dense_signal
 
         # Add the added_signal to the new dense signal
-        _stream_indices = slice(None) if stream_indices is None else stream_indices
-        for b in _added_signal.blocks:
-            return_signal[_stream_indices, b.offset : b.end] += b[_stream_indices, :].superimpose_to(  # type: ignore
+        for offset, b in added_blocks:
+            return_signal[target_streams, offset : offset + b.num_samples] += b.superimpose_to(  # type: ignore
                 return_signal.sampling_rate,
                 return_signal.carrier_frequency,
                 _added_signal.sampling_rate,
@@ -1995,48 +2042,6 @@ class SparseSignal(Signal):
             should_flatten_samples,
         )
 
-    def _find_affectedblocks(self, s10: int, s11: int) -> tuple[int, int]:
-        """Find indices of blocks that are affected by the given samples slice.
-
-        Arguments:
-            s10: Start of the samples slice.
-            s11: Stop of the samples slice.
-
-        Return:
-            b_start, b_stop:
-                Indices of the first and the last affected blocks.
-        """
-
-        # Done with a binary search algotrithm.
-
-        # Starting block
-        L = 0
-        R = len(self.blocks) - 1
-        b_start = L
-        while L < R:
-            b_start = -((R + L) // -2)  # upside-down floor division
-            if self.blocks[b_start].offset > s10:
-                R = b_start - 1
-            else:
-                L = b_start
-        if self.blocks[b_start].offset > s10 and b_start != 0:
-            b_start -= 1
-
-        # Stopping block
-        L = 0
-        R = len(self.blocks) - 1
-        b_stop = R
-        while L < R:
-            b_stop = (R + L) // 2
-            if self.blocks[b_stop].end < s11:
-                L = b_stop + 1
-            else:
-                R = b_stop
-        if self.blocks[b_stop].end < s11 and (len(self.blocks) - 1) > b_stop:
-            b_stop += 1
-
-        return b_start, b_stop
-
     @override
     def __getitem__(
         self, key: tuple[slice | SupportsIndex | Sequence[SupportsIndex], ...]
@@ -2071,6 +2076,8 @@ class SparseSignal(Signal):
             raise TypeError("SparseSignal __getitem__ key must be a tuple of at most 2 elements")
 
         stream_selector: slice | SupportsIndex | Sequence[SupportsIndex] = key[0]
+        if not isinstance(stream_selector, slice) and np.ndim(stream_selector) < 1:
+            stream_selector = [stream_selector]  # type: ignore
         sample_selector: slice | SupportsIndex | Sequence[SupportsIndex] = (
             key[1] if isinstance(key, tuple) else slice(0, self.num_samples, 1)
         )
@@ -2078,11 +2085,11 @@ class SparseSignal(Signal):
 
         # Handle the case in which samples are selcted by a slice, i.e. [..., a:b:c]
         if isinstance(sample_selector, slice):
-            samples_start: int = sample_selector.start if sample_selector.start is not None else 0
-            samples_end: int = (
-                sample_selector.stop if sample_selector.stop is not None else self.num_samples
-            )
-            samples_step: int = sample_selector.step if sample_selector.step is not None else 1
+            samples_start, samples_end, samples_step = sample_selector.indices(self.num_samples)
+            if samples_step < 1:
+                raise NotImplementedError(
+                    "SparseSignal __getitem__ only supports positive sample steps"
+                )
 
             for block in self.blocks:
 
@@ -2093,12 +2100,16 @@ class SparseSignal(Signal):
                 # Calculate the first index of the new block in the result
                 block_start_index = max(samples_start - block.offset, 0)
                 block_start_index += (
-                    block_start_index + block.offset - samples_start
+                    samples_start - block_start_index - block.offset
                 ) % samples_step
 
                 # Calculate the last index of the new block in the result
                 block_end_index = min(samples_end - block.offset, block.num_samples)
 
+                # Ignore blocks skipped by the sample step
+                if block_start_index >= block_end_index:
+                    continue
+
                 # Correctly slice the block
                 sliced_block_samples = block.view(np.ndarray)[
                     stream_selector, block_start_index:block_end_index:samples_step  # type: ignore
@@ -2154,6 +2165,11 @@ class SparseSignal(Signal):
                 self.delay,
             )
 
+        # If no block is selected, retain the number of selected streams
+        if len(selected_blocks) == 0 and self.num_streams > 0:
+            num_selected_streams = np.arange(self.num_streams)[stream_selector].shape[0]  # type: ignore
+            selected_blocks.append(SignalBlock(num_selected_streams, 0, 0))
+
         # Allocate the result array
         return SparseSignal(
             selected_blocks,
@@ -2175,162 +2191,49 @@ class SparseSignal(Signal):
             )
         if isboolmask:
             raise NotImplementedError("SparseSignal __setitem__ does not support boolean masks yet")
-        num_streams = -((s01 - s00) // -s02)
-        num_samples = -((s11 - s10) // -s12)
 
         # clamp the slices to the actual dimensions
-        num_streams = min(self.num_streams, num_streams)
-        num_samples = min(self.num_samples, num_samples)
         s01 = min(self.num_streams, s01)
         s11 = min(self.num_samples, s11)
-
-        # If insertion happens entirely before the first block
-        if s11 < self.blocks[0].offset:
-            # then create new blocks and insert them into the model
-            if not isinstance(value, np.ndarray):
-                value = np.complex128(value)
-                if value == 0.0 + 0.0j:
-                    return
-                bs_new = [
-                    SignalBlock(
-                        num_streams,
-                        num_samples,
-                        s10,
-                        bytearray(np.full((num_streams, num_samples), value, np.complex128)),
-                    )
-                ]
-            else:
-                bs_new = self.__from_dense(value.reshape((num_streams, num_samples)))
-            self.__blocks = bs_new + self.blocks
-            return
-
-        # Get sliced streames indices
-        stream_idx = np.arange(s00, s01, s02)
-        # Do nothing if no streams are affected
-        if stream_idx.size == 0:
+        if s00 >= s01 or s10 >= s11:
             return
 
-        # Parse and validate value samples
-        # Parse scalar values
-        if not isinstance(value, np.ndarray):
-            value = np.complex128(value)
-
-            # Special case: Do nothing if the value is zero
-            if value == 0.0 + 0.0j:
-                bs_new = []
-
-            # Otherwise the added blocks are a single block of the given value
+        # Collect the samples within the selected window
+        window = SignalBlock(self.num_streams, s11 - s10, s10)
+        window[:] = 0.0
+        blocks_before: list[SignalBlock] = []
+        blocks_after: list[SignalBlock] = []
+        for b in self.blocks:
+            start, stop = max(b.offset, s10), min(b.end, s11)
+            if start < stop:
+                window[:, start - s10 : stop - s10] = b[:, start - b.offset : stop - b.offset]
+            if b.offset < s10:
+                blocks_before.append(b[:, : s10 - b.offset])
+            if b.end > s11:
+                block_after = b[:, max(0, s11 - b.offset) :]
+                block_after.offset = max(b.offset, s11)
+                blocks_after.append(block_after)
+
+        # Replace the selected samples
+        _value = value.view(np.ndarray) if isinstance(value, (np.ndarray, Signal)) else value
+        if np.ndim(_value) == 1:
+            _value = np.reshape(_value, (len(range(s00, s01, s02)), s11 - s10))
+        window.view(np.ndarray)[s00:s01:s02, :] = _value
+
+        # Windows without any samples are not represented by a block,
+        # except if required to preserve the number of samples
+        blocks_new = blocks_before
+        if np.any(window.view(np.ndarray)) or s11 == self.num_samples:
+            blocks_new = blocks_new + [window]
+        blocks_new = blocks_new + blocks_after
+
+        # Merge directly adjacent blocks
+        self.__blocks = []
+        for b in blocks_new:
+            if len(self.__blocks) > 0 and self.__blocks[-1].end == b.offset:
+                self.__blocks[-1] = self.__blocks[-1].append_samples(b)
             else:
-                bs_new = [
-                    SignalBlock(
-                        num_streams,
-                        num_samples,
-                        s10,
-                        bytearray(np.full((num_streams, num_samples), value, np.complex128)),
-                    )
-                ]
-
-        # Parse matrix values
-        else:  # else value is a samples matrix
-            if value.ndim == 1:
-                value = value.reshape((num_streams, num_samples))
-            bs_new = self.__from_dense(value, s10)
-            if len(bs_new) == 0:
-                return  # pragma: no cover
-            if bs_new[-1].end - bs_new[0].offset > num_samples or bs_new[0].shape[0] != num_streams:
-                raise ValueError("Shape mismatch")
-
-        # Find blocks that will be overwritten or modified.
-        b_start, b_stop = self._find_affectedblocks(s10, s11)
-
-        # Example:
-        #     s10                   s11
-        #      v                     v
-        # xxxxxxxx0000000xxxx000xxxxxxxxx -- self signal
-        #      yyyyy00yy0000yyyyy0000     -- value
-        # xxxxxyyyyy00yy0000yyyyy0000xxxx -- result
-        # ^   ^                           -- remaining samples from the first affected block
-        #      ^   value samples    ^
-        #                            ^  ^ -- remaining samples from the last affected block
-
-        # Init the resulting blocks
-        # Here the resulting blocks list is divided
-        # onto 3 parts as on the ascii example.
-        # b_start and b_stop can be sliced partially and will be added to the lists right after.
-        # value argument will be applied only to the middle blocks (_mid).
-        blocks_new_beg = self.__blocks[:b_start]
-        blocks_new_mid = [b for b in self.__blocks[b_start + 1 : b_stop]]
-        blocks_new_end = self.__blocks[b_stop + 1 :]
-
-        # Cut the first affected block
-        # Example:
-        #      s10                  s10
-        #       v                    v
-        # xxxxxxxxxxxx00000 -> xxxxxxxxxxxx00000
-        # [ b_start  ]         [1st ][2nd ]
-        b = self.blocks[b_start]
-        cut_col = max(s10 - b.offset, 0)  # max is for s10 < self.blocks[0].offset
-        b_l = b[:, :cut_col]
-        b_r = b[:, cut_col:]
-        b_r.offset += cut_col
-        if b_l.size != 0:
-            blocks_new_beg.append(b_l)
-        if b_r.size != 0:
-            blocks_new_mid = [b_r] + blocks_new_mid
-
-        # Cut the last affected block
-        if b_start != b_stop:
-            b = self.blocks[b_stop]
-            cut_col = s11 - b.offset
-            b_l = b[:, :cut_col]
-            b_r = b[:, cut_col:]
-            b_r.offset += cut_col
-            if b_l.size != 0:
-                blocks_new_mid.append(b_l)
-            if b_r.size != 0:
-                blocks_new_end = [b_r] + blocks_new_end
-
-        # If only some of the streams are being replaced,
-        # then block merging must be performed.
-        if stream_idx.size != self.num_streams:
-            b_offs, b_stops = self._getblocks_union(blocks_new_mid, bs_new)
-
-            # Asseble the new blocks
-            incoming_signal = SparseSignal(
-                bs_new, self.sampling_rate, self.carrier_frequency, self.noise_power, self.delay
-            )
-            blocks_new_mid_new = []
-            for b_off, b_stop in zip(b_offs, b_stops):
-                b_new = self[(slice(None, None), slice(b_off, b_stop))].view(np.ndarray)
-                b_new[stream_idx, :] = incoming_signal[:, b_off : min(b_stop, s11)]
-
-                blocks_new_mid_new.append(
-                    SignalBlock(b_new.shape[0], b_new.shape[1], b_off, bytearray(b_new))
-                )
-            blocks_new_mid = blocks_new_mid_new
-
-        # Otherwise, the middle blocks are being simply replaced with the new ones
-        else:
-            blocks_new_mid = bs_new
-
-        # Insert the result into this sparse signal model
-        self.__blocks = blocks_new_beg + blocks_new_mid + blocks_new_end
-        # merge new beginning blocks if needed
-        if len(blocks_new_beg) != 0:
-            b2_idx = len(blocks_new_beg)
-            b1 = self.__blocks[b2_idx - 1]
-            b2 = self.__blocks[b2_idx]
-            if b1.end == b2.offset:
-                self.__blocks[b2_idx - 1] = b1.append_samples(b2)
-                self.__blocks.pop(b2_idx)
-        # merge new ending blocks if needed
-        if len(blocks_new_end) != 0:
-            b2_idx = -len(blocks_new_end)
-            b1 = self.__blocks[b2_idx - 1]
-            b2 = self.__blocks[b2_idx]
-            if b1.end == b2.offset:
-                self.__blocks[b2_idx - 1] = b1.append_samples(b2)
-                self.__blocks.pop(b2_idx)
+                self.__blocks.append(b)
 
     @override
     def resample(self, sampling_rate: float, aliasing_filter: bool = True) -> SparseSignal:
@@ -2354,6 +2257,9 @@ class SparseSignal(Signal):
         stream_indices: Sequence[int] | None = None,
         interpolation: InterpolationMode = InterpolationMode.NEAREST,
     ) -> SparseSignal:
+        if added_signal.sampling_rate != self.sampling_rate and not resample:
+            raise RuntimeError("Resampling required but not allowed")
+
         # Account for the delay difference (if any)
 
         # If the superimposed signal's delay is smaller,
@@ -2382,6 +2288,7 @@ class SparseSignal(Signal):
             )
             added_blocks = added_signal.blocks
             if interpolation is InterpolationMode.NEAREST:
+                added_blocks = [b.copy() for b in added_blocks]
                 for b in added_blocks:
                     b.offset += num_delay_samples
 
@@ -2389,11 +2296,8 @@ class SparseSignal(Signal):
                 raise NotImplementedError("Only InterpolationMode.NEAREST is implemented")
 
         # Parse stream indices
-        num_streams = added_signal.num_streams if stream_indices is None else len(stream_indices)
-        _stream_indices: np.ndarray = (
-            np.arange(num_streams)
-            if stream_indices is None
-            else np.asarray(stream_indices, dtype=np.int64).flatten()
+        _stream_indices, added_streams = self._superimposed_streams(
+            added_signal.num_streams, stream_indices
         )
 
         # Abort if zero streams are selected
@@ -2405,12 +2309,11 @@ class SparseSignal(Signal):
         if _stream_indices.max() >= self.num_streams:
             raise ValueError(f"Stream indices must be in the interval [0, {self.num_streams - 1}]")
 
-        if added_signal.sampling_rate != self.sampling_rate and not resample:
-            raise RuntimeError("Resampling required but not allowed")
-
         # Generate superimposed signal blocks
         added_resampled_blocks = [
-            b.resample_block(added_signal.sampling_rate, self.sampling_rate, False).superimpose_to(
+            b[added_streams, :]
+            .resample_block(added_signal.sampling_rate, self.sampling_rate, False)
+            .superimpose_to(
                 self.sampling_rate,
                 self.carrier_frequency,
                 self.sampling_rate,
@@ -2427,10 +2330,13 @@ class SparseSignal(Signal):
             w_size = w_stop - w_off
 
             # Initialize a new block with zeros
-            unified_block = np.zeros((num_streams, w_size), np.complex128)
+            unified_block = np.zeros((self.num_streams, w_size), np.complex128)
 
             # Sum the samples from self
-            for blocks in [self.blocks, added_resampled_blocks]:
+            for streams, blocks in [
+                (np.arange(self.num_streams), self.blocks),
+                (_stream_indices, added_resampled_blocks),
+            ]:
                 for b in blocks:
 
                     # If the block ends before this window's start, skip it
@@ -2451,7 +2357,9 @@ class SparseSignal(Signal):
                     b_stop_index = min(b.num_samples, w_off - b.offset + w_size)
 
                     # Add the overlapping sections
-                    unified_block[:, w_start_index:w_stop_index] += b[:, b_start_index:b_stop_index]
+                    unified_block[streams, w_start_index:w_stop_index] += b.view(np.ndarray)[
+                        :, b_start_index:b_stop_index
+                    ]
 
             unified_blocks.append(
                 SignalBlock(self.num_streams, w_size, w_off, unified_block.tobytes())
@@ -2600,6 +2508,9 @@ class SparseSignal(Signal):
 
     @override
     def append_streams(self, value: Signal | np.ndarray) -> SparseSignal:
+        if value.shape[1] > self.num_samples:
+            raise ValueError("Number of samples do not match")
+
         # Resample the incoming signal
         signal_blocks: Signal | list[np.ndarray]
         if isinstance(value, Signal):
@@ -2623,17 +2534,20 @@ class SparseSignal(Signal):
         blocks_new = []
         for block_start, block_stop in zip(b_offs, b_stops):
 
-            # Select the respective blocks to be mergerd from both signal models
-            initial_block = self[:, block_start:block_stop].view(np.ndarray)
-            appended_block = value[:, block_start:block_stop].view(np.ndarray)
-
-            # Merge the blocks into a new block with increased number of streams
-            new_block = np.concatenate((initial_block, appended_block), axis=0)
-            blocks_new.append(
-                SignalBlock(
-                    new_num_streams, block_stop - block_start, block_start, new_block.tobytes()
-                )
-            )
+            # Merge the blocks of both signal models into a new block with increased number of streams
+            new_block = SignalBlock(new_num_streams, block_stop - block_start, block_start)
+            new_block[:] = 0.0
+            for streams, blocks in [
+                (slice(0, self.num_streams), self.blocks),
+                (slice(self.num_streams, new_num_streams), blocks_incoming),
+            ]:
+                for b in blocks:
+                    start, stop = max(b.offset, block_start), min(b.end, block_stop)
+                    if start < stop:
+                        new_block[streams, start - block_start : stop - block_start] = b[
+                            :, start - b.offset : stop - b.offset
+                        ]
+            blocks_new.append(new_block)
 
         return SparseSignal(
             blocks_new, self.sampling_rate, self.carrier_frequency, self.noise_power, self.delay
-- 
2.43.0


From 48adc00983993a6a2b286a3005a17035fd2564ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:00 +0000
Subject: [PATCH 12/97] fix: deserializing real-valued arrays as complex arrays
 fails

---
 hermespy/core/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/core/factory.py b/hermespy/core/factory.py
index d1eb6e7..25933a0 100644
--- a/hermespy/core/factory.py
+++ b/hermespy/core/factory.py
@@ -1087,7 +1087,7 @@ class HDFDeserializationProcess(DeserializationProcess):
         else:
             array_dataset = self.__group[name]
 
-        deserialized_array = np.asarray(array_dataset, dtype=dtype)
+        deserialized_array = np.asarray(array_dataset[()]).astype(dtype)
         self.__arrays[array_dataset.name] = deserialized_array
         return deserialized_array
 
-- 
2.43.0


From 6c575ee42557503783deede369196298258f95a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:00 +0000
Subject: [PATCH 13/97] fix: serialization confuses temporary objects and
 arrays sharing a memory address

---
 hermespy/core/factory.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/hermespy/core/factory.py b/hermespy/core/factory.py
index 25933a0..ff3ec70 100644
--- a/hermespy/core/factory.py
+++ b/hermespy/core/factory.py
@@ -840,16 +840,18 @@ class HDFSerializationProcess(SerializationProcess):
 
     __base_group: Group
     __group: Group
-    __arrays: MutableMapping[int, np.ndarray]
-    __objects: MutableMapping[int, str]  # Mapping of serialized objects to their HDF5 paths
+    # Mapping of serialized arrays and objects to their HDF5 paths
+    # Keeps references to the cached instances so that their identifiers won't be reused by the interpreter
+    __arrays: MutableMapping[int, tuple[str, np.ndarray]]
+    __objects: MutableMapping[int, tuple[str, Serializable]]
 
     def __init__(
         self,
         tag_registry: Mapping[str, Type[Serializable]],
         base_group: Group,
         group: Group,
-        arrays: MutableMapping[int, np.ndarray],
-        objects: MutableMapping[int, str],
+        arrays: MutableMapping[int, tuple[str, np.ndarray]],
+        objects: MutableMapping[int, tuple[str, Serializable]],
     ) -> None:
         # Init base class
         SerializationProcess.__init__(self, tag_registry)
@@ -893,13 +895,13 @@ class HDFSerializationProcess(SerializationProcess):
 
         # If the array has already been serialized, just create a soft link to it
         if cache and uid in self.__arrays:
-            self.__group[name] = SoftLink(self.__arrays[uid])
+            self.__group[name] = SoftLink(self.__arrays[uid][0])
             return
 
         # Write the array to the group and record its exact location to the object cache
         new = self.__group.create_dataset(name, array.shape, array.dtype, array)
         if cache:
-            self.__arrays[uid] = new.name
+            self.__arrays[uid] = (new.name, array)
 
     @override
     def serialize_floating(self, value: float, name: str) -> None:
@@ -934,16 +936,16 @@ class HDFSerializationProcess(SerializationProcess):
         obj_key: int = id(obj)
 
         # If the object has already been serialized, just create a soft link to it
-        obj_path = self.__objects.get(obj_key, None)
-        if obj_path is not None:
-            self.__group[name] = SoftLink(obj_path)
+        cached_object = self.__objects.get(obj_key, None)
+        if cached_object is not None:
+            self.__group[name] = SoftLink(cached_object[0])
             return
 
         # Create a new group for the object
         new_group = self._create_group(self.__group, name)
 
         # Save the object's path for future reference
-        self.__objects[obj_key] = new_group.name
+        self.__objects[obj_key] = (new_group.name, obj)
 
         # Create a new serialization process
         process = HDFSerializationProcess(
-- 
2.43.0


From bcfcc88f0dcea0fa865fc8871cf058891f2d76b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:13 +0000
Subject: [PATCH 14/97] fix: deserialization loses the identity of shared
 objects depending on the order of access

---
 hermespy/core/factory.py | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/hermespy/core/factory.py b/hermespy/core/factory.py
index ff3ec70..39dcf6c 100644
--- a/hermespy/core/factory.py
+++ b/hermespy/core/factory.py
@@ -730,7 +730,7 @@ class DeserializationProcess(ProcessBase):
             name, expected_type, UNDEF
         )
         if deserialized_object is UNDEF:
-            if default == UNDEF:
+            if isinstance(default, str) and default == UNDEF:
                 raise RuntimeError(
                     f"Object '{name}' does not exist and no default value was provided"
                 )
@@ -1073,21 +1073,20 @@ class HDFDeserializationProcess(DeserializationProcess):
 
         # If the array does not exist, attempt to return the default value
         if link is None:
-            if default == UNDEF:
+            if isinstance(default, str) and default == UNDEF:
                 raise RuntimeError(
                     f"Array '{name}' does not exist in the HDF5 file and no default value was provided"
                 )
             else:
                 return default  # type: ignore[return-value]
 
+        array_dataset = (
+            self.__base_group[link.path] if isinstance(link, SoftLink) else self.__group[name]
+        )
+
         # If the array has already been deserialized, just return a reference to it
-        if isinstance(link, SoftLink):
-            if link.path in self.__arrays:
-                return self.__arrays[link.path]
-            else:
-                array_dataset = self.__base_group[link.path]
-        else:
-            array_dataset = self.__group[name]
+        if array_dataset.name in self.__arrays:
+            return self.__arrays[array_dataset.name]
 
         deserialized_array = np.asarray(array_dataset[()]).astype(dtype)
         self.__arrays[array_dataset.name] = deserialized_array
@@ -1144,18 +1143,13 @@ class HDFDeserializationProcess(DeserializationProcess):
             return default
 
         # A softlink indicates that the object is stored in a different group
-        if isinstance(link, SoftLink):
-
-            # If the object has already been deserialized, just return a reference to it
-            if link.path in self.__objects:
-                return self.__objects[link.path]  # type: ignore[return-value]
-
-            # Otherwise, load the object from the SoftLink's group
-            else:
-                object_group = self.__base_group[link.path]
+        object_group = (
+            self.__base_group[link.path] if isinstance(link, SoftLink) else self.__group[name]
+        )
 
-        else:
-            object_group = self.__group[name]
+        # If the object has already been deserialized, just return a reference to it
+        if object_group.name in self.__objects:
+            return self.__objects[object_group.name]  # type: ignore[return-value]
 
         # Get the object's type
         object_type: str | None = object_group.attrs.get("type", default=None)
-- 
2.43.0


From 83cd7c32f4f46a9af76ddcadfc2dc677d17c6dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 15/97] fix: integer ranges cannot be serialized and missing
 strings are deserialized as 'None'

---
 hermespy/core/factory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hermespy/core/factory.py b/hermespy/core/factory.py
index 39dcf6c..0813411 100644
--- a/hermespy/core/factory.py
+++ b/hermespy/core/factory.py
@@ -492,7 +492,7 @@ class SerializationProcess(ProcessBase):
             self.serialize_floating(value[1], f"{name}_max")
 
         # Serialize the scalar value
-        elif isinstance(value, (float, np.float64)):
+        elif isinstance(value, (float, int, np.floating, np.integer)):
             self.serialize_floating(value, name)
 
         else:
@@ -1132,6 +1132,8 @@ class HDFDeserializationProcess(DeserializationProcess):
     @override
     def deserialize_string(self, name: str, default: _RT | UNDEF_TYPE = UNDEF) -> str | _RT:
         deserialization = self.__fetch_attribute(name, default)
+        if deserialization is None:
+            raise RuntimeError(f"Attribute '{name}' is not a string value")
         return default if deserialization is UNDEF else str(deserialization)
 
     @override
-- 
2.43.0


From f21fa19abab1207c0cf7ceb70850fd67da2a9731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:55 +0000
Subject: [PATCH 16/97] fix: finalizing the serialization of a campaign leaves
 the file open

---
 hermespy/core/factory.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/hermespy/core/factory.py b/hermespy/core/factory.py
index 0813411..a5a3c78 100644
--- a/hermespy/core/factory.py
+++ b/hermespy/core/factory.py
@@ -852,6 +852,7 @@ class HDFSerializationProcess(SerializationProcess):
         group: Group,
         arrays: MutableMapping[int, tuple[str, np.ndarray]],
         objects: MutableMapping[int, tuple[str, Serializable]],
+        file: File | None = None,
     ) -> None:
         # Init base class
         SerializationProcess.__init__(self, tag_registry)
@@ -861,6 +862,7 @@ class HDFSerializationProcess(SerializationProcess):
         self.__group = group
         self.__arrays = arrays
         self.__objects = objects
+        self.__file = file
 
     @staticmethod
     def New(
@@ -872,6 +874,8 @@ class HDFSerializationProcess(SerializationProcess):
         base_group.attrs.create("version", __version__, dtype=string_dtype(encoding="utf-8"))
         base_group.attrs.create("timestamp", time())
 
+        file = base_group if isinstance(base_group, File) else None
+
         # Create the campaign group
         if campaign is not None:
             base_group = HDFSerializationProcess._create_group(base_group, campaign)
@@ -880,7 +884,7 @@ class HDFSerializationProcess(SerializationProcess):
         HDFSerializationProcess._create_group(base_group, "arrays")
 
         # Initialize the serialization process
-        return HDFSerializationProcess(tag_registry, base_group, base_group, dict(), dict())
+        return HDFSerializationProcess(tag_registry, base_group, base_group, dict(), dict(), file)
 
     @override
     def serialize_array(self, array: np.ndarray, name: str, cache: bool = True) -> None:
@@ -1004,8 +1008,9 @@ class HDFSerializationProcess(SerializationProcess):
     @override
     def finalize(self) -> None:
         # Close the base file handle
-        if isinstance(self.__base_group, File):
-            self.__base_group.close()
+        # The base group is a campaign within the file if a campaign was selected
+        if self.__file is not None:
+            self.__file.close()
 
     @staticmethod
     def _create_group(group: Group, name: str) -> Group:
@@ -1031,6 +1036,7 @@ class HDFDeserializationProcess(DeserializationProcess):
         group: Group,
         objects: MutableMapping[str, Serializable],
         arrays: MutableMapping[str, np.ndarray],
+        file: File | None = None,
     ) -> None:
         # Init base class
         DeserializationProcess.__init__(self, tag_registry)
@@ -1040,6 +1046,7 @@ class HDFDeserializationProcess(DeserializationProcess):
         self.__group = group
         self.__objects = objects
         self.__arrays = arrays
+        self.__file = file
 
     @staticmethod
     def New(
@@ -1047,12 +1054,14 @@ class HDFDeserializationProcess(DeserializationProcess):
         base_group: Group,
         campaign: str | None = None,
     ) -> HDFDeserializationProcess:
+        file = base_group if isinstance(base_group, File) else None
+
         if campaign is not None:
             if campaign not in base_group:
                 raise RuntimeError(f"Campaign '{campaign}' does not exist in the HDF5 file")
             base_group = base_group[campaign]
 
-        return HDFDeserializationProcess(tag_registry, base_group, base_group, dict(), dict())
+        return HDFDeserializationProcess(tag_registry, base_group, base_group, dict(), dict(), file)
 
     @overload
     def deserialize_array(
@@ -1235,5 +1244,6 @@ class HDFDeserializationProcess(DeserializationProcess):
     @override
     def finalize(self) -> None:
         # Close the base file handle
-        if isinstance(self.__base_group, File):
-            self.__base_group.close()
+        # The base group is a campaign within the file if a campaign was selected
+        if self.__file is not None:
+            self.__file.close()
-- 
2.43.0


From fedd02826fc91babc3701300f50d97b367e2b9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:21 +0000
Subject: [PATCH 17/97] fix: simulated antennas and custom arrays lose weights
 and types when serialized or copied

---
 hermespy/core/antennas.py       |  2 +-
 hermespy/simulation/antennas.py | 17 +++++++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/hermespy/core/antennas.py b/hermespy/core/antennas.py
index cecea0e..ad806ea 100644
--- a/hermespy/core/antennas.py
+++ b/hermespy/core/antennas.py
@@ -1479,7 +1479,7 @@ class CustomAntennaArray(Generic[AT], AntennaArray[AT], Serializable):
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> CustomAntennaArray:
-        return CustomAntennaArray(
+        return cls(
             process.deserialize_object_sequence("antennas", Antenna),
             process.deserialize_array("pose", np.float64).view(Transformation),
         )
diff --git a/hermespy/simulation/antennas.py b/hermespy/simulation/antennas.py
index 7578bfa..30442ea 100644
--- a/hermespy/simulation/antennas.py
+++ b/hermespy/simulation/antennas.py
@@ -19,12 +19,14 @@ from hermespy.core import (
     AntennaArray,
     AntennaMode,
     CustomAntennaArray,
+    DeserializationProcess,
     Dipole,
     Executable,
     IdealAntenna,
     LinearAntenna,
     PatchAntenna,
     ReceiveState,
+    SerializationProcess,
     Signal,
     SignalBlock,
     Transformation,
@@ -137,6 +139,17 @@ class SimulatedAntenna(Antenna):
             offsets=signal.block_offsets,
         )
 
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        super().serialize(process)
+        process.serialize_complex(self.weight, "weight")
+
+    @classmethod
+    def Deserialize(cls, process: DeserializationProcess) -> SimulatedAntenna:
+        antenna = super().Deserialize(process)  # type: ignore[misc]
+        antenna.weight = process.deserialize_complex("weight", 1.0 + 0.0j)
+        return antenna
+
 
 class SimulatedDipole(SimulatedAntenna, Dipole):
     """Model of single dipole antenna within an antenna array."""
@@ -166,6 +179,10 @@ class SimulatedDipole(SimulatedAntenna, Dipole):
         Dipole.__init__(self, mode, pose)
         SimulatedAntenna.__init__(self, mode, pose, weight)
 
+    @override
+    def copy(self) -> SimulatedDipole:
+        return SimulatedDipole(self.mode, self.pose, self.weight)
+
 
 class SimulatedIdealAntenna(SimulatedAntenna, IdealAntenna):
     """Model of single ideal antenna within an antenna array."""
-- 
2.43.0


From 9d1db10ce12d0a987defbd5e0333d1ae82104554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:23 +0000
Subject: [PATCH 18/97] fix: fading channels ignore the configured line of
 sight angle and lose it and antenna correlations during serialization

---
 hermespy/channel/fading/correlation.py | 19 ++++++++++++++++++-
 hermespy/channel/fading/cost259.py     |  5 +++--
 hermespy/channel/fading/exponential.py |  5 +++--
 hermespy/channel/fading/fading.py      | 22 +++++++++++++---------
 hermespy/channel/fading/tdl.py         |  5 +++--
 5 files changed, 40 insertions(+), 16 deletions(-)

diff --git a/hermespy/channel/fading/correlation.py b/hermespy/channel/fading/correlation.py
index e9b27cd..fc2f755 100644
--- a/hermespy/channel/fading/correlation.py
+++ b/hermespy/channel/fading/correlation.py
@@ -2,9 +2,17 @@
 
 from __future__ import annotations
 
+from typing_extensions import override
+
 import numpy as np
 
-from hermespy.core import AntennaArrayState, AntennaMode, SerializableEnum
+from hermespy.core import (
+    AntennaArrayState,
+    AntennaMode,
+    DeserializationProcess,
+    SerializableEnum,
+    SerializationProcess,
+)
 from .fading import AntennaCorrelation
 
 __author__ = "Tobias Kronauer"
@@ -104,3 +112,12 @@ class StandardAntennaCorrelation(AntennaCorrelation):
         raise RuntimeError(
             f"3GPP standard antenna covariance is only defined for 1, 2 and 4 antennas, device has {n} antennas"
         )
+
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        process.serialize_string(self.correlation.name, "correlation")
+
+    @classmethod
+    @override
+    def Deserialize(cls, process: DeserializationProcess) -> StandardAntennaCorrelation:
+        return cls(process.deserialize_string("correlation"))
diff --git a/hermespy/channel/fading/cost259.py b/hermespy/channel/fading/cost259.py
index b9fe1aa..d3d6819 100644
--- a/hermespy/channel/fading/cost259.py
+++ b/hermespy/channel/fading/cost259.py
@@ -240,7 +240,8 @@ class Cost259(MultipathFadingChannel):
         process.serialize_object(self.model_type, "model_type")
         process.serialize_floating(self.correlation_distance, "correlation_distance")
         process.serialize_integer(self.num_sinusoids, "num_sinusoids")
-        process.serialize_floating(self.los_angle, "los_angle")
+        if self.los_angle is not None:
+            process.serialize_floating(self.los_angle, "los_angle")
         process.serialize_floating(self.doppler_frequency, "doppler_frequency")
         process.serialize_floating(self.los_doppler_frequency, "los_doppler_frequency")
         if self.antenna_correlation is not None:
@@ -256,7 +257,7 @@ class Cost259(MultipathFadingChannel):
                 "correlation_distance", cls._DEFAULT_DECORRELATION_DISTANCE
             ),
             num_sinusoids=process.deserialize_integer("num_sinusoids", cls._DEFAULT_NUM_SINUSOIDS),
-            los_angle=process.deserialize_floating("los_angle"),
+            los_angle=process.deserialize_floating("los_angle", None),
             doppler_frequency=process.deserialize_floating(
                 "doppler_frequency", cls._DEFAULT_DOPPLER_FREQUENCY
             ),
diff --git a/hermespy/channel/fading/exponential.py b/hermespy/channel/fading/exponential.py
index ae91f85..e3857bf 100644
--- a/hermespy/channel/fading/exponential.py
+++ b/hermespy/channel/fading/exponential.py
@@ -140,7 +140,8 @@ class Exponential(MultipathFadingChannel):
         process.serialize_floating(self.rms_delay, "rms_delay")
         process.serialize_floating(self.correlation_distance, "correlation_distance")
         process.serialize_integer(self.num_sinusoids, "num_sinusoids")
-        process.serialize_floating(self.los_angle, "los_angle")
+        if self.los_angle is not None:
+            process.serialize_floating(self.los_angle, "los_angle")
         process.serialize_floating(self.doppler_frequency, "doppler_frequency")
         process.serialize_floating(self.los_doppler_frequency, "los_doppler_frequency")
         if self.antenna_correlation is not None:
@@ -157,7 +158,7 @@ class Exponential(MultipathFadingChannel):
                 "correlation_distance", cls._DEFAULT_DECORRELATION_DISTANCE
             ),
             num_sinusoids=process.deserialize_integer("num_sinusoids", cls._DEFAULT_NUM_SINUSOIDS),
-            los_angle=process.deserialize_floating("los_angle"),
+            los_angle=process.deserialize_floating("los_angle", None),
             doppler_frequency=process.deserialize_floating(
                 "doppler_frequency", cls._DEFAULT_DOPPLER_FREQUENCY
             ),
diff --git a/hermespy/channel/fading/fading.py b/hermespy/channel/fading/fading.py
index befbf8a..8637e9f 100644
--- a/hermespy/channel/fading/fading.py
+++ b/hermespy/channel/fading/fading.py
@@ -563,10 +563,15 @@ class MultipathFadingRealization(ChannelRealization[MultipathFadingSample]):
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> MultipathFadingRealization:
+        los_angle = process.deserialize_floating("los_angles_variable", None)
         return MultipathFadingRealization(
             process.deserialize_object("random_realization", ConsistentRealization),
             process.deserialize_object("antenna_correlation_variable", ConsistentUniform),
-            process.deserialize_object("los_angles_variable", ConsistentUniform),
+            (
+                process.deserialize_object("los_angles_variable", ConsistentUniform)
+                if los_angle is None
+                else los_angle
+            ),
             process.deserialize_object("path_angles_variable", ConsistentUniform),
             process.deserialize_object("los_phases_variable", ConsistentUniform),
             process.deserialize_object("path_phases_variable", ConsistentUniform),
@@ -578,7 +583,7 @@ class MultipathFadingRealization(ChannelRealization[MultipathFadingSample]):
             process.deserialize_floating("nlos_doppler"),
             process.deserialize_object("antenna_correlation", AntennaCorrelation, None),
             set(),
-            **Channel._DeserializeParameters(process),  # type: ignore[arg-type]
+            **ChannelRealization._DeserializeParameters(process),  # type: ignore[arg-type]
         )
 
 
@@ -710,7 +715,7 @@ class MultipathFadingChannel(
         self.__power_profile = self.__power_profile[sorting]
         self.__rice_factors = self.__rice_factors[sorting]
         self.__num_sinusoids = num_sinusoids
-        self.los_angle = self._rng.uniform(-pi, pi) if los_angle is None else los_angle
+        self.los_angle = los_angle
         self.doppler_frequency = doppler_frequency
         self.__los_doppler_frequency = los_doppler_frequency
 
@@ -740,11 +745,7 @@ class MultipathFadingChannel(
         # Note: This is a temporary solution,
         # since the configuration class is unaware of the devices' number of antennas.
         self.__antenna_correlation_variable = self.__rng.uniform((10, 10))
-        self.__los_angles_variable = (
-            self.__rng.uniform((self.__num_resolvable_paths,))
-            if self.__los_angle is not None
-            else self.__los_angle
-        )
+        self.__los_angles_variable = self.__rng.uniform((self.__num_resolvable_paths,))
         self.__nlos_angles_variable = self.__rng.uniform(
             (self.num_resolvable_paths, self.__num_sinusoids)
         )
@@ -894,7 +895,7 @@ class MultipathFadingChannel(
         return MultipathFadingRealization(
             self.__rng.realize(self.correlation_distance),
             self.__antenna_correlation_variable,
-            self.__los_angles_variable,
+            self.__los_angles_variable if self.__los_angle is None else float(self.__los_angle),
             self.__nlos_angles_variable,
             self.__los_phases_variable,
             self.__nlos_phases_variable,
@@ -934,6 +935,8 @@ class MultipathFadingChannel(
         process.serialize_array(self.__rice_factors, "rice_factors")
         process.serialize_integer(self.num_sinusoids, "num_sinusoids")
         process.serialize_floating(self.__correlation_distance, "correlation_distance")
+        if self.los_angle is not None:
+            process.serialize_floating(self.los_angle, "los_angle")
         process.serialize_floating(self.__doppler_frequency, "doppler_frequency")
         process.serialize_floating(self.__los_doppler_frequency, "los_doppler_frequency")
         if self.antenna_correlation is not None:
@@ -955,6 +958,7 @@ class MultipathFadingChannel(
                 "correlation_distance": process.deserialize_floating(
                     "correlation_distance", cls._DEFAULT_DECORRELATION_DISTANCE
                 ),
+                "los_angle": process.deserialize_floating("los_angle", None),
                 "doppler_frequency": process.deserialize_floating(
                     "doppler_frequency", cls._DEFAULT_DOPPLER_FREQUENCY
                 ),
diff --git a/hermespy/channel/fading/tdl.py b/hermespy/channel/fading/tdl.py
index 8716f6a..7fe995d 100644
--- a/hermespy/channel/fading/tdl.py
+++ b/hermespy/channel/fading/tdl.py
@@ -414,7 +414,8 @@ class TDL(MultipathFadingChannel):
         process.serialize_floating(self.rms_delay, "rms_delay")
         process.serialize_floating(self.correlation_distance, "correlation_distance")
         process.serialize_integer(self.num_sinusoids, "num_sinusoids")
-        process.serialize_floating(self.los_angle, "los_angle")
+        if self.los_angle is not None:
+            process.serialize_floating(self.los_angle, "los_angle")
         process.serialize_floating(self.doppler_frequency, "doppler_frequency")
         process.serialize_floating(self.los_doppler_frequency, "los_doppler_frequency")
         if self.antenna_correlation is not None:
@@ -431,7 +432,7 @@ class TDL(MultipathFadingChannel):
                 "correlation_distance", cls._DEFAULT_DECORRELATION_DISTANCE
             ),
             num_sinusoids=process.deserialize_integer("num_sinusoids", cls._DEFAULT_NUM_SINUSOIDS),
-            los_angle=process.deserialize_floating("los_angle"),
+            los_angle=process.deserialize_floating("los_angle", None),
             doppler_frequency=process.deserialize_floating(
                 "doppler_frequency", cls._DEFAULT_DOPPLER_FREQUENCY
             ),
-- 
2.43.0


From 73832ab8c851d94aaeca7a62d468759cbb255a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 19/97] fix: multipath fading channels without explicit line of
 sight doppler cannot be restored

---
 hermespy/channel/fading/fading.py | 5 +++--
 hermespy/channel/fading/tdl.py    | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/hermespy/channel/fading/fading.py b/hermespy/channel/fading/fading.py
index 8637e9f..36ea220 100644
--- a/hermespy/channel/fading/fading.py
+++ b/hermespy/channel/fading/fading.py
@@ -938,7 +938,8 @@ class MultipathFadingChannel(
         if self.los_angle is not None:
             process.serialize_floating(self.los_angle, "los_angle")
         process.serialize_floating(self.__doppler_frequency, "doppler_frequency")
-        process.serialize_floating(self.__los_doppler_frequency, "los_doppler_frequency")
+        if self.__los_doppler_frequency is not None:
+            process.serialize_floating(self.__los_doppler_frequency, "los_doppler_frequency")
         if self.antenna_correlation is not None:
             process.serialize_object(self.antenna_correlation, "antenna_correlation")
         Channel.serialize(self, process)
@@ -962,7 +963,7 @@ class MultipathFadingChannel(
                 "doppler_frequency": process.deserialize_floating(
                     "doppler_frequency", cls._DEFAULT_DOPPLER_FREQUENCY
                 ),
-                "los_doppler_frequency": process.deserialize_floating("los_doppler_frequency"),
+                "los_doppler_frequency": process.deserialize_floating("los_doppler_frequency", None),
                 "antenna_correlation": process.deserialize_object(
                     "antenna_correlation", AntennaCorrelation, None
                 ),
diff --git a/hermespy/channel/fading/tdl.py b/hermespy/channel/fading/tdl.py
index 7fe995d..8414c3f 100644
--- a/hermespy/channel/fading/tdl.py
+++ b/hermespy/channel/fading/tdl.py
@@ -417,7 +417,8 @@ class TDL(MultipathFadingChannel):
         if self.los_angle is not None:
             process.serialize_floating(self.los_angle, "los_angle")
         process.serialize_floating(self.doppler_frequency, "doppler_frequency")
-        process.serialize_floating(self.los_doppler_frequency, "los_doppler_frequency")
+        if self.model_type not in (TDLType.D, TDLType.E):
+            process.serialize_floating(self.los_doppler_frequency, "los_doppler_frequency")
         if self.antenna_correlation is not None:
             process.serialize_object(self.antenna_correlation, "antenna_correlation")
         Channel.serialize(self, process)
@@ -436,7 +437,7 @@ class TDL(MultipathFadingChannel):
             doppler_frequency=process.deserialize_floating(
                 "doppler_frequency", cls._DEFAULT_DOPPLER_FREQUENCY
             ),
-            los_doppler_frequency=process.deserialize_floating("los_doppler_frequency"),
+            los_doppler_frequency=process.deserialize_floating("los_doppler_frequency", None),
             antenna_correlation=process.deserialize_object(
                 "antenna_correlation", AntennaCorrelation, None
             ),
-- 
2.43.0


From 230d067223e47f286c75bb2884c78f0ef75c4875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 20/97] fix: restored uniform arrays have floating point
 dimensions

---
 hermespy/core/antennas.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hermespy/core/antennas.py b/hermespy/core/antennas.py
index ad806ea..438be1d 100644
--- a/hermespy/core/antennas.py
+++ b/hermespy/core/antennas.py
@@ -1419,7 +1419,9 @@ class UniformArray(Generic[AT], AntennaArray[AT], Serializable):
     def Deserialize(cls, process: DeserializationProcess) -> UniformArray:
         pose = process.deserialize_array("pose", np.float64).view(Transformation)
         spacing = process.deserialize_floating("spacing")
-        dimensions = process.deserialize_array("dimensions", np.float64).flatten().tolist()
+        dimensions = [
+            int(d) for d in process.deserialize_array("dimensions", np.float64).flatten()
+        ]
         element = process.deserialize_object("element", Antenna)
         return cls(element, spacing, dimensions, pose)  # type: ignore[arg-type]
 
-- 
2.43.0


From 33d21191e9a1a3c603db04a01a514c0d17fb3e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 21/97] fix: restored precoders lose their owning precoding

---
 hermespy/core/precoding.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hermespy/core/precoding.py b/hermespy/core/precoding.py
index f782074..07b422d 100644
--- a/hermespy/core/precoding.py
+++ b/hermespy/core/precoding.py
@@ -191,7 +191,8 @@ class Precoding(Sequence[PrecoderType], Generic[PrecoderType], Serializable):
     @classmethod
     def Deserialize(cls, process: DeserializationProcess) -> Precoding[PrecoderType]:
         precoding = cls()
-        precoding.__precoders = process.deserialize_object_sequence("precoders", Precoder)  # type: ignore
+        for precoder in process.deserialize_object_sequence("precoders", Precoder):
+            precoding[len(precoding)] = precoder  # type: ignore
         return precoding
 
 
-- 
2.43.0


From a3090c7a29ff88a49334a9babc14edf1d04cb38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 22/97] fix: deserialized channel state information loses its
 dimensions

---
 hermespy/core/channel.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hermespy/core/channel.py b/hermespy/core/channel.py
index e703ddd..359fb48 100644
--- a/hermespy/core/channel.py
+++ b/hermespy/core/channel.py
@@ -541,6 +541,8 @@ class ChannelStateInformation(Serializable):
     def serialize(self, process: SerializationProcess) -> None:
         process.serialize_integer(self.__state_format.value, "state_format")
         process.serialize_array(self.dense_state(), "state", cache=False)
+        process.serialize_integer(self.num_delay_taps, "num_delay_taps")
+        process.serialize_integer(self.__num_frequency_bins, "num_frequency_bins")
 
     @classmethod
     def Deserialize(
@@ -548,4 +550,9 @@ class ChannelStateInformation(Serializable):
     ) -> ChannelStateInformation:
         state_format = ChannelStateFormat(process.deserialize_integer("state_format"))
         state = process.deserialize_array("state", np.complex128)
-        return cls(state_format, state)
+        return cls(
+            state_format,
+            state,
+            process.deserialize_integer("num_delay_taps", None),
+            process.deserialize_integer("num_frequency_bins", None),
+        )
-- 
2.43.0


From 7918e87e0ac764eca9558e6f19a99d5d461283d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 23/97] fix: serialization of selected ports, 5G NR resources
 and radar waveforms

---
 hermespy/core/operators.py  | 12 +++++++++++-
 hermespy/jcas/ofdm_radar.py | 20 ++++++++++++++++++--
 hermespy/modem/ieee_5gnr.py |  4 ++--
 3 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/hermespy/core/operators.py b/hermespy/core/operators.py
index 7a0f88e..619ffb1 100644
--- a/hermespy/core/operators.py
+++ b/hermespy/core/operators.py
@@ -154,13 +154,23 @@ class SignalTransmitter(StaticOperator, Transmitter[Transmission], Serializable)
     @override
     def serialize(self, process: SerializationProcess) -> None:
         process.serialize_object(self.__signal, "signal")
+        if self.selected_transmit_ports is not None:
+            process.serialize_array(
+                np.asarray(self.selected_transmit_ports, np.int64), "selected_transmit_ports"
+            )
 
     @override
     @classmethod
     def Deserialize(
         cls: Type[SignalTransmitter], process: DeserializationProcess
     ) -> SignalTransmitter:
-        return SignalTransmitter(process.deserialize_object("signal", Signal))
+        transmit_ports = process.deserialize_array("selected_transmit_ports", np.int64, None)
+        return SignalTransmitter(
+            process.deserialize_object("signal", Signal),
+            selected_transmit_ports=(
+                transmit_ports.flatten().tolist() if transmit_ports is not None else None
+            ),
+        )
 
 
 class SignalReceiver(StaticOperator, Receiver[Reception], Serializable):
diff --git a/hermespy/jcas/ofdm_radar.py b/hermespy/jcas/ofdm_radar.py
index d0578f9..bd25f95 100644
--- a/hermespy/jcas/ofdm_radar.py
+++ b/hermespy/jcas/ofdm_radar.py
@@ -10,7 +10,14 @@ from scipy.constants import speed_of_light
 from scipy.fft import ifft, fft, ifftshift
 
 from hermespy.beamforming import ReceiveBeamformer
-from hermespy.core import DeserializationProcess, Serializable, ReceiveState, Signal, TransmitState
+from hermespy.core import (
+    DeserializationProcess,
+    ReceiveState,
+    Serializable,
+    SerializationProcess,
+    Signal,
+    TransmitState,
+)
 from hermespy.jcas.jcas import JCASReception, JCASTransmission
 from hermespy.modem import OFDMWaveform, ReceivingModemBase, TransmittingModemBase, Symbols
 from hermespy.radar import RadarCube, RadarDetector, RadarReception
@@ -254,7 +261,16 @@ class OFDMRadar(DuplexJCASOperator[OFDMWaveform], Serializable):
         radar_reception = RadarReception(signal, cube, cloud)
         return JCASReception(communication_reception, radar_reception)
 
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        DuplexJCASOperator.serialize(self, process)
+        if self.waveform is not None:
+            process.serialize_object(self.waveform, "waveform")
+
     @classmethod
     @override
     def Deserialize(cls: Type[OFDMRadar], process: DeserializationProcess) -> OFDMRadar:
-        return cls(**cls._DeserializeParameters(process))  # type: ignore[arg-type]
+        return cls(
+            waveform=process.deserialize_object("waveform", OFDMWaveform, None),
+            **cls._DeserializeParameters(process),  # type: ignore[arg-type]
+        )
diff --git a/hermespy/modem/ieee_5gnr.py b/hermespy/modem/ieee_5gnr.py
index ce081ee..a9f3a8f 100644
--- a/hermespy/modem/ieee_5gnr.py
+++ b/hermespy/modem/ieee_5gnr.py
@@ -118,10 +118,10 @@ class NRSlotLink(SimplexLink):
         return NRSlotLink(
             num_resource_blocks=slot.num_resource_blocks,
             selected_transmit_ports=(
-                selected_transmit_ports.tolist() if selected_transmit_ports else None
+                selected_transmit_ports.tolist() if selected_transmit_ports is not None else None
             ),
             selected_receive_ports=(
-                selected_receive_ports.tolist() if selected_receive_ports else None
+                selected_receive_ports.tolist() if selected_receive_ports is not None else None
             ),
             carrier_frequency=process.deserialize_floating("carrier_frequency", None),
             bits_source=process.deserialize_object("bits_source", BitsSource),
-- 
2.43.0


From 57bfdf34991304fa1a5e2262b1215326bf18e413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 24/97] fix: serialization of impedance coupling drops
 imaginary parts

---
 hermespy/simulation/coupling/impedance.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hermespy/simulation/coupling/impedance.py b/hermespy/simulation/coupling/impedance.py
index 97b5301..deae068 100644
--- a/hermespy/simulation/coupling/impedance.py
+++ b/hermespy/simulation/coupling/impedance.py
@@ -233,10 +233,10 @@ class ImpedanceCoupling(Coupling):
     def Deserialize(cls, process: DeserializationProcess) -> ImpedanceCoupling:
         return cls(
             transmit_correlation=process.deserialize_array(
-                "transmit_correlation", np.float64, None
+                "transmit_correlation", np.complex128, None
             ),
-            receive_correlation=process.deserialize_array("receive_correlation", np.float64, None),
-            transmit_impedance=process.deserialize_array("transmit_impedance", np.float64, None),
-            receive_impedance=process.deserialize_array("receive_impedance", np.float64, None),
-            matching_impedance=process.deserialize_array("matching_impedance", np.float64, None),
+            receive_correlation=process.deserialize_array("receive_correlation", np.complex128, None),
+            transmit_impedance=process.deserialize_array("transmit_impedance", np.complex128, None),
+            receive_impedance=process.deserialize_array("receive_impedance", np.complex128, None),
+            matching_impedance=process.deserialize_array("matching_impedance", np.complex128, None),
         )
-- 
2.43.0


From 9a01516e7d8aaf7375d2b6ead69e91b469c0b698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 25/97] fix: serialization of converters, ramps and noise
 levels

---
 hermespy/simulation/rf/blocks/ad.py   | 9 +++++++++
 hermespy/simulation/rf/blocks/ramp.py | 4 ++++
 hermespy/simulation/rf/noise/level.py | 3 ++-
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/hermespy/simulation/rf/blocks/ad.py b/hermespy/simulation/rf/blocks/ad.py
index 18e2c90..eabec30 100644
--- a/hermespy/simulation/rf/blocks/ad.py
+++ b/hermespy/simulation/rf/blocks/ad.py
@@ -613,6 +613,11 @@ class ADC(ConverterBase, DSPOutputBlock):
             process.serialize_integer(self.num_quantization_bits, "num_quantization_bits")
         process.serialize_object(self.gain, "gain")
         process.serialize_object(self.quantizer_type, "quantizer_type")
+        process.serialize_integer(self.num_output_ports, "num_ports")
+        process.serialize_object(self.noise_model, "noise_model")
+        process.serialize_object(self.noise_level, "noise_level")
+        if self.seed is not None:
+            process.serialize_integer(self.seed, "seed")
 
     @override
     @classmethod
@@ -621,6 +626,10 @@ class ADC(ConverterBase, DSPOutputBlock):
             process.deserialize_integer("num_quantization_bits", None),
             process.deserialize_object("gain", GainControlBase, None),
             process.deserialize_object("quantizer_type", QuantizerType, QuantizerType.MID_RISER),
+            process.deserialize_integer("num_ports", 1),
+            process.deserialize_object("noise_model", NoiseModel, None),
+            process.deserialize_object("noise_level", NoiseLevel, None),
+            process.deserialize_integer("seed", None),
         )
 
 
diff --git a/hermespy/simulation/rf/blocks/ramp.py b/hermespy/simulation/rf/blocks/ramp.py
index fd28f6a..76bd4c2 100644
--- a/hermespy/simulation/rf/blocks/ramp.py
+++ b/hermespy/simulation/rf/blocks/ramp.py
@@ -216,6 +216,8 @@ class RampGenerator(RFBlock):
         process.serialize_floating(self.chirp_slope, "chirp_slope")
         process.serialize_floating(self.chirp_interval, "chirp_interval")
         process.serialize_integer(self.num_chirps, "num_chirps")
+        process.serialize_object(self.noise_model, "noise_model")
+        process.serialize_object(self.noise_level, "noise_level")
         if self.seed is not None:
             process.serialize_integer(self.seed, "seed")
 
@@ -227,5 +229,7 @@ class RampGenerator(RFBlock):
             chirp_bandwidth=process.deserialize_floating("chirp_bandwidth"),
             chirp_slope=process.deserialize_floating("chirp_slope"),
             chirp_interval=process.deserialize_floating("chirp_interval"),
+            noise_model=process.deserialize_object("noise_model", NoiseModel, None),
+            noise_level=process.deserialize_object("noise_level", NoiseLevel, None),
             seed=process.deserialize_integer("seed", None),
         )
diff --git a/hermespy/simulation/rf/noise/level.py b/hermespy/simulation/rf/noise/level.py
index 5b1c4e4..79b78ed 100644
--- a/hermespy/simulation/rf/noise/level.py
+++ b/hermespy/simulation/rf/noise/level.py
@@ -301,5 +301,6 @@ class SNR(NoiseLevel):
     @override
     def Deserialize(cls, process: DeserializationProcess) -> SNR:
         return cls(
-            process.deserialize_floating("snr"), process.deserialize_object("reference", Device)
+            process.deserialize_floating("snr"),
+            process.deserialize_object("reference", Device | Transmitter | Receiver),
         )
-- 
2.43.0


From c2209d4cc02dd7767d23777cef94ade48afb521b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 26/97] fix: simulated devices are serialized without antennas
 and dummies without parameters

---
 hermespy/hardware_loop/physical_device_dummy.py | 17 +++++++++++++++++
 hermespy/simulation/simulated_device.py         |  1 +
 2 files changed, 18 insertions(+)

diff --git a/hermespy/hardware_loop/physical_device_dummy.py b/hermespy/hardware_loop/physical_device_dummy.py
index d132eab..8ea268c 100644
--- a/hermespy/hardware_loop/physical_device_dummy.py
+++ b/hermespy/hardware_loop/physical_device_dummy.py
@@ -15,6 +15,7 @@ from hermespy.core import (
     ReceiveSignalCoding,
     ReceiveStreamDecoder,
     Serializable,
+    SerializationProcess,
     Signal,
     Transformation,
     Transmission,
@@ -279,6 +280,22 @@ class PhysicalDeviceDummy(SimulatedDevice, PhysicalDevice, Serializable):
     def max_sampling_rate(self) -> float:
         return self.sampling_rate
 
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        SimulatedDevice.serialize(self, process)
+        PhysicalDevice.serialize(self, process)
+        process.serialize_integer(int(self.receive_transmission), "receive_transmission")
+
+    @classmethod
+    @override
+    def _DeserializeParameters(cls, process: DeserializationProcess) -> dict[str, object]:
+        parameters = SimulatedDevice._DeserializeParameters(process)
+        parameters.update(PhysicalDevice._DeserializeParameters(process))
+        parameters["receive_transmission"] = bool(
+            process.deserialize_integer("receive_transmission", True)
+        )
+        return parameters
+
     @classmethod
     @override
     def Deserialize(
diff --git a/hermespy/simulation/simulated_device.py b/hermespy/simulation/simulated_device.py
index 40b4f87..0f67aae 100644
--- a/hermespy/simulation/simulated_device.py
+++ b/hermespy/simulation/simulated_device.py
@@ -2075,6 +2075,7 @@ class SimulatedDevice(Device[SimulatedDeviceState], Moveable):
     @override
     def serialize(self, process: SerializationProcess) -> None:
         Device.serialize(self, process)
+        process.serialize_object(self.antennas, "antennas")
         process.serialize_object(self.rf, "rf")
         process.serialize_object(self.isolation, "isolation")
         process.serialize_object(self.coupling, "coupling")
-- 
2.43.0


From 05eb87c38b0faac628ccd87a311ed35610224d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:30 +0000
Subject: [PATCH 27/97] fix: shared arrays read with different data types

---
 hermespy/core/factory.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hermespy/core/factory.py b/hermespy/core/factory.py
index a5a3c78..eb40985 100644
--- a/hermespy/core/factory.py
+++ b/hermespy/core/factory.py
@@ -1094,11 +1094,13 @@ class HDFDeserializationProcess(DeserializationProcess):
         )
 
         # If the array has already been deserialized, just return a reference to it
-        if array_dataset.name in self.__arrays:
-            return self.__arrays[array_dataset.name]
+        # Arrays may be read with different data types
+        array_key = f"{array_dataset.name}:{np.dtype(dtype).str}"
+        if array_key in self.__arrays:
+            return self.__arrays[array_key]
 
         deserialized_array = np.asarray(array_dataset[()]).astype(dtype)
-        self.__arrays[array_dataset.name] = deserialized_array
+        self.__arrays[array_key] = deserialized_array
         return deserialized_array
 
     def __fetch_attribute(self, name: str, default: _RT | UNDEF_TYPE) -> UNDEF_TYPE | _RT:
-- 
2.43.0


From e02c7f83166cd80ab0016633f2a4f7a3124ab3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 28/97] fix: Monte Carlo results attributed to wrong sections
 and lost or duplicated during collection

---
 hermespy/core/pymonte/actors.py      | 22 +++++++++++++++++-----
 hermespy/core/pymonte/monte_carlo.py | 23 +++++++++++++++++------
 2 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/hermespy/core/pymonte/actors.py b/hermespy/core/pymonte/actors.py
index f330fbe..8fb3891 100644
--- a/hermespy/core/pymonte/actors.py
+++ b/hermespy/core/pymonte/actors.py
@@ -174,17 +174,16 @@ class MonteCarloCollector(object):
         self.__queue_manager = queue_manager
         self.__actors = actors
         self.__results = [e.initialize_result(grid) for e in evaluators]
-        self.__active = False
+        self.__active = True
         self.__future_map: dict[ObjectRef, MonteCarloActor] = {}
 
     def run(self) -> None:
         """Start up the collector, collecting samples from all actors.
 
-        This method will block and keep running until :meth:`fetch_results` is called.
+        This method will block and keep running until :meth:`stop` is called.
         """
 
         self.__future_map = {a.fetch_results.remote(): a for a in self.__actors}  # type: ignore[attr-defined]
-        self.__active = True
 
         while self.__active:
             # Wait for the next sample to be available
@@ -197,6 +196,14 @@ class MonteCarloCollector(object):
             actor = self.__future_map.pop(ready_future)
             self.__future_map[actor.fetch_results.remote()] = actor  # type: ignore[attr-defined]
 
+    def stop(self) -> None:
+        """Request the collector to stop collecting samples.
+
+        The routine executing :meth:`run` will return after processing its current request.
+        """
+
+        self.__active = False
+
     def __process_samples(
         self,
         ready_future: ObjectRef[list[ObjectRef[list[MonteCarloSample]]]],
@@ -236,14 +243,19 @@ class MonteCarloCollector(object):
     def fetch_results(self) -> list[EvaluationResult]:
         """Fetch the results of the collector run.
 
+        Should only be called after :meth:`run` returned and all actors finished their execution.
+
         Returns: list of evaluation results from the collector run.
         """
 
         # Stop the collector
-        self.__active = False
+        self.stop()
 
-        # Process the last results within the queue
+        # Process the last results within the queue and the samples
+        # generated by the actors after the pending requests were answered
         query_futures = list(self.__future_map.keys())
+        query_futures.extend(a.fetch_results.remote() for a in self.__actors)  # type: ignore[attr-defined]
+        self.__future_map = {}
         futures = wait(query_futures, num_returns=len(query_futures))[0]
 
         for future in futures:
diff --git a/hermespy/core/pymonte/monte_carlo.py b/hermespy/core/pymonte/monte_carlo.py
index bc61dc6..9d9adc7 100644
--- a/hermespy/core/pymonte/monte_carlo.py
+++ b/hermespy/core/pymonte/monte_carlo.py
@@ -358,7 +358,7 @@ class MonteCarlo(Generic[MO]):
             remote_queue_manager_class = ray.remote(MonteCarloQueueManager)
             queue_manager = remote_queue_manager_class.options(
                 num_cpus=0, enable_task_events=self.__debug
-            ).remote(self.dimensions, self.num_samples)
+            ).remote(_dimensions, self.num_samples)
 
             # Initialize actor pool
             remote_actor_class = ray.remote(actor)
@@ -368,7 +368,7 @@ class MonteCarlo(Generic[MO]):
             remote_collector_class = ray.remote(MonteCarloCollector)
             collector = remote_collector_class.options(
                 num_cpus=0, max_concurrency=2, enable_task_events=self.__debug
-            ).remote(queue_manager, actors, self.dimensions, self.evaluators)
+            ).remote(queue_manager, actors, _dimensions, self.evaluators)
 
         # Initialize progress bar
         progress = Progress(
@@ -382,11 +382,10 @@ class MonteCarlo(Generic[MO]):
         with Live(status_group, console=self.console) if self.__console_mode == ConsoleMode.INTERACTIVE else nullcontext():  # type: ignore
 
             # Start running the actors
-            for a in actors:
-                _ = a.run.remote()  # type: ignore
+            actor_runs = [a.run.remote() for a in actors]  # type: ignore
 
             # Start the collector
-            _ = collector.run.remote()  # type: ignore
+            collector_run = collector.run.remote()  # type: ignore
 
             # Compute parameters for displaying interemediate results
             page_counter = 0
@@ -464,6 +463,11 @@ class MonteCarlo(Generic[MO]):
                 elif self.__console_mode == ConsoleMode.LINEAR:
                     self.console.log(f"Progress: {100*queue_progress:.2f}%")
 
+                # Stop querying the progress if all actors terminated, for example due to exceptions
+                finished_runs, _ = ray.wait(actor_runs, num_returns=len(actor_runs), timeout=0)
+                if len(finished_runs) >= len(actor_runs):
+                    break
+
             # Make the console pretty upon exit
             if self.__console_mode == ConsoleMode.INTERACTIVE:
                 progress.update(task1, completed=1.0)
@@ -471,6 +475,13 @@ class MonteCarlo(Generic[MO]):
         # Fetch all remote samples at the controller#
         with self.console.status("Collecting remote results ...", spinner="dots") if self.__console_mode == ConsoleMode.INTERACTIVE else nullcontext():  # type: ignore
 
+            # Wait for all actors to finish their remaining batches
+            ray.get(actor_runs)
+
+            # Stop the collector before fetching the remaining samples
+            ray.get(collector.stop.remote())  # type: ignore
+            ray.get(collector_run)
+
             evaluation_results: list[EvaluationResult] = ray.get(collector.fetch_results.remote())  # type: ignore
 
         # Measure elapsed time
@@ -479,7 +490,7 @@ class MonteCarlo(Generic[MO]):
 
         # Compute the final result
         simulation_result = MonteCarloResult(
-            _dimensions, self.__evaluators, evaluation_results, 0.0
+            _dimensions, self.__evaluators, evaluation_results, performance_time
         )
 
         # Print results
-- 
2.43.0


From 95856d1786a11cf9b280b6e4b0785b44abfbc60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:54 +0000
Subject: [PATCH 29/97] fix: progress of multi-dimensional Monte Carlo grids

---
 hermespy/core/pymonte/actors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/core/pymonte/actors.py b/hermespy/core/pymonte/actors.py
index 8fb3891..e353ca3 100644
--- a/hermespy/core/pymonte/actors.py
+++ b/hermespy/core/pymonte/actors.py
@@ -144,7 +144,7 @@ class MonteCarloQueueManager(object):
 
         return (
             (self.__num_grid_sections - self.__num_active_sections) * self.__num_samples
-            + np.sum(self.__grid_task_count[self.__active_section_coordinates])
+            + np.sum(self.__grid_task_count[tuple(self.__active_section_coordinates.T)])
         ) / self.__max_num_samples, self.__active_section_flags
 
 
-- 
2.43.0


From 86b158dd02ac3b90abe034f2f3647ef0bb68b225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:06 +0000
Subject: [PATCH 30/97] fix: samples generated while fetching the results of an
 actor are lost

---
 hermespy/core/pymonte/actors.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hermespy/core/pymonte/actors.py b/hermespy/core/pymonte/actors.py
index e353ca3..2ea040e 100644
--- a/hermespy/core/pymonte/actors.py
+++ b/hermespy/core/pymonte/actors.py
@@ -372,8 +372,11 @@ class MonteCarloActor(Generic[MO]):
         Returns: list of results from the actor run.
         """
 
-        results = self.__results.copy()
-        self.__results.clear()  # Clear the results after fetching
+        # Samples might be appended concurrently by the run routine
+        results: list[ObjectRef[list[MonteCarloSample]]] = []
+        while len(self.__results) > 0:
+            results.append(self.__results.pop(0))
+
         return results
 
     def __run_batch(self, batch: list[tuple[int, ...]]) -> list[MonteCarloSample]:
-- 
2.43.0


From 837fd995063f2841fb5a998d8813839d17e2d1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:06 +0000
Subject: [PATCH 31/97] fix: stages executed for dimensions with unknown impact
 and stages with multiple arguments

---
 hermespy/core/pymonte/actors.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/hermespy/core/pymonte/actors.py b/hermespy/core/pymonte/actors.py
index 2ea040e..fc64e5f 100644
--- a/hermespy/core/pymonte/actors.py
+++ b/hermespy/core/pymonte/actors.py
@@ -418,19 +418,19 @@ class MonteCarloActor(Generic[MO]):
                 for d in reconfigured_dimensions:
                     grid_dimension = self.__grid[int(d)]
 
-                    if grid_dimension.first_impact is None:
+                    if grid_dimension.first_impact not in self.__stage_identifiers:
                         first_impact = 0
 
-                    elif grid_dimension.first_impact in self.__stage_identifiers:
+                    else:
                         first_impact = min(
                             first_impact,
                             self.__stage_identifiers.index(grid_dimension.first_impact),
                         )
 
-                    if grid_dimension.last_impact is None:
+                    if grid_dimension.last_impact not in self.__stage_identifiers:
                         last_impact = self.__num_stages - 1
 
-                    elif grid_dimension.last_impact in self.__stage_identifiers:
+                    else:
                         last_impact = max(
                             last_impact, self.__stage_identifiers.index(grid_dimension.last_impact)
                         )
@@ -441,6 +441,12 @@ class MonteCarloActor(Generic[MO]):
                 if last_impact <= 0:
                     last_impact = self.__num_stages - 1
 
+                # Stages iterating over multiple arguments must be executed for every section
+                for stage_index, stage_identifier in enumerate(self.__stage_identifiers):
+                    if len(self.__stage_arguments.get(stage_identifier, [tuple()])) > 1:
+                        first_impact = min(first_impact, stage_index)
+                        last_impact = max(last_impact, stage_index)
+
                 artifacts: list[list[Artifact]] = []
                 self.__execute_stages(first_impact, last_impact, artifacts)
 
-- 
2.43.0


From 6fa09b06242e2f751a95fafddb927641f8044092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:17 +0000
Subject: [PATCH 32/97] fix: simulations ignore the trajectories of moving
 devices

---
 hermespy/simulation/simulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hermespy/simulation/simulation.py b/hermespy/simulation/simulation.py
index 139fe3f..072ae63 100644
--- a/hermespy/simulation/simulation.py
+++ b/hermespy/simulation/simulation.py
@@ -419,9 +419,9 @@ class Simulation(Pipeline[SimulationScenario, SimulatedDevice], MonteCarlo[Simul
             if max_timestamp > 0.0
             else np.zeros(1, np.float64)
         )
-        stage_arguments = dict()
+        stage_arguments: dict[str, object] = dict()
         if timestamps[-1] > 0.0:
-            stage_arguments["sample_trajectories"] = [(t,) for t in timestamps]
+            stage_arguments["sample_states"] = [(t,) for t in timestamps]
 
         if self.console_mode != ConsoleMode.SILENT:
             self.console.log(
@@ -429,7 +429,7 @@ class Simulation(Pipeline[SimulationScenario, SimulatedDevice], MonteCarlo[Simul
             )
 
         # Generate simulation result
-        result = self.simulate(SimulationActor)
+        result = self.simulate(SimulationActor, stage_arguments=stage_arguments)
 
         # Visualize results if the flag respective is enabled
         visualizations: Sequence[Visualization] = []
-- 
2.43.0


From 0875aabf8d0085ca1aa49100f09abf48e927a300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:56 +0000
Subject: [PATCH 33/97] fix: collector requests the remaining samples of each
 actor once

---
 hermespy/core/pymonte/actors.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/hermespy/core/pymonte/actors.py b/hermespy/core/pymonte/actors.py
index fc64e5f..8a6c8dc 100644
--- a/hermespy/core/pymonte/actors.py
+++ b/hermespy/core/pymonte/actors.py
@@ -251,18 +251,28 @@ class MonteCarloCollector(object):
         # Stop the collector
         self.stop()
 
-        # Process the last results within the queue and the samples
-        # generated by the actors after the pending requests were answered
+        # Process the last results within the queue
         query_futures = list(self.__future_map.keys())
-        query_futures.extend(a.fetch_results.remote() for a in self.__actors)  # type: ignore[attr-defined]
         self.__future_map = {}
+        self.__process_futures(query_futures)
+
+        # Process the samples generated after the pending requests were answered
+        self.__process_futures([a.fetch_results.remote() for a in self.__actors])  # type: ignore[attr-defined]
+
+        return self.__results
+
+    def __process_futures(self, query_futures: list[ObjectRef]) -> None:
+        """Wait for and process the samples of multiple requests.
+
+        Args:
+            query_futures: References to the requested samples.
+        """
+
         futures = wait(query_futures, num_returns=len(query_futures))[0]
 
         for future in futures:
             self.__process_samples(future, False)
 
-        return self.__results
-
 
 class MonteCarloActor(Generic[MO]):
     """Monte Carlo Simulation Actor.
-- 
2.43.0


From acffffd4523dc330e5b0dcbc5eaeea2215d5fb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:48 +0000
Subject: [PATCH 34/97] fix: configured batch size of Monte Carlo simulations
 is ignored

---
 hermespy/core/pymonte/monte_carlo.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hermespy/core/pymonte/monte_carlo.py b/hermespy/core/pymonte/monte_carlo.py
index 9d9adc7..9c46eac 100644
--- a/hermespy/core/pymonte/monte_carlo.py
+++ b/hermespy/core/pymonte/monte_carlo.py
@@ -311,15 +311,13 @@ class MonteCarlo(Generic[MO]):
         _dimensions.sort(key=sort)
 
         num_sections = 1
-        min_batch_size = 0
         dimension_str = f"{self.num_samples}"
         for dimension in _dimensions:
-            min_batch_size += dimension.num_sample_points
             num_sections *= dimension.num_sample_points
             dimension_str += f" x {dimension.num_sample_points}"
         max_num_samples = num_sections * self.num_samples
 
-        _batch_size = max(min_batch_size, self.batch_size)
+        _batch_size = num_sections if self.__batch_size is None else self.__batch_size
 
         if self.__console_mode != ConsoleMode.SILENT:
             self.console.log(
@@ -358,7 +356,7 @@ class MonteCarlo(Generic[MO]):
             remote_queue_manager_class = ray.remote(MonteCarloQueueManager)
             queue_manager = remote_queue_manager_class.options(
                 num_cpus=0, enable_task_events=self.__debug
-            ).remote(_dimensions, self.num_samples)
+            ).remote(_dimensions, self.num_samples, _batch_size)
 
             # Initialize actor pool
             remote_actor_class = ray.remote(actor)
-- 
2.43.0


From a2baa24f78c0e84c17838084c25f85d2348aabcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:48 +0000
Subject: [PATCH 35/97] fix: sections are aborted before all evaluators are
 confident

---
 hermespy/core/pymonte/actors.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/hermespy/core/pymonte/actors.py b/hermespy/core/pymonte/actors.py
index 8a6c8dc..408e384 100644
--- a/hermespy/core/pymonte/actors.py
+++ b/hermespy/core/pymonte/actors.py
@@ -176,6 +176,7 @@ class MonteCarloCollector(object):
         self.__results = [e.initialize_result(grid) for e in evaluators]
         self.__active = True
         self.__future_map: dict[ObjectRef, MonteCarloActor] = {}
+        self.__confident_evaluators: dict[tuple[int, ...], set[int]] = {}
 
     def run(self) -> None:
         """Start up the collector, collecting samples from all actors.
@@ -222,13 +223,22 @@ class MonteCarloCollector(object):
                 section_coordinates = sample.grid_section
 
                 # Update all evaluation results with their respective sample artifacts
-                for evaluation_result, artifact in zip(self.__results, sample.artifacts):
+                for e, (evaluation_result, artifact) in enumerate(
+                    zip(self.__results, sample.artifacts)
+                ):
                     confident = evaluation_result.add_artifact(
                         section_coordinates, artifact, compute_confidence
                     )
 
-                    # If the confidence threshold is reached, disable the section
-                    if compute_confidence and confident:
+                    if not (compute_confidence and confident):
+                        continue
+
+                    # If all evaluators reached their confidence threshold, disable the section
+                    confident_evaluators = self.__confident_evaluators.setdefault(
+                        tuple(section_coordinates), set()
+                    )
+                    confident_evaluators.add(e)
+                    if len(confident_evaluators) >= len(self.__results):
                         self.__queue_manager.disable_section.remote(section_coordinates)  # type: ignore[attr-defined]
 
     def query_estimates(self) -> list[None | np.ndarray]:
-- 
2.43.0


From fb8b96ab67fd694474f0bf1e39ed27a5503699bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:19 +0000
Subject: [PATCH 36/97] fix: appending arrays of real-valued samples to signals
 fails

---
 hermespy/core/signal_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index 0ef1a2b..2a53902 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -1403,7 +1403,7 @@ class DenseSignal(SignalBlock, Signal):  # type: ignore[misc]
 
         else:
             addedblocks_resampled = [
-                SignalBlock(value.shape[0], value.shape[1], 0, value.tobytes())
+                SignalBlock(value.shape[0], value.shape[1], 0, value.astype(np.complex128).tobytes())
             ]
 
         # Allocate new memory
@@ -1435,7 +1435,7 @@ class DenseSignal(SignalBlock, Signal):  # type: ignore[misc]
 
         else:
             addedblocks_resampled = [
-                SignalBlock(value.shape[0], value.shape[1], 0, value.tobytes())
+                SignalBlock(value.shape[0], value.shape[1], 0, value.astype(np.complex128).tobytes())
             ]
 
         # Allocate new memory
@@ -2497,7 +2497,7 @@ class SparseSignal(Signal):
                 added_blocks.append(resampled_block)
         else:
             added_blocks = [
-                SignalBlock(value.shape[0], value.shape[1], self.num_samples, value.tobytes())
+                SignalBlock(value.shape[0], value.shape[1], self.num_samples, value.astype(np.complex128).tobytes())
             ]
 
         # Attach new blocks to existing ones
-- 
2.43.0


From a6a97efda94a35b588f3744263e45d8a54176233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:46 +0000
Subject: [PATCH 37/97] fix: orientations in gimbal lock, quaternions and view
 directions of transformations

---
 hermespy/core/transformation.py | 36 ++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/hermespy/core/transformation.py b/hermespy/core/transformation.py
index d515f68..ce13b86 100644
--- a/hermespy/core/transformation.py
+++ b/hermespy/core/transformation.py
@@ -79,7 +79,7 @@ class Direction(np.ndarray):
 
         # Equation 7.1-7 of ETSI TR 138901 v17
         # Only valid if the direction has been normalized!!!!
-        zenith = np.arccos(unit_vector[2])
+        zenith = np.arccos(min(1.0, max(-1.0, unit_vector[2])))
 
         return np.array([azimuth, zenith], dtype=np.float64)
 
@@ -147,13 +147,18 @@ class Transformation(np.ndarray, Serializable):
 
         c = (self[0, 0] ** 2 + self[1, 0] ** 2) ** 0.5
 
-        if c != 0:
+        if c > 1e-8:
             rpy = np.arctan2(
                 [self[2, 1] / c, -self[2, 0], self[1, 0] / c], [self[2, 2] / c, c, self[0, 0] / c]
             )
 
         else:
-            rpy = np.array([np.arctan2(self[0, 1], self[1, 1]), 0.5 * np.pi, 0], dtype=np.float64)
+            # Gimbal lock, only the difference between roll and yaw is determined
+            pitch = -np.sign(self[2, 0])
+            rpy = np.array(
+                [np.arctan2(pitch * self[0, 1], self[1, 1]), pitch * 0.5 * np.pi, 0],
+                dtype=np.float64,
+            )
 
         return rpy.view(np.ndarray)
 
@@ -209,7 +214,7 @@ class Transformation(np.ndarray, Serializable):
             S = 2 * (tr + 1.0) ** 0.5
             return np.array(
                 [
-                    0.25 / S,
+                    0.25 * S,
                     (self[2, 1] - self[1, 2]) / S,
                     (self[0, 2] - self[2, 0]) / S,
                     (self[1, 0] - self[0, 1]) / S,
@@ -222,7 +227,7 @@ class Transformation(np.ndarray, Serializable):
             return np.array(
                 [
                     (self[2, 1] - self[1, 2]) / S,
-                    0.25 / S,
+                    0.25 * S,
                     (self[0, 1] + self[1, 0]) / S,
                     (self[0, 2] + self[2, 0]) / S,
                 ],
@@ -235,7 +240,7 @@ class Transformation(np.ndarray, Serializable):
                 [
                     (self[0, 2] - self[2, 0]) / S,
                     (self[0, 1] + self[1, 0]) / S,
-                    0.25 / S,
+                    0.25 * S,
                     (self[1, 2] + self[2, 1]) / S,
                 ],
                 dtype=np.float64,
@@ -247,7 +252,7 @@ class Transformation(np.ndarray, Serializable):
                 (self[1, 0] - self[0, 1]) / S,
                 (self[0, 2] + self[2, 0]) / S,
                 (self[1, 2] + self[2, 1]) / S,
-                0.25 / S,
+                0.25 * S,
             ],
             dtype=np.float64,
         )
@@ -468,18 +473,28 @@ class Transformation(np.ndarray, Serializable):
         up_ = np.asarray(up)
         if up_.shape != (3,):
             raise ValueError(f"Got up of an unexpected shape (expected (3,), got {up_.shape})")
-        up_ /= np.linalg.norm(up_)
+        up_ = up_ / np.linalg.norm(up_)
 
         # Calculate new orientation
         # forward vector
         pos = self.translation
         f = target_ - pos
         f_norm = np.linalg.norm(f)
-        f = f / f_norm if f_norm != 0.0 else pos  # normalize
+        # The direction towards the target is undefined if it coincides with the position
+        if f_norm == 0.0:
+            return self
+
+        f = f / f_norm  # normalize
         # side/right vector
         s = np.cross(up_, f)
         s_norm = np.linalg.norm(s)
-        s = s / s_norm if s_norm != 0.0 else up_  # normalize
+
+        # Select the axis closest to perpendicular if the sky vector is parallel to the view
+        if s_norm < 1e-12:
+            s = np.cross(np.eye(3)[np.argmin(np.abs(f))], f)
+            s_norm = np.linalg.norm(s)
+
+        s = s / s_norm  # normalize
         # up vector
         u = np.cross(f, s)
         # Calcualte the new transformation matrix
@@ -771,6 +786,7 @@ class Transformable(Serializable, TransformableLink):
         """
 
         self.pose.lookat(target, up)
+        self._kinematics_updated()
 
     def _kinematics_updated(self) -> None:
         # Clear the cached forwards transformation if the base has been updated
-- 
2.43.0


From 23905831ec962f309cd6c520235e2a168ebf83ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:46 +0000
Subject: [PATCH 38/97] fix: static trajectories ignore their look-at target
 and the b-shaped trajectory is discontinuous

---
 hermespy/simulation/animation.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/hermespy/simulation/animation.py b/hermespy/simulation/animation.py
index 94aa632..44a7b57 100644
--- a/hermespy/simulation/animation.py
+++ b/hermespy/simulation/animation.py
@@ -262,6 +262,10 @@ class StaticTrajectory(Trajectory):
         return self.__pose[:3, :3]
 
     def sample(self, timestamp: float) -> TrajectorySample:
+        # The orientation of static objects may still track a moving target
+        if self._lookat_flag:
+            return Trajectory.sample(self, timestamp)
+
         return TrajectorySample(timestamp, self.__pose, self.__velocity)
 
     @staticmethod
@@ -400,13 +404,12 @@ class BITrajectoryB(Trajectory):
         start_point, end_point, start_time, end_time = self.__start_end_point_time(timestamp)
         if timestamp <= start_time or timestamp >= end_time:
             return np.zeros(3, np.float64)
-        return (end_point - start_point) / end_time - start_time
+        return (end_point - start_point) / (end_time - start_time)
 
     def sample_translation(self, timestamp: float) -> np.ndarray:
-        start_point, _, start_time, end_time = self.__start_end_point_time(timestamp)
-        if timestamp <= start_time or timestamp >= end_time:
-            return np.array([0, 0.5 * self.__height, 0], np.float64)
-        return start_point + self.sample_velocity(timestamp) * (timestamp - start_time)
+        start_point, end_point, start_time, end_time = self.__start_end_point_time(timestamp)
+        progress = np.clip((timestamp - start_time) / (end_time - start_time), 0.0, 1.0)
+        return start_point + progress * (end_point - start_point)
 
     def sample_orientation(self, timestamp: float) -> np.ndarray:
         return np.array([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], float)
-- 
2.43.0


From 09ca919f76ffc6c5fa4367ca32d1b84db4d99d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:56 +0000
Subject: [PATCH 39/97] fix: device states ignore the pose of antenna arrays
 relative to their device and trajectories alias poses

---
 hermespy/core/antennas.py        |  3 ++-
 hermespy/simulation/animation.py | 10 ++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/hermespy/core/antennas.py b/hermespy/core/antennas.py
index 438be1d..8616ff0 100644
--- a/hermespy/core/antennas.py
+++ b/hermespy/core/antennas.py
@@ -1293,7 +1293,8 @@ class AntennaArray(AntennaArrayBase, Generic[AT]):
 
         # Create a copy of the antenna elements
         antenna_copies: list[AT] = [a.copy() for a in self.antennas]
-        return AntennaArrayState(antenna_copies, base_pose)
+        global_pose = (base_pose @ self.pose).view(Transformation)
+        return AntennaArrayState(antenna_copies, global_pose)
 
 
 class UniformArray(Generic[AT], AntennaArray[AT], Serializable):
diff --git a/hermespy/simulation/animation.py b/hermespy/simulation/animation.py
index 44a7b57..e4a2b4a 100644
--- a/hermespy/simulation/animation.py
+++ b/hermespy/simulation/animation.py
@@ -176,8 +176,8 @@ class LinearTrajectory(Trajectory):
             raise ValueError("Start time must be non-negative")
 
         # Initialize class attributes
-        self.__initial_pose = initial_pose
-        self.__final_pose = final_pose
+        self.__initial_pose = initial_pose.copy()
+        self.__final_pose = final_pose.copy()
         self.__duration = duration
         self.__start = start
 
@@ -233,8 +233,10 @@ class StaticTrajectory(Trajectory):
     ) -> None:
 
         # Initialize class attributes
-        self.__pose = Transformation.No() if pose is None else pose
-        self.__velocity = np.zeros(3, dtype=np.float64) if velocity is None else velocity
+        self.__pose = Transformation.No() if pose is None else pose.copy()
+        self.__velocity = (
+            np.zeros(3, dtype=np.float64) if velocity is None else np.array(velocity, np.float64)
+        )
 
     @property
     def pose(self) -> Transformation:
-- 
2.43.0


From 0a8af0eb56569efe57985c3de00f9d1d2c8be06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:29 +0000
Subject: [PATCH 40/97] fix: antenna characteristics towards local positions
 and along the axis of dipoles

---
 hermespy/core/antennas.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/hermespy/core/antennas.py b/hermespy/core/antennas.py
index 8616ff0..8c9a2c4 100644
--- a/hermespy/core/antennas.py
+++ b/hermespy/core/antennas.py
@@ -608,8 +608,10 @@ class Dipole(Antenna, Serializable):
         return Dipole(self.mode, self.pose.copy())
 
     def local_characteristics(self, azimuth: float, elevation: float) -> np.ndarray:
+        # The field vanishes along the dipole's axis
+        sin_elevation = sin(elevation)
         vertical_polarization = (
-            0.0 if elevation == 0.0 else cos(0.5 * pi * cos(elevation)) / sin(elevation)
+            0.0 if abs(sin_elevation) < 1e-8 else cos(0.5 * pi * cos(elevation)) / sin_elevation
         )
         return np.array([vertical_polarization, 0.0], dtype=float)
 
@@ -800,8 +802,10 @@ class AntennaArrayBase(ABC, Transformable):
 
         # Handle spherical parameters of function overload
         if not isinstance(arg_0, Direction):
-            global_direction = Direction.From_Cartesian(
-                arg_0 - self.global_position if frame == "global" else arg_0, True
+            global_direction = (
+                Direction.From_Cartesian(arg_0 - self.global_position, True)
+                if frame == "global"
+                else self.forwards_transformation.transform_direction(arg_0, normalize=True)
             )
 
         # Handle cartesian vector parameters of function overload
-- 
2.43.0


From 28d6b303bf340b11c6c2184765b579508d305e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:36 +0000
Subject: [PATCH 41/97] fix: antennas of simulated custom arrays are detached
 from the array's coordinate frame

---
 hermespy/simulation/antennas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/simulation/antennas.py b/hermespy/simulation/antennas.py
index 30442ea..b341973 100644
--- a/hermespy/simulation/antennas.py
+++ b/hermespy/simulation/antennas.py
@@ -356,7 +356,7 @@ class SimulatedAntennaArray(AntennaArray[SimulatedAntenna]):
             axis=0,
         )
 
-        far_field_power = np.empty(aoi.shape[0], dtype=np.float64)
+        far_field_power = np.zeros(aoi.shape[0], dtype=np.float64)
         for idx, (azimuth, zenith) in enumerate(aoi):
             phase_response = self.spherical_phase_response(
                 signal.carrier_frequency, azimuth, zenith, AntennaMode.TX
@@ -821,5 +821,5 @@ class SimulatedCustomArray(SimulatedAntennaArray, CustomAntennaArray[SimulatedAn
         """
 
         # Initialize base classes
-        CustomAntennaArray.__init__(self, ports, pose)
         SimulatedAntennaArray.__init__(self, pose)
+        CustomAntennaArray.__init__(self, ports, pose)
-- 
2.43.0


From 90faf1020a14b00a10d39e75d61d5db0dc7346f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:08 +0000
Subject: [PATCH 42/97] fix: normally distributed leakage ignores the device's
 seed and confuses variance and deviation

---
 hermespy/simulation/isolation/selective.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hermespy/simulation/isolation/selective.py b/hermespy/simulation/isolation/selective.py
index 3c47e9c..c803105 100644
--- a/hermespy/simulation/isolation/selective.py
+++ b/hermespy/simulation/isolation/selective.py
@@ -85,17 +85,17 @@ class SelectiveLeakage(Isolation):
         Returns: An initialized selective frequency model.
         """
 
-        frequency_response = np.random.normal(
+        frequency_response = device._rng.normal(
             np.sqrt(0.5) * mean,
-            variance,
+            np.sqrt(variance),
             (
                 device.antennas.num_receive_antennas,
                 device.antennas.num_transmit_antennas,
                 num_samples,
             ),
-        ) + 1j * np.random.normal(
+        ) + 1j * device._rng.normal(
             np.sqrt(0.5) * mean,
-            variance,
+            np.sqrt(variance),
             (
                 device.antennas.num_receive_antennas,
                 device.antennas.num_transmit_antennas,
-- 
2.43.0


From 849c9a856e8f2d79ca2f72e019c3b1364ac1347f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:08 +0000
Subject: [PATCH 43/97] fix: operators and radio-frequency blocks ignore the
 seed of their simulation

---
 hermespy/core/device.py         | 9 +++++++++
 hermespy/simulation/rf/chain.py | 5 +++++
 2 files changed, 14 insertions(+)

diff --git a/hermespy/core/device.py b/hermespy/core/device.py
index 5be70b5..c91d910 100644
--- a/hermespy/core/device.py
+++ b/hermespy/core/device.py
@@ -818,6 +818,15 @@ class DSPSlot(Generic[DSPType], Sequence[DSPType]):
 
         self.__dsp_algorithms.append(operator)
 
+        # Operators draw from the random number generator of their device,
+        # unless they have been configured to be seeded individually
+        if (
+            isinstance(operator, RandomNode)
+            and operator.random_mother is None
+            and operator.seed is None
+        ):
+            operator.random_mother = self.__device
+
     def remove(self, operator: DSPType) -> None:
         """Remove an operator from this slot.
 
diff --git a/hermespy/simulation/rf/chain.py b/hermespy/simulation/rf/chain.py
index 69bb7bb..16bfd01 100644
--- a/hermespy/simulation/rf/chain.py
+++ b/hermespy/simulation/rf/chain.py
@@ -414,6 +414,11 @@ class RFChain(RandomNode, Serializable):
         block_reference = RFBlockReference(block)
         self.__block_references.append(block_reference)
 
+        # Blocks draw from the random number generator of their chain,
+        # unless they have been configured to be seeded individually
+        if block.random_mother is None and block.seed is None:
+            block.random_mother = self
+
         # Add blocks without RF input ports to the origin blocks list
         if block.num_input_ports < 1:
             self.__rf_origin_blocks.append(block_reference)
-- 
2.43.0


From ba75a5951fc200c6499f5184b6c8ce98f4774af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:57 +0000
Subject: [PATCH 44/97] fix: default channels and channel coders ignore the
 seed of their scenario

---
 hermespy/fec/coding.py          | 8 ++++++++
 hermespy/simulation/scenario.py | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/hermespy/fec/coding.py b/hermespy/fec/coding.py
index 13d9fa5..b288704 100644
--- a/hermespy/fec/coding.py
+++ b/hermespy/fec/coding.py
@@ -205,6 +205,14 @@ class EncoderManager(RandomNode, Serializable):
         if hasattr(encoder, "manager"):
             encoder.manager = self
 
+        # Encoders without a random number generator of their own draw from this configuration
+        if (
+            isinstance(encoder, RandomNode)
+            and encoder.random_mother is None
+            and encoder.seed is None
+        ):
+            encoder.random_mother = self
+
         # Add new encoder to the queue of configured encoders
         self._encoders.append(encoder)
         self._encoders = self.__execution_order()
diff --git a/hermespy/simulation/scenario.py b/hermespy/simulation/scenario.py
index b7bd098..78776f1 100644
--- a/hermespy/simulation/scenario.py
+++ b/hermespy/simulation/scenario.py
@@ -222,6 +222,9 @@ class SimulationScenario(Scenario[SimulatedDevice, SimulatedDeviceState, Simulat
         # Initialize base class
         Scenario.__init__(self, *args, **kwargs)
 
+        # The default channel draws from the scenario's random number generator
+        self.__default_channel.scenario = self
+
         # Initialize class attributes
         self.noise_level = noise_level  # type: ignore[operator]
         self.noise_model = noise_model  # type: ignore[operator]
-- 
2.43.0


From 6a91bea85b496ca7add8e6a9751791cba54b4162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 45/97] fix: serialized constellations lose their soft output
 and real-valued modes

---
 hermespy/modem/tools/psk_qam_mapping.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hermespy/modem/tools/psk_qam_mapping.py b/hermespy/modem/tools/psk_qam_mapping.py
index 189abb0..473abd7 100644
--- a/hermespy/modem/tools/psk_qam_mapping.py
+++ b/hermespy/modem/tools/psk_qam_mapping.py
@@ -528,6 +528,8 @@ class PskQamMapping(Serializable):
         process.serialize_integer(self.modulation_order, "modulation_order")
         if self.mapping is not None:
             process.serialize_array(self.mapping, "mapping")
+        process.serialize_integer(int(self.soft_output), "soft_output")
+        process.serialize_integer(int(self.is_complex), "is_complex")
 
     @classmethod
     @override
@@ -535,4 +537,6 @@ class PskQamMapping(Serializable):
         return cls(
             process.deserialize_integer("modulation_order"),
             process.deserialize_array("mapping", np.complex128, None),
+            bool(process.deserialize_integer("soft_output", 0)),
+            bool(process.deserialize_integer("is_complex", 1)),
         )
-- 
2.43.0


From 88063f8e18b7512e5e8646e607015b1eb5923fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 46/97] fix: odd and singular pulse filters, timing and pilots
 of FMCW waveforms and uninitialised chirp guard intervals

---
 hermespy/modem/waveform_chirp_fsk.py      |  2 +-
 hermespy/modem/waveform_single_carrier.py | 38 ++++++++++++-----------
 2 files changed, 21 insertions(+), 19 deletions(-)

diff --git a/hermespy/modem/waveform_chirp_fsk.py b/hermespy/modem/waveform_chirp_fsk.py
index b170ea5..e219df5 100644
--- a/hermespy/modem/waveform_chirp_fsk.py
+++ b/hermespy/modem/waveform_chirp_fsk.py
@@ -295,7 +295,7 @@ class ChirpFSKWaveform(PilotCommunicationWaveform):
             self.freq_difference,
             samples_in_chirp,
         )
-        frame_samples = np.empty(
+        frame_samples = np.zeros(
             self.samples_per_frame(bandwidth, oversampling_factor), dtype=complex
         )
 
diff --git a/hermespy/modem/waveform_single_carrier.py b/hermespy/modem/waveform_single_carrier.py
index 9f3ce05..b389965 100644
--- a/hermespy/modem/waveform_single_carrier.py
+++ b/hermespy/modem/waveform_single_carrier.py
@@ -786,21 +786,16 @@ class RootRaisedCosineWaveform(RolledOffSingleCarrierWaveform, Serializable):
 
         # Generate timestamps
         time = (
-            np.linspace(
-                -int(0.5 * self.filter_length),
-                int(0.5 * self.filter_length),
-                self.filter_length * oversampling_factor,
-                endpoint=(self.filter_length % 2 == 1),
-            )
-            * self.relative_bandwidth
-        )
+            np.arange(self.filter_length * oversampling_factor) / oversampling_factor
+            - self.filter_length // 2
+        ) * self.relative_bandwidth
 
         # Build filter response
         idx_0_by_0 = time == 0  # indices with division of zero by zero
 
         if self.roll_off != 0:
             # indices with division by zero
-            idx_x_by_0 = abs(time) == 1 / (4 * self.roll_off)
+            idx_x_by_0 = np.isclose(abs(time), 1 / (4 * self.roll_off))
         else:
             idx_x_by_0 = np.zeros_like(time, dtype=bool)
         idx = (~idx_0_by_0) & (~idx_x_by_0)
@@ -834,19 +829,14 @@ class RaisedCosineWaveform(RolledOffSingleCarrierWaveform, Serializable):
 
         # Generate timestamps
         time = (
-            np.linspace(
-                -int(0.5 * self.filter_length),
-                int(0.5 * self.filter_length),
-                self.filter_length * oversampling_factor,
-                endpoint=(self.filter_length % 2 == 1),
-            )
-            * self.relative_bandwidth
-        )
+            np.arange(self.filter_length * oversampling_factor) / oversampling_factor
+            - self.filter_length // 2
+        ) * self.relative_bandwidth
 
         # Build filter response
         if self.roll_off != 0:
             # indices with division of zero by zero
-            idx_0_by_0 = abs(time) == 1 / (2 * self.roll_off)
+            idx_0_by_0 = np.isclose(abs(time), 1 / (2 * self.roll_off))
         else:
             idx_0_by_0 = np.zeros_like(time, dtype=bool)
         idx = ~idx_0_by_0
@@ -931,6 +921,18 @@ class FMCWWaveform(FilteredSingleCarrierWaveform, Serializable):
 
         self.__num_samples_per_chirp = value
 
+    @override
+    def frame_duration(self, bandwidth: float) -> float:
+        return self._num_frame_symbols * self.num_samples_per_chirp / bandwidth
+
+    @override
+    def pilot_signal(self, bandwidth: float, oversampling_factor: int) -> Signal:
+        pilot_symbols = self.pilot_symbols(self.num_preamble_symbols)
+        return Signal.Create(
+            np.outer(pilot_symbols, self._transmit_filter(oversampling_factor)).reshape((1, -1)),
+            bandwidth * oversampling_factor,
+        )
+
     @override
     def samples_per_frame(self, bandwidth: float, oversampling_factor: int) -> int:
         return self._num_frame_symbols * self.num_samples_per_chirp * oversampling_factor
-- 
2.43.0


From 896fc135e7d99d0fafdfe38ba1a92e75c1b4642a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 47/97] fix: operators of devices outside scenarios keep their
 own randomness

---
 hermespy/core/device.py   | 34 ++++++++++++++++++++++++++--------
 hermespy/core/scenario.py |  1 +
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/hermespy/core/device.py b/hermespy/core/device.py
index c91d910..3977a6c 100644
--- a/hermespy/core/device.py
+++ b/hermespy/core/device.py
@@ -818,14 +818,23 @@ class DSPSlot(Generic[DSPType], Sequence[DSPType]):
 
         self.__dsp_algorithms.append(operator)
 
-        # Operators draw from the random number generator of their device,
-        # unless they have been configured to be seeded individually
-        if (
-            isinstance(operator, RandomNode)
-            and operator.random_mother is None
-            and operator.seed is None
-        ):
-            operator.random_mother = self.__device
+        # Operators added to devices within a scenario are seeded by the scenario
+        if self.__device.random_mother is not None:
+            self._link_randomness()
+
+    def _link_randomness(self) -> None:
+        """Let registered operators draw from the random number generator of their device.
+
+        Operators already linked or configured to be seeded individually remain unchanged.
+        """
+
+        for operator in self.__dsp_algorithms:
+            if (
+                isinstance(operator, RandomNode)
+                and operator.random_mother is None
+                and operator.seed is None
+            ):
+                operator.random_mother = self.__device
 
     def remove(self, operator: DSPType) -> None:
         """Remove an operator from this slot.
@@ -1376,6 +1385,15 @@ class Device(ABC, Generic[DST], Transformable, RandomNode, Serializable):
         if isinstance(dsp, Receiver):
             self.receivers.add(dsp)
 
+    def _link_operators(self) -> None:
+        """Let registered operators draw from the random number generator of this device.
+
+        Operators already linked or configured to be seeded individually remain unchanged.
+        """
+
+        self.transmitters._link_randomness()
+        self.receivers._link_randomness()
+
     def transmit_operators(
         self, state: DST | None = None, notify: bool = True
     ) -> list[Transmission]:
diff --git a/hermespy/core/scenario.py b/hermespy/core/scenario.py
index 45de99d..611a0af 100644
--- a/hermespy/core/scenario.py
+++ b/hermespy/core/scenario.py
@@ -152,6 +152,7 @@ class Scenario(
 
         # Register scenario at the device
         device.random_mother = self
+        device._link_operators()
 
         # Assign the scenario as the device's coordinate system base
         device.set_base(self)
-- 
2.43.0


From aaf3ec49ba3a6d50b7621aa3f420a8c463e5563c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:14 +0000
Subject: [PATCH 48/97] fix: resource grids with omitted prefixes, sample
 offsets, reconfigured pilots and collinear references

---
 .../modem/waveforms/orthogonal/channel.py     | 22 +++++++++++--
 hermespy/modem/waveforms/orthogonal/ofdm.py   |  8 ++++-
 .../modem/waveforms/orthogonal/waveform.py    | 31 +++----------------
 3 files changed, 31 insertions(+), 30 deletions(-)

diff --git a/hermespy/modem/waveforms/orthogonal/channel.py b/hermespy/modem/waveforms/orthogonal/channel.py
index 7ab23e3..9616514 100644
--- a/hermespy/modem/waveforms/orthogonal/channel.py
+++ b/hermespy/modem/waveforms/orthogonal/channel.py
@@ -6,6 +6,7 @@ from typing_extensions import override
 
 import numpy as np
 from scipy.interpolate import griddata
+from scipy.spatial import QhullError
 
 from hermespy.core import Serializable
 from ...symbols import StatedSymbols, Symbols
@@ -51,9 +52,24 @@ class OrthogonalLeastSquaresChannelEstimation(ChannelEstimation[OrthogonalWavefo
         holes = np.where(np.invert(resource_mask[ElementType.REFERENCE.value, ::]))
         if holes[0].size != 0:
             interpolation_stems = np.where(resource_mask[ElementType.REFERENCE.value, ::])
-            interpolated_holes = griddata(
-                interpolation_stems, reference_channel_estimation, holes, method="linear"
-            )
+            interpolated_holes: np.ndarray
+
+            # References within a single word or on a single subcarrier
+            # only provide information along the respective other dimension
+            for fixed, varying in ((0, 1), (1, 0)):
+                if np.all(interpolation_stems[fixed] == interpolation_stems[fixed][0]):
+                    interpolated_holes = np.interp(
+                        holes[varying], interpolation_stems[varying], reference_channel_estimation
+                    )
+                    break
+            else:
+                try:
+                    interpolated_holes = griddata(
+                        interpolation_stems, reference_channel_estimation, holes, method="linear"
+                    )
+                except QhullError:
+                    # All references are located on a single line
+                    interpolated_holes = np.full(holes[0].size, np.nan, dtype=np.complex128)
             channel_estimation[0, 0, holes[0], holes[1]] = interpolated_holes
 
         # Fill nan values with nearest neighbor
diff --git a/hermespy/modem/waveforms/orthogonal/ofdm.py b/hermespy/modem/waveforms/orthogonal/ofdm.py
index 7a83659..680fec1 100644
--- a/hermespy/modem/waveforms/orthogonal/ofdm.py
+++ b/hermespy/modem/waveforms/orthogonal/ofdm.py
@@ -170,9 +170,15 @@ class OFDMWaveform(OrthogonalWaveform, Serializable):
             frame_start_idx : frame_start_idx + self.num_subcarriers
         ]
 
+        # Subcarriers above the suppressed DC are shifted by a single frequency bin.
+        # Without oversampling, the last subcarrier is located at the DC frequency.
         if self.dc_suppression:
-            dc_index = int(0.5 * symbol_subgrid.shape[1])
+            dc_index = self.num_subcarriers // 2
             freqs[dc_index:] = np.roll(freqs[dc_index:], -1)
+            if oversampling_factor > 1:
+                freqs[-1] = (self.num_subcarriers - dc_index) / (
+                    oversampling_factor * self.num_subcarriers
+                )
 
         return symbol_subgrid * np.exp(2j * np.pi * freqs * sample_offset)
 
diff --git a/hermespy/modem/waveforms/orthogonal/waveform.py b/hermespy/modem/waveforms/orthogonal/waveform.py
index b37cb3e..9e857f6 100644
--- a/hermespy/modem/waveforms/orthogonal/waveform.py
+++ b/hermespy/modem/waveforms/orthogonal/waveform.py
@@ -631,7 +631,9 @@ class SymbolSection(GridSection["OrthogonalWaveform"]):
 
         # Add up the additional samples from cyclic prefixes
         for resource_idx in self.pattern:
-            num += int(num_samples_per_slot * self.wave.grid_resources[resource_idx].prefix_ratio)
+            resource = self.wave.grid_resources[resource_idx]
+            if resource.prefix_type != PrefixType.NONE:
+                num += int(num_samples_per_slot * resource.prefix_ratio)
 
         # Add up the base samples from each timeslot
         return num * self.num_repetitions
@@ -720,9 +722,6 @@ class PilotSection(Generic[OWT], GridSection[OWT], Serializable):
     """Pilot symbol section within an resource grid."""
 
     __pilot_elements: Symbols | None
-    __cached_num_subcarriers: int
-    __cached_oversampling_factor: int
-    __cached_pilot: np.ndarray | None
 
     def __init__(self, pilot_elements: Symbols | None = None, wave: OWT | None = None) -> None:
         """
@@ -741,9 +740,6 @@ class PilotSection(Generic[OWT], GridSection[OWT], Serializable):
 
         # Initialize class attributes
         self.__pilot_elements = pilot_elements
-        self.__cached_num_subcarriers = -1
-        self.__cached_oversampling_factor = -1
-        self.__cached_pilot = None
 
     @GridSection.num_repetitions.setter  # type: ignore
     def num_repetitions(self, value: int) -> None:
@@ -814,9 +810,6 @@ class PilotSection(Generic[OWT], GridSection[OWT], Serializable):
         if value.num_symbols < 1:
             raise ValueError("Subsymbol pilot configuration must contain at least one symbol")
 
-        # Reset the cached pilot, since the subsymbols have changed
-        self.__cached_pilot = None
-
         self.__pilot_elements = value
 
     def _pilot_sequence(self, num_symbols: int | None = None) -> np.ndarray:
@@ -872,23 +865,8 @@ class PilotSection(Generic[OWT], GridSection[OWT], Serializable):
         if self.wave is None:
             raise RuntimeError("Pilot section must be associated with a waveform")
 
-        # Return the cached pilot signal if available and the relevant frame parameters haven't changed
-        if (
-            self.__cached_pilot is not None
-            and self.__cached_num_subcarriers == self.wave.num_subcarriers
-            and self.__cached_oversampling_factor == oversampling_factor
-        ):
-            return self.__cached_pilot
-
         pilot_symbols = self._pilot_sequence(self.wave.num_subcarriers)
-        pilot = self.wave._forward_transformation(pilot_symbols[np.newaxis, :], oversampling_factor)
-
-        # Cache the pilot
-        self.__cached_pilot = pilot
-        self.__cached_num_subcarriers = self.wave.num_subcarriers
-        self.__cached_oversampling_factor = oversampling_factor
-
-        return pilot
+        return self.wave._forward_transformation(pilot_symbols[np.newaxis, :], oversampling_factor)
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
@@ -1360,6 +1338,7 @@ class OrthogonalWaveform(ConfigurablePilotWaveform, ABC):
                         oversampling_factor,
                     )
                 )
+            block_idx += section.num_words
 
         return Symbols(symbol_grid[np.newaxis, :, :])
 
-- 
2.43.0


From b3008703bc7f2feb0f58f7f59e9a5c60ff04dae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 49/97] fix: block counts of symbol decoders and channel states
 after combining and selection

---
 hermespy/modem/precoding/ratio_combining.py  | 6 +++---
 hermespy/modem/precoding/single_carrier.py   | 4 +++-
 hermespy/modem/precoding/symbol_precoding.py | 4 ++--
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/hermespy/modem/precoding/ratio_combining.py b/hermespy/modem/precoding/ratio_combining.py
index 42f402b..52bb12c 100644
--- a/hermespy/modem/precoding/ratio_combining.py
+++ b/hermespy/modem/precoding/ratio_combining.py
@@ -46,12 +46,12 @@ class MaximumRatioCombining(ReceiveSymbolDecoder, Serializable):
         symbol_estimates = np.sum(simo_states.conj() * symbols_raw, axis=0, keepdims=True) / np.sum(
             np.abs(simo_states) ** 2, axis=0, keepdims=True
         )
-        state_estimates = np.sum(np.abs(dense_states) ** 2, axis=0)
         # resulting_noises = np.sum(stream_noises * (np.abs(stream_responses) ** 2), axis=0, keepdims=True)
 
         symbol_estimates = symbol_estimates.reshape((1, symbols.num_blocks, symbols.num_symbols))
-        state_estimates = state_estimates.reshape((1, 1, symbols.num_blocks, symbols.num_symbols))
-        return StatedSymbols(symbol_estimates, state_estimates)
+        # The symbol estimates are already normalized by the combined channel gain
+        ideal_states = np.ones((1, 1, symbols.num_blocks, symbols.num_symbols), dtype=np.complex128)
+        return StatedSymbols(symbol_estimates, ideal_states)
 
     def num_receive_output_streams(self, num_input_streams: int) -> int:
         return 1
diff --git a/hermespy/modem/precoding/single_carrier.py b/hermespy/modem/precoding/single_carrier.py
index 5287c95..7ec8a29 100644
--- a/hermespy/modem/precoding/single_carrier.py
+++ b/hermespy/modem/precoding/single_carrier.py
@@ -42,7 +42,9 @@ class SingleCarrier(ReceiveSymbolDecoder, Serializable):
         new_symbols = np.take_along_axis(symbols.raw, antenna_selection[np.newaxis, ::], axis=0)
         # stream_noises = np.take_along_axis(symbols, antenna_selection.T, axis=0)
 
-        channel_state_selection = antenna_selection[np.newaxis, np.newaxis, ::].repeat(2, axis=1)
+        channel_state_selection = antenna_selection[np.newaxis, np.newaxis, ::].repeat(
+            dense_states.shape[1], axis=1
+        )
         new_states = np.take_along_axis(dense_states, channel_state_selection, axis=0)
 
         symbols.raw = new_symbols
diff --git a/hermespy/modem/precoding/symbol_precoding.py b/hermespy/modem/precoding/symbol_precoding.py
index 2246002..59c1ff4 100644
--- a/hermespy/modem/precoding/symbol_precoding.py
+++ b/hermespy/modem/precoding/symbol_precoding.py
@@ -216,7 +216,7 @@ class ReceiveSymbolCoding(ReceivePrecoding[ReceiveSymbolDecoder], Serializable):
 
         num_blocks = Fraction(num_input_blocks, 1)
 
-        for precoder in reversed(self):
-            num_blocks /= precoder.decode_rate
+        for precoder in self:
+            num_blocks *= precoder.decode_rate
 
         return int(num_blocks)
-- 
2.43.0


From 83afe1e01e030409897179baa0b22006ae14eb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:30 +0000
Subject: [PATCH 50/97] fix: serialization of pilot sequences, DC suppression
 and coding pipeline flags

---
 hermespy/fec/coding.py                         |  7 ++++++-
 hermespy/modem/waveform.py                     | 18 ++++++++++++++++++
 hermespy/modem/waveform_single_carrier.py      |  6 ++++++
 hermespy/modem/waveforms/orthogonal/ofdm.py    | 10 +++++++++-
 .../modem/waveforms/orthogonal/waveform.py     |  6 ++++++
 5 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/hermespy/fec/coding.py b/hermespy/fec/coding.py
index b288704..96cddf1 100644
--- a/hermespy/fec/coding.py
+++ b/hermespy/fec/coding.py
@@ -472,11 +472,16 @@ class EncoderManager(RandomNode, Serializable):
     @override
     def serialize(self, process: SerializationProcess) -> None:
         process.serialize_object_sequence(self._encoders, "encoders")
+        process.serialize_integer(int(self.allow_padding), "allow_padding")
+        process.serialize_integer(int(self.allow_truncating), "allow_truncating")
 
     @override
     @classmethod
     def Deserialize(cls, process: DeserializationProcess) -> EncoderManager:
-        manager = cls()
+        manager = cls(
+            bool(process.deserialize_integer("allow_padding", 1)),
+            bool(process.deserialize_integer("allow_truncating", 1)),
+        )
         encoders = process.deserialize_object_sequence("encoders", Encoder)
         for encoder in encoders:
             manager.add_encoder(encoder)
diff --git a/hermespy/modem/waveform.py b/hermespy/modem/waveform.py
index 09e9639..bb3a80f 100644
--- a/hermespy/modem/waveform.py
+++ b/hermespy/modem/waveform.py
@@ -757,6 +757,16 @@ class MappedPilotSymbolSequence(CustomPilotSymbolSequence):
 
         CustomPilotSymbolSequence.__init__(self, mapping.get_mapping())
 
+    @override
+    @classmethod
+    def Deserialize(cls, process: DeserializationProcess) -> MappedPilotSymbolSequence:
+        # Restore the mapped symbols directly since the original mapping isn't required anymore
+        sequence = cls.__new__(cls)
+        CustomPilotSymbolSequence.__init__(
+            sequence, process.deserialize_array("pilot_symbols", np.complex128)
+        )
+        return sequence
+
 
 class ConfigurablePilotWaveform(PilotCommunicationWaveform):
     pilot_symbol_sequence: PilotSymbolSequence
@@ -818,3 +828,11 @@ class ConfigurablePilotWaveform(PilotCommunicationWaveform):
             symbol_sequence = np.tile(symbol_sequence, num_repetitions)
 
         return symbol_sequence[:num_symbols]
+
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        PilotCommunicationWaveform.serialize(self, process)
+        process.serialize_object(self.pilot_symbol_sequence, "pilot_symbol_sequence")
+        process.serialize_integer(
+            int(self.repeat_pilot_symbol_sequence), "repeat_pilot_symbol_sequence"
+        )
diff --git a/hermespy/modem/waveform_single_carrier.py b/hermespy/modem/waveform_single_carrier.py
index b389965..f356c08 100644
--- a/hermespy/modem/waveform_single_carrier.py
+++ b/hermespy/modem/waveform_single_carrier.py
@@ -474,6 +474,12 @@ class FilteredSingleCarrierWaveform(ConfigurablePilotWaveform):
         parameters["pilot_rate"] = process.deserialize_integer(
             "pilot_rate", cls.__DEFAULT_PILOT_RATE
         )
+        parameters["pilot_symbol_sequence"] = process.deserialize_object(
+            "pilot_symbol_sequence", PilotSymbolSequence, None
+        )
+        parameters["repeat_pilot_symbol_sequence"] = bool(
+            process.deserialize_integer("repeat_pilot_symbol_sequence", 1)
+        )
         return parameters
 
     @override
diff --git a/hermespy/modem/waveforms/orthogonal/ofdm.py b/hermespy/modem/waveforms/orthogonal/ofdm.py
index 680fec1..ce6e8fa 100644
--- a/hermespy/modem/waveforms/orthogonal/ofdm.py
+++ b/hermespy/modem/waveforms/orthogonal/ofdm.py
@@ -9,7 +9,7 @@ import numpy as np
 from scipy.fft import fft, fftfreq, fftshift, ifft, ifftshift
 from scipy.signal import find_peaks
 
-from hermespy.core import Serializable, SerializationProcess
+from hermespy.core import DeserializationProcess, Serializable, SerializationProcess
 from ...waveform import Synchronization
 from ...waveform_correlation_synchronization import CorrelationSynchronization
 from .waveform import (
@@ -185,6 +185,14 @@ class OFDMWaveform(OrthogonalWaveform, Serializable):
     @override
     def serialize(self, process: SerializationProcess) -> None:
         OrthogonalWaveform.serialize(self, process)
+        process.serialize_integer(int(self.dc_suppression), "dc_suppression")
+
+    @classmethod
+    @override
+    def _DeserializeParameters(cls, process: DeserializationProcess) -> dict[str, Any]:
+        params = OrthogonalWaveform._DeserializeParameters(process)
+        params["dc_suppression"] = bool(process.deserialize_integer("dc_suppression", 1))
+        return params
 
 
 class SchmidlCoxPilotSection(PilotSection[OFDMWaveform]):
diff --git a/hermespy/modem/waveforms/orthogonal/waveform.py b/hermespy/modem/waveforms/orthogonal/waveform.py
index 9e857f6..97b2ad1 100644
--- a/hermespy/modem/waveforms/orthogonal/waveform.py
+++ b/hermespy/modem/waveforms/orthogonal/waveform.py
@@ -1365,6 +1365,12 @@ class OrthogonalWaveform(ConfigurablePilotWaveform, ABC):
                     "grid_structure", GridSection
                 ),
                 "pilot_section": process.deserialize_object("pilot_section", PilotSection, None),
+                "pilot_sequence": process.deserialize_object(
+                    "pilot_symbol_sequence", PilotSymbolSequence, None
+                ),
+                "repeat_pilot_sequence": bool(
+                    process.deserialize_integer("repeat_pilot_symbol_sequence", 1)
+                ),
             }
         )
         return params
-- 
2.43.0


From d9fc759691cfeffc5979a753744a59633a307061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:34 +0000
Subject: [PATCH 51/97] fix: channels of devices and replaced default channels
 of simulation scenarios

---
 hermespy/simulation/scenario.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/hermespy/simulation/scenario.py b/hermespy/simulation/scenario.py
index 78776f1..d6a0432 100644
--- a/hermespy/simulation/scenario.py
+++ b/hermespy/simulation/scenario.py
@@ -306,13 +306,14 @@ class SimulationScenario(Scenario[SimulatedDevice, SimulatedDeviceState, Simulat
         link_entries = 0
         for linked_devices, channel in self.__links.items():
             if device in linked_devices:
+                link_entries += 1
                 if not active_only or channel.gain > 0:
                     device_channels.add(channel)
-                    link_entries += 1
 
         # Append the default channel if required
         if link_entries < self.num_devices:
-            device_channels.add(self.__default_channel)
+            if not active_only or self.__default_channel.gain > 0:
+                device_channels.add(self.__default_channel)
 
         return device_channels
 
@@ -350,7 +351,11 @@ class SimulationScenario(Scenario[SimulatedDevice, SimulatedDeviceState, Simulat
         # Remove the old channel from the set of device channels and unique channel instances
         # if it is not linked to any other device
         if old_channel is not None:
-            if old_channel not in self.__links.values():
+            # The default channel still links all devices without an explicitly configured channel
+            if (
+                old_channel is not self.__default_channel
+                and old_channel not in self.__links.values()
+            ):
                 self.__channels.remove(old_channel)
 
         # Update the set of unique channel instances
@@ -777,7 +782,7 @@ class SimulationScenario(Scenario[SimulatedDevice, SimulatedDeviceState, Simulat
         # Generate drop timestamp
         drop_timestamp = time()
 
-        _timestamps: Sequence[float] = [timestamps] if isinstance(timestamps, float) else timestamps
+        _timestamps: Sequence[float] = [timestamps] if isinstance(timestamps, (int, float)) else timestamps
         drops: list[SimulatedDrop] = []
 
         channel_realizations = self.realize_channels()
-- 
2.43.0


From 04985d2935471ba865e11a618a30830a1ff4bde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:34 +0000
Subject: [PATCH 52/97] fix: recording and replaying drops

---
 hermespy/channel/__init__.py       |  9 +++++++-
 hermespy/channel/delay/__init__.py | 11 ++++++---
 hermespy/channel/radar/single.py   |  8 ++++---
 hermespy/core/scenario.py          | 36 +++++++++++++++++++++++-------
 hermespy/jcas/ofdm_radar.py        |  8 +++++++
 hermespy/simulation/drop.py        |  2 +-
 hermespy/simulation/scenario.py    |  4 +++-
 7 files changed, 61 insertions(+), 17 deletions(-)

diff --git a/hermespy/channel/__init__.py b/hermespy/channel/__init__.py
index 747b77c..ac614ff 100644
--- a/hermespy/channel/__init__.py
+++ b/hermespy/channel/__init__.py
@@ -30,7 +30,12 @@ from .cdl import (
     UrbanMicrocells,
     UrbanMicrocellsRealization,
 )
-from .delay import SpatialDelayChannel, RandomDelayChannel
+from .delay import (
+    SpatialDelayChannel,
+    SpatialDelayChannelRealization,
+    RandomDelayChannel,
+    RandomDelayChannelRealization,
+)
 from .fading import (
     DeviceType,
     CorrelationType,
@@ -77,7 +82,9 @@ __all__ = [
     "CRT",
     "LinkState",
     "SpatialDelayChannel",
+    "SpatialDelayChannelRealization",
     "RandomDelayChannel",
+    "RandomDelayChannelRealization",
     "DeviceType",
     "CorrelationType",
     "StandardAntennaCorrelation",
diff --git a/hermespy/channel/delay/__init__.py b/hermespy/channel/delay/__init__.py
index d49a64e..3677259 100644
--- a/hermespy/channel/delay/__init__.py
+++ b/hermespy/channel/delay/__init__.py
@@ -1,7 +1,7 @@
 # -*- coding: utf-8 -*-
 
-from .random import RandomDelayChannel
-from .spatial import SpatialDelayChannel
+from .random import RandomDelayChannel, RandomDelayChannelRealization
+from .spatial import SpatialDelayChannel, SpatialDelayChannelRealization
 
 __author__ = "Jan Adler"
 __copyright__ = "Copyright 2026, Barkhausen Institut gGmbH"
@@ -13,4 +13,9 @@ __email__ = "jan.adler@barkhauseninstitut.org"
 __status__ = "Prototype"
 
 
-__all__ = ["RandomDelayChannel", "SpatialDelayChannel"]
+__all__ = [
+    "RandomDelayChannel",
+    "RandomDelayChannelRealization",
+    "SpatialDelayChannel",
+    "SpatialDelayChannelRealization",
+]
diff --git a/hermespy/channel/radar/single.py b/hermespy/channel/radar/single.py
index 8432864..ff93791 100644
--- a/hermespy/channel/radar/single.py
+++ b/hermespy/channel/radar/single.py
@@ -159,11 +159,13 @@ class SingleTargetRadarChannelRealization(RadarChannelRealization):
     @override
     def Deserialize(cls, process: DeserializationProcess) -> SingleTargetRadarChannelRealization:
         target_velocity = process.deserialize_array("target_velocity", np.float64).flatten()
-        _target_velocity: float | tuple[float, float]
+        _target_velocity: float | tuple[float, float] | np.ndarray
         if len(target_velocity) == 1:
             _target_velocity = float(target_velocity[0])
-        else:
+        elif len(target_velocity) == 2:
             _target_velocity = (float(target_velocity[0]), float(target_velocity[1]))
+        else:
+            _target_velocity = target_velocity
         return SingleTargetRadarChannelRealization(
             process.deserialize_object("consistent_realization", ConsistentRealization),
             process.deserialize_object("target_range_variable", ConsistentUniform),
@@ -171,7 +173,7 @@ class SingleTargetRadarChannelRealization(RadarChannelRealization):
             process.deserialize_object("target_zenith_variable", ConsistentUniform),
             process.deserialize_object("target_velocity_variable", ConsistentUniform),
             process.deserialize_object("target_phase_variable", ConsistentUniform),
-            process.deserialize_range("target_range"),
+            process.deserialize_range("target_range", None),
             process.deserialize_range("target_azimuth"),
             process.deserialize_range("target_zenith"),
             process.deserialize_floating("target_cross_section"),
diff --git a/hermespy/core/scenario.py b/hermespy/core/scenario.py
index 611a0af..8870ed4 100644
--- a/hermespy/core/scenario.py
+++ b/hermespy/core/scenario.py
@@ -109,6 +109,7 @@ class Scenario(
         self.__serialization_process = None
         self.__drop_counter = 0
         self.__campaign = "default"
+        self.__num_replay_drops = 0
         self.__replay_file = None
         self.__serialization_process = None
         self.__deserialization_process = None
@@ -414,6 +415,10 @@ class Scenario(
                 "Initialize a recording is only possible in default mode. Please stop before starting a new recording."
             )
 
+        # For serialization compatibility, the campaign name 'state' is reserved
+        if campaign == "state":
+            raise ValueError("The campaign name 'state' is reserved for serialization purposes")
+
         # Check wether the specified file already exists within the filesystem
         file_exists = path.exists(file)
 
@@ -437,7 +442,7 @@ class Scenario(
         self.__drop_counter = 0
 
         # Create the campaign if it doesn't exists
-        self.campaign = campaign
+        self.campaign = "default" if campaign is None else campaign
 
     def replay(
         self,
@@ -482,21 +487,23 @@ class Scenario(
         else:
             _file = file
 
+        # Stop any action and close file handles if required
+        self.stop()
+
         # Start a new deserialization process
         deserialization_process = Factory().deserialize(_file, campaign, backend)
 
         # Get the overall number of drops
         num_available_drops = deserialization_process.sequence_length("drops")
         if drop_offset >= num_available_drops:
+            deserialization_process.finalize()
             raise ValueError("Drop offset is not smaller than the number of available drops")
 
-        # Stop any action and close file handles if required
-        self.stop()
-
         self.__deserialization_process = deserialization_process
         self.__replay_file = _file
         self.__drop_counter = drop_offset
-        self.__campaign = campaign
+        self.__num_replay_drops = num_available_drops
+        self.__campaign = "default" if campaign is None else campaign
 
         # Switch mode flag
         self.__mode = ScenarioMode.REPLAY
@@ -778,6 +785,10 @@ class Scenario(
         if self.__mode == ScenarioMode.DEFAULT:
             return 0
 
+        # The number of recorded drops is known from the beginning of a replay
+        if self.__mode == ScenarioMode.REPLAY:
+            return self.__num_replay_drops
+
         return self.__drop_counter
 
     @classmethod
@@ -848,12 +859,21 @@ class Scenario(
             drop = self._drop()
 
             # Serialize the drop to HDF if in record mode
-            if self.mode == ScenarioMode.RECORD:
-                self.__serialization_process.serialize_object_sequence([drop], "drops", True, True)
-                self.__drop_counter += 1
+            self._record_drop(drop)
 
         return drop
 
+    def _record_drop(self, drop: DropType) -> None:
+        """Serialize a generated drop if the scenario is in record mode.
+
+        Args:
+            drop: The generated drop.
+        """
+
+        if self.mode == ScenarioMode.RECORD:
+            self.__serialization_process.serialize_object_sequence([drop], "drops", True, True)
+            self.__drop_counter += 1
+
 
 ScenarioType = TypeVar("ScenarioType", bound="Scenario")
 """Type of scenario."""
diff --git a/hermespy/jcas/ofdm_radar.py b/hermespy/jcas/ofdm_radar.py
index bd25f95..850006a 100644
--- a/hermespy/jcas/ofdm_radar.py
+++ b/hermespy/jcas/ofdm_radar.py
@@ -171,6 +171,14 @@ class OFDMRadar(DuplexJCASOperator[OFDMWaveform], Serializable):
     def power(self) -> float:
         return 0.0 if self.waveform is None else self.waveform.power
 
+    @override
+    def notify_transmit_callbacks(self, transmission: JCASTransmission) -> None:
+        # Cache transmissions for following receptions, including transmissions replayed from recordings
+        self.__last_transmission = transmission
+
+        # Call the base class notification
+        super().notify_transmit_callbacks(transmission)
+
     @override
     def _transmit(self, device: TransmitState, duration: float) -> JCASTransmission:
         communication_transmission = TransmittingModemBase._transmit(self, device, duration)
diff --git a/hermespy/simulation/drop.py b/hermespy/simulation/drop.py
index 84750e5..7caa23e 100644
--- a/hermespy/simulation/drop.py
+++ b/hermespy/simulation/drop.py
@@ -59,7 +59,7 @@ class SimulatedDrop(Drop[SimulatedDeviceTransmission, SimulatedDeviceReception])
     def Deserialize(cls: Type[SimulatedDrop], process: DeserializationProcess) -> SimulatedDrop:
         drop = Drop.Deserialize(process)
         channel_realizations = process.deserialize_object_sequence(
-            "channel_realiations", ChannelRealization
+            "channel_realizations", ChannelRealization
         )
         return SimulatedDrop(
             drop.timestamp, drop.device_transmissions, channel_realizations, drop.device_receptions
diff --git a/hermespy/simulation/scenario.py b/hermespy/simulation/scenario.py
index d6a0432..14b1b93 100644
--- a/hermespy/simulation/scenario.py
+++ b/hermespy/simulation/scenario.py
@@ -750,7 +750,9 @@ class SimulationScenario(Scenario[SimulatedDevice, SimulatedDeviceState, Simulat
         if timestamp is None:
             return Scenario.drop(self)
 
-        return self._drop(timestamp)
+        drop = self._drop(timestamp)
+        self._record_drop(drop)
+        return drop
 
     @overload
     def _drop(self, timestamps: float = 0.0) -> SimulatedDrop:
-- 
2.43.0


From aabc5e046e4ae2e218dd8259756bc80e41012721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:37 +0000
Subject: [PATCH 53/97] fix: channel gains, channel states, reciprocity and
 unmodified inputs of channel propagation

---
 hermespy/channel/cdl/cdl.py                 |  3 ++-
 hermespy/channel/cdl/cluster_delay_lines.py | 22 ++++++++++++--------
 hermespy/channel/channel.py                 | 23 +++++++++++----------
 hermespy/channel/delay/delay.py             |  4 ++--
 hermespy/channel/fading/fading.py           |  7 +++++--
 hermespy/channel/ideal.py                   |  2 +-
 hermespy/channel/radar/multi.py             | 18 ++++++++--------
 hermespy/channel/radar/radar.py             |  4 ++--
 8 files changed, 46 insertions(+), 37 deletions(-)

diff --git a/hermespy/channel/cdl/cdl.py b/hermespy/channel/cdl/cdl.py
index f0cced9..e3024c9 100644
--- a/hermespy/channel/cdl/cdl.py
+++ b/hermespy/channel/cdl/cdl.py
@@ -229,7 +229,7 @@ class CDLRealization(ChannelRealization[ClusterDelayLineSample]):
         parameters = CDL_Cluster_Parameters[self.__type]
         per_cluster_parameters = CDL_Per_Cluster_Parameters[self.__type.value, :]
         normalized_cluster_delays = parameters[:, 0]
-        cluster_powers = 10 ** (parameters[:, 1] / 10)
+        cluster_powers = self.gain * 10 ** (parameters[:, 1] / 10)
         cluster_aods = parameters[:, 2]
         cluster_aoas = parameters[:, 3]
         cluster_zods = parameters[:, 4]
@@ -296,6 +296,7 @@ class CDLRealization(ChannelRealization[ClusterDelayLineSample]):
             cluster_powers,
             polarization_transformations,
             state,
+            self.gain,
         )
 
     def _reciprocal_sample(
diff --git a/hermespy/channel/cdl/cluster_delay_lines.py b/hermespy/channel/cdl/cluster_delay_lines.py
index 22e98f7..7945b98 100644
--- a/hermespy/channel/cdl/cluster_delay_lines.py
+++ b/hermespy/channel/cdl/cluster_delay_lines.py
@@ -290,6 +290,7 @@ class ClusterDelayLineSample(ChannelSample):
         cluster_powers: np.ndarray,
         polarization_transformations: np.ndarray,
         state: LinkState,
+        line_of_sight_power: float = 1.0,
     ) -> None:
 
         # Initialize base class
@@ -307,6 +308,7 @@ class ClusterDelayLineSample(ChannelSample):
         self.__cluster_delay_spread = cluster_delay_spread
         self.__cluster_powers = cluster_powers
         self.__polarization_transformations = polarization_transformations
+        self.__line_of_sight_power = line_of_sight_power
         self.__power_delay_visualization = _PowerDelayVisualization(self)
         self.__angle_visualization = _AngleVisualization(self)
 
@@ -512,9 +514,9 @@ class ClusterDelayLineSample(ChannelSample):
             los_delay: float = self.cluster_delays[0]
             los_channel: np.ndarray = (
                 rx_array_response
-                @ np.array([[1, 0], [-1, 0]])
+                @ np.array([[1, 0], [0, -1]])
                 @ tx_array_response.T
-                * (rice_factor_lin / (1 + rice_factor_lin)) ** 0.5
+                * (self.__line_of_sight_power * rice_factor_lin / (1 + rice_factor_lin)) ** 0.5
             )
             los_impulse: np.ndarray = np.exp(-2j * pi * los_distance * wavelength_factor) * np.exp(
                 np.inner(rx_wave_vector, relative_velocity) * fast_fading * 2j * pi
@@ -564,13 +566,13 @@ class ClusterDelayLineSample(ChannelSample):
         max_num_taps: int,
         interpolation_mode: InterpolationMode = InterpolationMode.NEAREST,
     ) -> ChannelStateInformation:
-        max_delay_in_samples = min(max_num_taps, ceil(self.max_delay * self.bandwidth))
+        num_taps = min(max_num_taps, 1 + ceil(self.max_delay * self.bandwidth))
         raw_state = np.zeros(
             (
                 self.num_receive_antennas,
                 self.num_transmit_antennas,
                 num_samples,
-                1 + max_delay_in_samples,
+                num_taps,
             ),
             dtype=np.complex128,
         )
@@ -581,7 +583,7 @@ class ClusterDelayLineSample(ChannelSample):
             # Compute the delay in samples
             delay_tap_index = int((delay + self.delay_offset) * self.bandwidth)
 
-            if delay_tap_index >= max_num_taps:
+            if delay_tap_index >= num_taps:
                 continue  # pragma: no cover
 
             # Compute the resulting channel state
@@ -751,8 +753,9 @@ class ClusterDelayLineSample(ChannelSample):
             self.cluster_delays,
             self.cluster_delay_spread,
             self.cluster_powers,
-            self.polarization_transformations,
+            self.polarization_transformations.swapaxes(0, 1),
             state,
+            self.__line_of_sight_power,
         )
 
 
@@ -1993,9 +1996,9 @@ class ClusterDelayLineRealization(ChannelRealization[ClusterDelayLineSample], Ge
         else:
             oxygen_loss = 1.0
 
-        # Compute the expected amplitude scale factor of the sample
-        expected_loss = self.gain * oxygen_loss
-        true_cluster_powers = cluster_powers * path_power_scale * expected_loss**2
+        # Compute the expected power scale factors of the sample
+        path_powers = self.gain * path_power_scale * oxygen_loss**2 * np.ones(cluster_powers.size)
+        true_cluster_powers = cluster_powers * path_powers
 
         return ClusterDelayLineSample(
             state.line_of_sight,
@@ -2010,6 +2013,7 @@ class ClusterDelayLineRealization(ChannelRealization[ClusterDelayLineSample], Ge
             true_cluster_powers,
             polarization_transformations,
             channel_state,
+            path_powers[0],
         )
 
     def _reciprocal_sample(
diff --git a/hermespy/channel/channel.py b/hermespy/channel/channel.py
index d5e93c1..2313323 100644
--- a/hermespy/channel/channel.py
+++ b/hermespy/channel/channel.py
@@ -535,8 +535,8 @@ class ChannelRealization(Serializable, Generic[CST]):
         *args,
         **kwargs,
     ) -> CST:
-        carrier_frequency = float(args[0]) if len(args) > 0 else None
-        bandwidth = float(args[1]) if len(args) > 1 else None
+        carrier_frequency = args[0] if len(args) > 0 else kwargs.get("carrier_frequency", None)
+        bandwidth = args[1] if len(args) > 1 else kwargs.get("bandwidth", None)
 
         from hermespy.simulation import SimulatedDevice, SimulatedDeviceState
 
@@ -558,11 +558,11 @@ class ChannelRealization(Serializable, Generic[CST]):
             raise ValueError("Invalid input argument types for channel sampling.")
 
         _carrier_frequency = (
-            carrier_frequency
+            float(carrier_frequency)
             if carrier_frequency is not None
             else transmitter_state.carrier_frequency
         )
-        _bandwidth = bandwidth if bandwidth is not None else transmitter_state.sampling_rate
+        _bandwidth = float(bandwidth) if bandwidth is not None else transmitter_state.sampling_rate
         state = LinkState(
             transmitter_state, receiver_state, _carrier_frequency, _bandwidth, timestamp
         )
@@ -656,9 +656,9 @@ class ChannelRealization(Serializable, Generic[CST]):
         receiver_device: SimulatedDevice | int
 
         if isinstance(transmitter, SimulatedDevice) and isinstance(receiver, SimulatedDevice):
-            timestamp = float(args[0]) if len(args) > 0 else 0.0
-            carrier_frequency = float(args[1]) if len(args) > 1 else None
-            bandwidth = float(args[2]) if len(args) > 2 else None
+            timestamp = float(args[0] if len(args) > 0 else kwargs.get("timestamp", 0.0))
+            carrier_frequency = args[1] if len(args) > 1 else kwargs.get("carrier_frequency", None)
+            bandwidth = args[2] if len(args) > 2 else kwargs.get("bandwidth", None)
 
             transmitter_device = transmitter
             receiver_device = receiver
@@ -669,8 +669,8 @@ class ChannelRealization(Serializable, Generic[CST]):
             receiver, SimulatedDeviceState
         ):
             timestamp = sample.time
-            carrier_frequency = float(args[0]) if len(args) > 0 else None
-            bandwidth = float(args[1]) if len(args) > 1 else None
+            carrier_frequency = args[0] if len(args) > 0 else kwargs.get("carrier_frequency", None)
+            bandwidth = args[1] if len(args) > 1 else kwargs.get("bandwidth", None)
 
             transmitter_device = transmitter.device_id
             receiver_device = receiver.device_id
@@ -681,11 +681,11 @@ class ChannelRealization(Serializable, Generic[CST]):
             raise ValueError("Invalid input argument types for channel sampling.")
 
         _carrier_frequency = (
-            carrier_frequency
+            float(carrier_frequency)
             if carrier_frequency is not None
             else transmitter_state.carrier_frequency
         )
-        _bandwidth = bandwidth if bandwidth is not None else transmitter_state.sampling_rate
+        _bandwidth = float(bandwidth) if bandwidth is not None else transmitter_state.sampling_rate
 
         state = LinkState(
             transmitter_state, receiver_state, _carrier_frequency, _bandwidth, timestamp
@@ -760,6 +760,7 @@ class Channel(ABC, RandomNode, Serializable, Generic[CRT, CST]):
         # Default parameters
         self.gain = gain
         self.__scenario = None
+        self.__last_realization = None
         self.__sample_hooks = set()
 
     @property
diff --git a/hermespy/channel/delay/delay.py b/hermespy/channel/delay/delay.py
index ce0496f..e498353 100644
--- a/hermespy/channel/delay/delay.py
+++ b/hermespy/channel/delay/delay.py
@@ -74,7 +74,7 @@ class DelayChannelSample(ChannelSample):
 
     @property
     def expected_energy_scale(self) -> float:
-        return self.__path_gain(self.carrier_frequency)
+        return self.__path_gain(self.carrier_frequency) ** 2
 
     def __spatial_response(self) -> np.ndarray:
 
@@ -108,7 +108,7 @@ class DelayChannelSample(ChannelSample):
         Returns: Linear path gain scaling the amplitude of a propagated signal.
         """
 
-        gain_factor = self.gain
+        gain_factor = self.gain**0.5
 
         if self.model_propagation_loss:
             if carrier_frequency == 0.0:
diff --git a/hermespy/channel/fading/fading.py b/hermespy/channel/fading/fading.py
index 36ea220..8c0ef3d 100644
--- a/hermespy/channel/fading/fading.py
+++ b/hermespy/channel/fading/fading.py
@@ -352,7 +352,7 @@ class MultipathFadingSample(ChannelSample):
         siso_csi = np.zeros((num_samples, num_taps), dtype=np.complex128)
         for path_impulse, path_delay_samples in self.__path_impulse_generator(num_samples):
             # Skip paths with delays larger than the maximum delay required by the CSI request
-            if path_delay_samples > num_taps:
+            if path_delay_samples >= num_taps:
                 continue
 
             siso_csi[:, path_delay_samples] += path_impulse
@@ -475,7 +475,10 @@ class MultipathFadingRealization(ChannelRealization[MultipathFadingSample]):
         # Generate MIMO channel response
         spatial_response = np.exp(
             2j * np.pi * self.__antenna_correlation_variable.sample(consistent_sample)
-        )[: state.receiver.antennas.num_antennas, : state.transmitter.antennas.num_antennas]
+        )[
+            : state.receiver.antennas.num_receive_antennas,
+            : state.transmitter.antennas.num_transmit_antennas,
+        ]
 
         if self.__antenna_correlation is not None:
             spatial_response = (
diff --git a/hermespy/channel/ideal.py b/hermespy/channel/ideal.py
index ce30de7..1991d52 100644
--- a/hermespy/channel/ideal.py
+++ b/hermespy/channel/ideal.py
@@ -97,7 +97,7 @@ class IdealChannelSample(ChannelSample):
 
         # MIMO case
         else:
-            propagated_samples = signal[: self.num_receive_antennas]
+            propagated_samples = np.array(signal[: self.num_receive_antennas])
             if self.num_transmit_antennas < self.num_receive_antennas:
                 propagated_samples = np.append(
                     propagated_samples,
diff --git a/hermespy/channel/radar/multi.py b/hermespy/channel/radar/multi.py
index 5c642cf..757a376 100644
--- a/hermespy/channel/radar/multi.py
+++ b/hermespy/channel/radar/multi.py
@@ -379,27 +379,27 @@ class MultiTargetRadarChannelRealization(RadarChannelRealization):
 
         # Query target global coordiante system transformations
         trajectory_sample = target.sample_trajectory(state.time)
-        target_backwards_transform = trajectory_sample.pose
+        target_position = trajectory_sample.pose.translation
         target_forwards_transform = trajectory_sample.pose.invert()
 
         # Make sure the transmitter / receiver positions don't collide with target locations
         # This implicitly violates the far-field assumption and leads to numeric instabilities
-        if np.array_equal(target_forwards_transform.translation, state.transmitter.position):
+        if np.array_equal(target_position, state.transmitter.position):
             raise RuntimeError(
                 "Radar channel transmitter position colliding with an assumed target location"
             )
 
-        if np.array_equal(target_forwards_transform.translation, state.receiver.position):
+        if np.array_equal(target_position, state.receiver.position):
             raise RuntimeError(
                 "Radar channel receiver position colliding with an assumed target location"
             )
 
         # Compute the impinging and emerging far-field wave direction from the target in local target coordinates
-        target_impinging_direction = target_backwards_transform.transform_direction(
-            target_forwards_transform.translation - state.transmitter.position, normalize=True
+        target_impinging_direction = target_forwards_transform.transform_direction(
+            target_position - state.transmitter.position, normalize=True
         )
-        target_emerging_direction = target_backwards_transform.transform_direction(
-            state.receiver.position - target_forwards_transform.translation, normalize=True
+        target_emerging_direction = target_forwards_transform.transform_direction(
+            state.receiver.position - target_position, normalize=True
         )
 
         # Query the radar cross section from the target's model given impinging and emerging directions
@@ -409,7 +409,7 @@ class MultiTargetRadarChannelRealization(RadarChannelRealization):
 
         # Query reflection phase shift
         consistent_sample = self.__consistent_realization.sample(
-            target_forwards_transform.translation, state.receiver.position
+            target_position, state.receiver.position
         )
         reflection_phase = 2 * np.pi * self.__phase_variable.sample(consistent_sample).item()
 
@@ -578,7 +578,7 @@ class MultiTargetRadarChannel(RadarChannelBase[MultiTargetRadarChannelRealizatio
         return MultiTargetRadarChannelRealization(
             self.__consistent_generator.realize(self.decorrelation_distance),
             self.__phase_variable,
-            self.targets,
+            self.targets.copy(),
             self.interference,
             self.attenuate,
             self.sample_hooks,
diff --git a/hermespy/channel/radar/radar.py b/hermespy/channel/radar/radar.py
index 90ee65a..98fec6d 100644
--- a/hermespy/channel/radar/radar.py
+++ b/hermespy/channel/radar/radar.py
@@ -635,10 +635,10 @@ class RadarInterferencePath(RadarPath):
     ) -> np.ndarray:
         # Model the sensor arrays' spatial responses
         rx_response = receiver.antennas.cartesian_array_response(
-            carrier_frequency, transmitter.position, "global"
+            carrier_frequency, transmitter.position, "global", AntennaMode.RX
         )
         tx_response = transmitter.antennas.cartesian_array_response(
-            carrier_frequency, receiver.position, "global"
+            carrier_frequency, receiver.position, "global", AntennaMode.TX
         )
 
         if self.attenuate:
-- 
2.43.0


From a15435614d0f5af4ee58648335648a74fb597dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:57 +0000
Subject: [PATCH 54/97] fix: linear transformations, domain conversions and
 slices of channel state information

---
 hermespy/core/channel.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/hermespy/core/channel.py b/hermespy/core/channel.py
index 359fb48..03ae174 100644
--- a/hermespy/core/channel.py
+++ b/hermespy/core/channel.py
@@ -213,7 +213,8 @@ class ChannelStateInformation(Serializable):
         """
 
         if self.__state_format == ChannelStateFormat.FREQUENCY_SELECTIVITY:
-            self.__state = ifft(self.__state, axis=3)
+            self.__state = ifft(self.dense_state(), axis=3)[:, :, :, : self.__num_delay_taps]
+            self.__num_delay_taps = self.__state.shape[3]
             self.__state_format = ChannelStateFormat.IMPULSE_RESPONSE
 
         return self
@@ -241,7 +242,7 @@ class ChannelStateInformation(Serializable):
             else:
                 self.__num_frequency_bins = num_bins
 
-            self.__state = fft(self.dense_state()[:, :, :num_bins, :], axis=3, n=num_bins)
+            self.__state = fft(self.dense_state(), axis=3, n=num_bins)
 
             self.__state_format = ChannelStateFormat.FREQUENCY_SELECTIVITY
 
@@ -332,13 +333,13 @@ class ChannelStateInformation(Serializable):
 
         coordinates = [
             rx_ids.repeat(num_tx * num_taps * num_in),
-            tx_ids.repeat(num_rx * num_taps * num_in).reshape((num_tx, -1), order="F").flatten(),
+            np.tile(tx_ids.repeat(num_taps * num_in), num_rx),
             np.tile(out_ids, num_rx * num_tx),
             np.tile(in_ids, num_rx * num_tx),
         ]
 
         transformation = COO(
-            coordinates, self.__state.flatten(), shape=(num_rx, num_tx, num_out, num_in)
+            coordinates, self.dense_state().flatten(), shape=(num_rx, num_tx, num_out, num_in)
         )
         return transformation
 
@@ -371,7 +372,7 @@ class ChannelStateInformation(Serializable):
         ]
 
         transformation = COO(
-            coordinates, self.__state.flatten(), shape=(num_rx, num_tx, num_symbols, num_symbols)
+            coordinates, self.dense_state().flatten(), shape=(num_rx, num_tx, num_symbols, num_symbols)
         )
         return transformation
 
@@ -432,11 +433,15 @@ class ChannelStateInformation(Serializable):
         Returns: New channel state with a section according to `value` slice.
         """
 
-        state_section = self.__state[section]
+        sections = section if isinstance(section, tuple) else (section,)
 
-        for s, sec in enumerate(section):  # type: ignore
-            if isinstance(sec, int):
-                state_section = np.expand_dims(state_section, axis=s)
+        # Select single indices by slices, so that all dimensions are preserved
+        state_section = self.__state
+        for s, sec in enumerate(sections):
+            if isinstance(sec, (int, np.integer)):
+                index = range(self.__state.shape[s])[sec]
+                sec = slice(index, index + 1)
+            state_section = state_section[(slice(None),) * s + (sec,)]
 
         num_delay_taps = (
             self.__num_delay_taps if state_section.shape[3] == self.__state.shape[3] else None
@@ -504,7 +509,7 @@ class ChannelStateInformation(Serializable):
 
         # Make sure the accessed state is in impulse response format
         state = self.to_impulse_response().dense_state()
-        _signal = signal.view(np.ndarray)
+        _signal = signal.to_dense().view(np.ndarray)
 
         # Propagate the signal
         propagated_signal = DenseSignal.Zeros(
-- 
2.43.0


From f05f3ad156deb4b1e98b5402e980624cd6248524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:00 +0000
Subject: [PATCH 55/97] fix: block errors of incomplete receptions, extraction
 of sparse signals and powers before the first device output

---
 hermespy/core/evaluators.py  |  4 +++-
 hermespy/modem/evaluators.py | 40 ++++++++++++++++++++----------------
 2 files changed, 25 insertions(+), 19 deletions(-)

diff --git a/hermespy/core/evaluators.py b/hermespy/core/evaluators.py
index 21c8b52..603e5c5 100644
--- a/hermespy/core/evaluators.py
+++ b/hermespy/core/evaluators.py
@@ -406,6 +406,8 @@ class PAPR(ScalarEvaluator):
 
         # Initialize class members
         self.__direction = direction
+        self.__output = None
+        self.__input = None
 
         # Register hooks
         if direction == AntennaMode.TX:
@@ -598,7 +600,7 @@ class ExtractedSignals(EvaluationResult[SignalExtraction]):
                     slice(0, signal.num_streams),
                     slice(sample_offset, sample_offset + signal.num_samples),
                 )
-                samples_array[samples_coordinates] = signal
+                samples_array[samples_coordinates] = signal.to_dense().view(np.ndarray)
 
         return samples_array
 
diff --git a/hermespy/modem/evaluators.py b/hermespy/modem/evaluators.py
index a0a42b7..b77b7f2 100644
--- a/hermespy/modem/evaluators.py
+++ b/hermespy/modem/evaluators.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 from abc import ABC, abstractmethod
+from itertools import zip_longest
 from typing_extensions import override
 
 import numpy as np
@@ -305,24 +306,27 @@ class BlockErrorEvaluator(CommunicationEvaluator, Serializable):
 
         # Compare the decoded bit streams of each communication frame partioned into blocks into blocks
         # Every block with at least one bit error is considered a block error and increases the error counter
-        num_tx_blocks = 0
-        for tx_frame in transmission.frames:
-            num_tx_blocks += tx_frame.bits.size // tx_frame.bit_block_size
-        num_rx_blocks = 0
-        for rx_frame in reception.frames:
-            num_rx_blocks += rx_frame.decoded_bits.size // rx_frame.bit_block_size
-
-        block_errors = np.ones(max(num_tx_blocks, num_rx_blocks), dtype=bool)
-        b = 0
-        for tx_frame, rx_frame in zip(transmission.frames, reception.frames):
-            tx_blocks = tx_frame.bits.reshape((-1, tx_frame.bit_block_size))
-            rx_blocks = rx_frame.decoded_bits.reshape((-1, rx_frame.bit_block_size))
-            num_blocks = max(tx_blocks.shape[0], rx_blocks.shape[0])
-
-            block_errors[b : b + num_blocks] = np.any(tx_blocks != rx_blocks, axis=1)
-            b += num_blocks
+        tx_frame_blocks = [
+            frame.bits.reshape((-1, frame.bit_block_size)) for frame in transmission.frames
+        ]
+        rx_frame_blocks = [
+            frame.decoded_bits.reshape((-1, frame.bit_block_size)) for frame in reception.frames
+        ]
+
+        # Blocks and frames missing on either side are considered erroneous
+        missing_blocks = np.empty((0, 1), dtype=np.uint8)
+        block_errors: list[np.ndarray] = [np.empty(0, dtype=bool)]
+        for tx_blocks, rx_blocks in zip_longest(
+            tx_frame_blocks, rx_frame_blocks, fillvalue=missing_blocks
+        ):
+            frame_errors = np.ones(max(tx_blocks.shape[0], rx_blocks.shape[0]), dtype=bool)
+            num_common = min(tx_blocks.shape[0], rx_blocks.shape[0])
+            frame_errors[:num_common] = np.any(
+                tx_blocks[:num_common, :] != rx_blocks[:num_common, :], axis=1
+            )
+            block_errors.append(frame_errors)
 
-        return BlockErrorEvaluation(block_errors)
+        return BlockErrorEvaluation(np.concatenate(block_errors))
 
     @property
     def title(self) -> str:
@@ -377,7 +381,7 @@ class FrameErrorEvaluator(CommunicationEvaluator, Serializable):
         # Compare the decoded bit streams of each communication frame
         # If they differ, increase the frame errror count
         for f, (tx_frame, rx_frame) in enumerate(zip(transmission.frames, reception.frames)):
-            frame_errors[f] = not np.array_equiv(tx_frame.bits, rx_frame.decoded_bits)
+            frame_errors[f] = not np.array_equal(tx_frame.bits, rx_frame.decoded_bits)
 
         return FrameErrorEvaluation(frame_errors)
 
-- 
2.43.0


From c529959431c86babbf5fe184bcbc600ce8aee536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:06 +0000
Subject: [PATCH 56/97] fix: noise of devices configured at construction is
 added only once

---
 hermespy/simulation/simulated_device.py | 26 ++++---------------------
 1 file changed, 4 insertions(+), 22 deletions(-)

diff --git a/hermespy/simulation/simulated_device.py b/hermespy/simulation/simulated_device.py
index 0f67aae..9f16ce8 100644
--- a/hermespy/simulation/simulated_device.py
+++ b/hermespy/simulation/simulated_device.py
@@ -1244,35 +1244,17 @@ class SimulatedDevice(Device[SimulatedDeviceState], Moveable):
             self.rf = RFChain()
 
             # Build transmit chain
-            dacs = self.rf.new_blocks(
-                DAC,
-                self.num_transmit_antennas,
-                noise_model=self.noise_model,
-                noise_level=self.noise_level,
-            )
+            dacs = self.rf.new_blocks(DAC, self.num_transmit_antennas)
             upmixers = self.rf.new_blocks(
-                IdealMixer,
-                self.num_transmit_antennas,
-                mixer_type=MixerType.UP,
-                noise_model=self.noise_model,
-                noise_level=self.noise_level,
+                IdealMixer, self.num_transmit_antennas, mixer_type=MixerType.UP
             )
             for dac, upmixer in zip(dacs, upmixers):
                 self.rf.connect(dac.port("o"), upmixer.port("i"))
 
             # Build receive chain
-            adcs = self.rf.new_blocks(
-                ADC,
-                self.num_receive_antennas,
-                noise_model=self.noise_model,
-                noise_level=self.noise_level,
-            )
+            adcs = self.rf.new_blocks(ADC, self.num_receive_antennas)
             downmixers = self.rf.new_blocks(
-                IdealMixer,
-                self.num_receive_antennas,
-                mixer_type=MixerType.DOWN,
-                noise_model=self.noise_model,
-                noise_level=self.noise_level,
+                IdealMixer, self.num_receive_antennas, mixer_type=MixerType.DOWN
             )
             for adc, downmixer in zip(adcs, downmixers):
                 self.rf.connect(downmixer.port("o"), adc.port("i"))
-- 
2.43.0


From 020e36f18463a914c12f9065f6f9b74b3502f6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:06 +0000
Subject: [PATCH 57/97] fix: serialization of evaluators and operating
 characteristics of recorded scenarios

---
 hermespy/core/pymonte/scalar.py               | 35 +++++++++++++++++++
 hermespy/modem/evaluators.py                  | 10 +++---
 hermespy/radar/evaluators.py                  | 35 +++++++++----------
 .../simulation/evaluators/interference.py     |  8 +++--
 4 files changed, 62 insertions(+), 26 deletions(-)

diff --git a/hermespy/core/pymonte/scalar.py b/hermespy/core/pymonte/scalar.py
index 6ca7d85..e42dd29 100644
--- a/hermespy/core/pymonte/scalar.py
+++ b/hermespy/core/pymonte/scalar.py
@@ -13,6 +13,7 @@ from matplotlib.lines import Line2D
 from mpl_toolkits.mplot3d import Axes3D  # type: ignore
 from scipy.stats import norm
 
+from ..factory import DeserializationProcess, SerializationProcess
 from ..logarithmic import ValueType
 from ..visualize import PlotVisualization, Visualizable, VAT
 from .artifact import Artifact
@@ -374,6 +375,40 @@ class ScalarEvaluator(Evaluator):
     def plot_surface(self, value: bool) -> None:
         self.__plot_surface = value
 
+    def _serialize_settings(self, process: SerializationProcess) -> None:
+        """Serialize the settings shared by all scalar evaluators.
+
+        Args:
+            process: The serialization process to be used.
+        """
+
+        process.serialize_floating(self.confidence, "confidence")
+        process.serialize_floating(self.tolerance, "tolerance")
+        process.serialize_integer(self.min_num_samples, "min_num_samples")
+        process.serialize_string(self.plot_scale, "plot_scale")
+        process.serialize_integer(self.tick_format.value, "tick_format")
+        process.serialize_integer(self.plot_surface, "plot_surface")
+
+    def _deserialize_settings(self, process: DeserializationProcess) -> None:
+        """Restore the settings shared by all scalar evaluators.
+
+        Settings missing within the serialization are left unchanged.
+
+        Args:
+            process: The deserialization process to be used.
+        """
+
+        self.confidence = process.deserialize_floating("confidence", self.confidence)
+        self.tolerance = process.deserialize_floating("tolerance", self.tolerance)
+        self.min_num_samples = process.deserialize_integer("min_num_samples", self.min_num_samples)
+        self.plot_scale = process.deserialize_string("plot_scale", self.plot_scale)
+        self.tick_format = ValueType(
+            process.deserialize_integer("tick_format", self.tick_format.value)
+        )
+        self.plot_surface = bool(
+            process.deserialize_integer("plot_surface", int(self.plot_surface))
+        )
+
 
 class ScalarDimension(ABC):
     """Base class for objects that can be configured by scalar values.
diff --git a/hermespy/modem/evaluators.py b/hermespy/modem/evaluators.py
index b77b7f2..e8b0e9a 100644
--- a/hermespy/modem/evaluators.py
+++ b/hermespy/modem/evaluators.py
@@ -42,7 +42,6 @@ __status__ = "Prototype"
 class CommunicationEvaluator(ScalarEvaluator, Serializable):
     """Base class for evaluating communication processes between two modems."""
 
-    _DEFAULT_PLOT_SURFACE: bool = True
 
     __transmitting_modem: TransmittingModem
     __receiving_modem: ReceivingModem
@@ -50,7 +49,6 @@ class CommunicationEvaluator(ScalarEvaluator, Serializable):
     __receive_hook: Hook[CommunicationReception]
     __transmission: CommunicationTransmission | None
     __reception: CommunicationReception | None
-    __plot_surface: bool
 
     def __init__(
         self,
@@ -148,16 +146,18 @@ class CommunicationEvaluator(ScalarEvaluator, Serializable):
     def serialize(self, process: SerializationProcess) -> None:
         process.serialize_object(self.__transmitting_modem, "transmitting_modem")
         process.serialize_object(self.__receiving_modem, "receiving_modem")
-        process.serialize_integer(self.__plot_surface, "plot_surface")
+        self._serialize_settings(process)
 
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> CommunicationEvaluator:
-        return cls(
+        evaluator = cls(
             process.deserialize_object("transmitting_modem", TransmittingModem),
             process.deserialize_object("receiving_modem", ReceivingModem),
-            bool(process.deserialize_integer("plot_surface", cls._DEFAULT_PLOT_SURFACE)),
         )
+        evaluator._deserialize_settings(process)
+
+        return evaluator
 
 
 class ErrorEvaluation(EvaluationTemplate[np.ndarray, StemVisualization], ABC):
diff --git a/hermespy/radar/evaluators.py b/hermespy/radar/evaluators.py
index caa6717..99c7d3a 100644
--- a/hermespy/radar/evaluators.py
+++ b/hermespy/radar/evaluators.py
@@ -411,23 +411,17 @@ class DetectionProbEvaluator(ScalarEvaluator, Serializable):
     @override
     def serialize(self, process: SerializationProcess) -> None:
         process.serialize_object(self.__radar, "radar")
-        process.serialize_floating(self.confidence, "confidence")
-        process.serialize_floating(self.tolerance, "tolerance")
-        process.serialize_integer(self.min_num_samples, "min_num_samples")
+        self._serialize_settings(process)
 
     @classmethod
     @override
     def Deserialize(
         cls: Type[DetectionProbEvaluator], process: DeserializationProcess
     ) -> DetectionProbEvaluator:
-        return DetectionProbEvaluator(
-            radar=process.deserialize_object("radar", Radar),
-            confidence=process.deserialize_floating("confidence", cls._DEFAULT_CONFIDENCE),
-            tolerance=process.deserialize_floating("tolerance", cls._DEFAULT_TOLERANCE),
-            min_num_samples=process.deserialize_integer(
-                "min_num_samples", cls._DEFAULT_MIN_NUM_SAMPLES
-            ),
-        )
+        evaluator = cls(process.deserialize_object("radar", Radar))
+        evaluator._deserialize_settings(process)
+
+        return evaluator
 
 
 class RocArtifact(Artifact):
@@ -814,7 +808,7 @@ class ReceiverOperatingCharacteristic(RadarEvaluator, Serializable):
 
     @override
     def initialize_result(self, grid: Sequence[GridDimensionInfo]) -> RocEvaluationResult:
-        return RocEvaluationResult(grid, self)
+        return RocEvaluationResult(grid, self, self.__num_thresholds)
 
     @staticmethod
     def FromScenarios(
@@ -974,7 +968,9 @@ class ReceiverOperatingCharacteristic(RadarEvaluator, Serializable):
             h0_campaign: Campaign identifier of the null hypothesis measurements.
             h1_campaign: Campaign identifier of the alternative hypothesis measurements.
             drop_offset: Index of the first drop to be replayed.
-            num_drops: Number of drops to be replayed.
+            num_drops:
+                Number of drops to be replayed.
+                By default, all available drops are replayed.
             backend: Serialization backend to be used for the evaluation.
             console: Rich console to be used for progress tracking.
 
@@ -1014,7 +1010,9 @@ class ReceiverOperatingCharacteristic(RadarEvaluator, Serializable):
             num_available_drops = scenario.replay(
                 campaign=campaign, drop_offset=drop_offset, backend=backend
             )
-            num_replayed_drops = min(num_drops, num_available_drops)
+            num_replayed_drops = (
+                min(num_drops, num_available_drops) if num_drops > 0 else num_available_drops
+            )
             for _ in track(
                 range(num_replayed_drops), description="Replaying " + hypothesis, console=_console
             ):
@@ -1027,11 +1025,10 @@ class ReceiverOperatingCharacteristic(RadarEvaluator, Serializable):
         result = RocEvaluationResult(
             [GridDimensionInfo([SamplePoint(0)], "Scenario", "linear", ValueType.LIN)], None
         )
-        artifacts = np.empty(1, dtype=object)
-        artifacts[0] = [
-            ReceiverOperatingCharacteristic.__evaluation_from_receptions(h0, h1).artifact()
-            for h0, h1 in zip(null_receptions, alt_receptions)
-        ]
+        for h0, h1 in zip(null_receptions, alt_receptions):
+            evaluation = ReceiverOperatingCharacteristic.__evaluation_from_receptions(h0, h1)
+            result.add_artifact((0,), evaluation.artifact(), False)
+
         return result
 
     @classmethod
diff --git a/hermespy/simulation/evaluators/interference.py b/hermespy/simulation/evaluators/interference.py
index 135572e..8689a1f 100644
--- a/hermespy/simulation/evaluators/interference.py
+++ b/hermespy/simulation/evaluators/interference.py
@@ -61,6 +61,7 @@ class SI(ScalarEvaluator, Serializable):
 
         # Register input hook
         self.__device = device
+        self._input = None
         self._input_hook = device.simulated_input_callbacks.add_callback(self.__input_callback)
 
     def __input_callback(self, input: ProcessedSimulatedDeviceInput) -> None:
@@ -93,12 +94,15 @@ class SI(ScalarEvaluator, Serializable):
     @override
     def serialize(self, process: SerializationProcess) -> None:
         process.serialize_object(self.__device, "device")
+        self._serialize_settings(process)
 
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> SI:
-        device = process.deserialize_object("device", SimulatedDevice)
-        return cls(device)
+        evaluator = cls(process.deserialize_object("device", SimulatedDevice))
+        evaluator._deserialize_settings(process)
+
+        return evaluator
 
 
 class SSINR(SI):
-- 
2.43.0


From 617e91e03995cf8cb1f3efd4909ce39511f7175a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:37 +0000
Subject: [PATCH 58/97] fix: impedance coupling of several antennas and noise
 of sparse signals

---
 hermespy/simulation/coupling/impedance.py | 9 ++++++---
 hermespy/simulation/rf/noise/model.py     | 4 +++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/hermespy/simulation/coupling/impedance.py b/hermespy/simulation/coupling/impedance.py
index deae068..82516ee 100644
--- a/hermespy/simulation/coupling/impedance.py
+++ b/hermespy/simulation/coupling/impedance.py
@@ -5,6 +5,7 @@ from typing import TYPE_CHECKING
 from typing_extensions import override
 
 import numpy as np
+from scipy.linalg import fractional_matrix_power
 
 from hermespy.core import DeserializationProcess, SerializationProcess, SignalBlock
 from .coupling import Coupling
@@ -178,7 +179,9 @@ class ImpedanceCoupling(Coupling):
             else self.transmit_correlation
         )
 
-        transmit_coupling = transmit_impedance.real**-0.5 @ transmit_correlation**0.5
+        transmit_coupling = fractional_matrix_power(
+            transmit_impedance.real, -0.5
+        ) @ fractional_matrix_power(transmit_correlation, 0.5)
         transmitted_samples = transmit_coupling @ signal
 
         return SignalBlock(
@@ -206,9 +209,9 @@ class ImpedanceCoupling(Coupling):
         receive_coupling = (
             2
             * receive_impedance[0, 0].real
-            * matching_impedance.real**0.5
+            * fractional_matrix_power(matching_impedance.real, 0.5)
             @ np.linalg.inv(matching_impedance + receive_correlation)
-            @ receive_correlation**0.5
+            @ fractional_matrix_power(receive_correlation, 0.5)
         )
         received_samples = receive_coupling @ signal
         return SignalBlock(
diff --git a/hermespy/simulation/rf/noise/model.py b/hermespy/simulation/rf/noise/model.py
index 90e9614..dc1d3d1 100644
--- a/hermespy/simulation/rf/noise/model.py
+++ b/hermespy/simulation/rf/noise/model.py
@@ -12,6 +12,7 @@ from hermespy.core import (
     Serializable,
     SerializationProcess,
     DeserializationProcess,
+    SparseSignal,
 )
 from hermespy.core.signal_model import ST
 
@@ -152,7 +153,8 @@ class AWGNRealization(NoiseRealization):
             rng.standard_normal(signal.shape) + 1j * rng.standard_normal(signal.shape)
         )
 
-        noisy_signal = signal.copy()
+        # The noise isn't limited to the blocks of sparse signals
+        noisy_signal = signal.to_dense() if isinstance(signal, SparseSignal) else signal.copy()
         for block in noisy_signal.blocks:
             block += noise_samples  # type: ignore
         noisy_signal.noise_power = self.power
-- 
2.43.0


From e215aff56cbd5de69e6cdcc001dc122ce52a60a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:52 +0000
Subject: [PATCH 59/97] fix: connections, splitters, quantization, short
 signals and serialization of radio-frequency chains

---
 hermespy/simulation/rf/block.py          |  6 +--
 hermespy/simulation/rf/blocks/ad.py      | 17 +++----
 hermespy/simulation/rf/blocks/filters.py | 21 ++++++++
 hermespy/simulation/rf/blocks/shift.py   | 32 +++++++++++-
 hermespy/simulation/rf/blocks/source.py  | 23 +++++++++
 hermespy/simulation/rf/blocks/split.py   | 23 ++++++++-
 hermespy/simulation/rf/blocks/sum.py     | 15 ++++++
 hermespy/simulation/rf/blocks/x4.py      | 13 +++++
 hermespy/simulation/rf/chain.py          | 65 +++++++++++++++++++-----
 9 files changed, 187 insertions(+), 28 deletions(-)

diff --git a/hermespy/simulation/rf/block.py b/hermespy/simulation/rf/block.py
index e04281c..8c158e0 100644
--- a/hermespy/simulation/rf/block.py
+++ b/hermespy/simulation/rf/block.py
@@ -212,13 +212,13 @@ class RFBlock(ABC, Generic[RFBRT], RandomNode, Serializable):
             )
 
             # Append zeros to the propagated signal if it is too short to be filtered with the anti-aliasing filter
-            if propagated_signal.num_samples < (antialiasing_filter_sos.shape[1] + 1) * 4:
+            num_filter_samples = 6 * (antialiasing_filter_sos.shape[0] + 1)
+            if propagated_signal.num_samples < num_filter_samples:
                 padded_samples = propagated_signal.append_samples(
                     np.zeros(
                         (
                             propagated_signal.num_streams,
-                            (antialiasing_filter_sos.shape[1] + 1) * 4
-                            - propagated_signal.num_samples,
+                            num_filter_samples - propagated_signal.num_samples,
                         ),
                         dtype=np.complex128,
                     )
diff --git a/hermespy/simulation/rf/blocks/ad.py b/hermespy/simulation/rf/blocks/ad.py
index eabec30..303ddee 100644
--- a/hermespy/simulation/rf/blocks/ad.py
+++ b/hermespy/simulation/rf/blocks/ad.py
@@ -482,21 +482,20 @@ class ADC(ConverterBase, DSPOutputBlock):
                 )
 
             # Mid-tread quantization
-            # Note that mid-tread quantization generates an odd number of levels
+            # Note that the levels of mid-tread quantization aren't symmetric around zero
             else:
                 step = 2 * max_amplitude / (self.num_quantization_levels + 1)
 
-                clipped_signal = np.empty_like(input_signal)
-                clipped_signal.real = np.clip(
-                    input_signal.real, -max_amplitude, max_amplitude - step
+                min_level = -self.num_quantization_levels // 2
+                max_level = self.num_quantization_levels // 2 - 1
+
+                quantized_signal.real = step * np.clip(
+                    np.floor(input_signal.real / step + 0.5), min_level, max_level
                 )
-                clipped_signal.imag = np.clip(
-                    input_signal.imag, -max_amplitude, max_amplitude - step
+                quantized_signal.imag = step * np.clip(
+                    np.floor(input_signal.imag / step + 0.5), min_level, max_level
                 )
 
-                quantized_signal.real = step * np.floor(clipped_signal.real / step + 0.5)
-                quantized_signal.imag = step * np.floor(clipped_signal.imag / step + 0.5)
-
         return quantized_signal
 
     def __convert_frame(self, frame_signal: RFSignal) -> RFSignal:
diff --git a/hermespy/simulation/rf/blocks/filters.py b/hermespy/simulation/rf/blocks/filters.py
index 6541911..d269239 100644
--- a/hermespy/simulation/rf/blocks/filters.py
+++ b/hermespy/simulation/rf/blocks/filters.py
@@ -7,6 +7,7 @@ from typing_extensions import override
 import numpy as np
 from scipy.signal import butter, filtfilt
 
+from hermespy.core import DeserializationProcess, SerializationProcess
 from ..block import RFBlock, RFBlockRealization, RFBlockPort, RFBlockPortType
 from ..signal import RFSignal
 from ..noise import NoiseModel, NoiseLevel, NoiseRealization
@@ -232,3 +233,23 @@ class HPF(Filter):
             oversampling_factor,
             self.noise_model.realize(self.noise_level.get_power(bandwidth)),
         )
+
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        process.serialize_floating(self.cutoff_frequency, "cutoff_frequency")
+        process.serialize_integer(self.filter_order, "filter_order")
+        process.serialize_object(self.noise_model, "noise_model")
+        process.serialize_object(self.noise_level, "noise_level")
+        if self.seed is not None:
+            process.serialize_integer(self.seed, "seed")
+
+    @classmethod
+    @override
+    def Deserialize(cls, process: DeserializationProcess) -> HPF:
+        return cls(
+            cutoff_frequency=process.deserialize_floating("cutoff_frequency"),
+            filter_order=process.deserialize_integer("filter_order"),
+            noise_model=process.deserialize_object("noise_model", NoiseModel, None),
+            noise_level=process.deserialize_object("noise_level", NoiseLevel, None),
+            seed=process.deserialize_integer("seed", None),
+        )
diff --git a/hermespy/simulation/rf/blocks/shift.py b/hermespy/simulation/rf/blocks/shift.py
index 8d81bb2..7d5926c 100644
--- a/hermespy/simulation/rf/blocks/shift.py
+++ b/hermespy/simulation/rf/blocks/shift.py
@@ -5,6 +5,7 @@ from typing_extensions import override
 
 import numpy as np
 
+from hermespy.core import DeserializationProcess, SerializationProcess
 from ..block import RFBlock, RFBlockRealization, RFBlockPort, RFBlockPortType
 from ..signal import RFSignal
 from ..noise import NoiseModel, NoiseLevel
@@ -98,7 +99,14 @@ class Shift(RFBlock):
 
     @override
     def _propagate(self, realization: RFBlockRealization, input: RFSignal) -> RFSignal:
-        return input * np.exp(1j * self.__phase)
+        phase = self.phase
+
+        # Select the closest of the discrete phase shift levels
+        if self.num_quantization_bits > 0:
+            step = 2 * np.pi / 2**self.num_quantization_bits
+            phase = step * np.round(phase / step)
+
+        return input * np.exp(1j * phase)
 
     @property
     def i(self) -> RFBlockPort[Shift]:
@@ -117,3 +125,25 @@ class Shift(RFBlock):
         """
 
         return self.__o
+
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        process.serialize_floating(self.phase, "phase")
+        process.serialize_integer(self.num_quantization_bits, "num_quantization_bits")
+        process.serialize_integer(self.num_input_ports, "num_ports")
+        process.serialize_object(self.noise_model, "noise_model")
+        process.serialize_object(self.noise_level, "noise_level")
+        if self.seed is not None:
+            process.serialize_integer(self.seed, "seed")
+
+    @classmethod
+    @override
+    def Deserialize(cls, process: DeserializationProcess) -> Shift:
+        return cls(
+            phase=process.deserialize_floating("phase"),
+            num_quantization_bits=process.deserialize_integer("num_quantization_bits"),
+            num_ports=process.deserialize_integer("num_ports"),
+            noise_model=process.deserialize_object("noise_model", NoiseModel, None),
+            noise_level=process.deserialize_object("noise_level", NoiseLevel, None),
+            seed=process.deserialize_integer("seed", None),
+        )
diff --git a/hermespy/simulation/rf/blocks/source.py b/hermespy/simulation/rf/blocks/source.py
index 8da0522..651296e 100644
--- a/hermespy/simulation/rf/blocks/source.py
+++ b/hermespy/simulation/rf/blocks/source.py
@@ -5,6 +5,7 @@ from typing_extensions import override
 
 import numpy as np
 
+from hermespy.core import DeserializationProcess, SerializationProcess
 from ..noise import (
     NoiseRealization,
     NoiseLevel,
@@ -212,3 +213,25 @@ class Source(RFBlock):
         # Add phase noise to the output signal
         noisy_output = realization.phase_noise.add_noise(output)
         return noisy_output
+
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        process.serialize_floating(self.carrier_frequency, "carrier_frequency")
+        process.serialize_object(self.phase_noise, "phase_noise")
+        process.serialize_floating(self.amplitude, "amplitude")
+        process.serialize_object(self.noise_model, "noise_model")
+        process.serialize_object(self.noise_level, "noise_level")
+        if self.seed is not None:
+            process.serialize_integer(self.seed, "seed")
+
+    @classmethod
+    @override
+    def Deserialize(cls, process: DeserializationProcess) -> Source:
+        return cls(
+            carrier_frequency=process.deserialize_floating("carrier_frequency"),
+            phase_noise=process.deserialize_object("phase_noise", PhaseNoise, None),
+            amplitude=process.deserialize_floating("amplitude"),
+            noise_model=process.deserialize_object("noise_model", NoiseModel, None),
+            noise_level=process.deserialize_object("noise_level", NoiseLevel, None),
+            seed=process.deserialize_integer("seed", None),
+        )
diff --git a/hermespy/simulation/rf/blocks/split.py b/hermespy/simulation/rf/blocks/split.py
index 92c8e14..c572073 100644
--- a/hermespy/simulation/rf/blocks/split.py
+++ b/hermespy/simulation/rf/blocks/split.py
@@ -5,6 +5,7 @@ from typing_extensions import override
 
 import numpy as np
 
+from hermespy.core import DeserializationProcess, SerializationProcess
 from ..block import RFBlock, RFBlockRealization, RFBlockPort, RFBlockPortType
 from ..signal import RFSignal
 
@@ -57,7 +58,13 @@ class Split(RFBlock):
 
     @override
     def _propagate(self, realization: RFBlockRealization, input: RFSignal) -> RFSignal:
-        return np.tile(input[[0], :], (self.__num_outputs, 1))  # type: ignore
+        return RFSignal.FromNDArray(
+            np.repeat(input.view(np.ndarray)[[0], :], self.__num_outputs, axis=0),
+            input.sampling_rate,
+            np.repeat(input.carrier_frequencies[[0]], self.__num_outputs),
+            np.repeat(input.noise_powers[[0]], self.__num_outputs),
+            input.delay,
+        )
 
     @property
     def i(self) -> RFBlockPort[Split]:
@@ -73,3 +80,17 @@ class Split(RFBlock):
         """
 
         return self.__o
+
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        process.serialize_integer(self.num_output_ports, "num_outputs")
+        if self.seed is not None:
+            process.serialize_integer(self.seed, "seed")
+
+    @classmethod
+    @override
+    def Deserialize(cls, process: DeserializationProcess) -> Split:
+        return cls(
+            num_outputs=process.deserialize_integer("num_outputs"),
+            seed=process.deserialize_integer("seed", None),
+        )
diff --git a/hermespy/simulation/rf/blocks/sum.py b/hermespy/simulation/rf/blocks/sum.py
index 48821d1..65a34fd 100644
--- a/hermespy/simulation/rf/blocks/sum.py
+++ b/hermespy/simulation/rf/blocks/sum.py
@@ -5,6 +5,7 @@ from typing_extensions import override
 
 import numpy as np
 
+from hermespy.core import DeserializationProcess, SerializationProcess
 from ..block import RFBlock, RFBlockRealization, RFBlockPort, RFBlockPortType
 from ..signal import RFSignal
 
@@ -78,3 +79,17 @@ class Sum(RFBlock):
         """Output port of the summation block."""
 
         return self.__o
+
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        process.serialize_integer(self.num_input_ports, "num_input_ports")
+        if self.seed is not None:
+            process.serialize_integer(self.seed, "seed")
+
+    @classmethod
+    @override
+    def Deserialize(cls, process: DeserializationProcess) -> Sum:
+        return cls(
+            num_input_ports=process.deserialize_integer("num_input_ports"),
+            seed=process.deserialize_integer("seed", None),
+        )
diff --git a/hermespy/simulation/rf/blocks/x4.py b/hermespy/simulation/rf/blocks/x4.py
index 3d994eb..50edcf2 100644
--- a/hermespy/simulation/rf/blocks/x4.py
+++ b/hermespy/simulation/rf/blocks/x4.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 from typing_extensions import override
 
+from hermespy.core import DeserializationProcess, SerializationProcess
 from ..block import RFBlock, RFBlockRealization, RFBlockPort, RFBlockPortType
 from ..signal import RFSignal
 
@@ -71,3 +72,15 @@ class X4(RFBlock):
         output: RFSignal = input.copy()
         output.carrier_frequencies = input.carrier_frequencies * 4
         return output
+
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        if self.seed is not None:
+            process.serialize_integer(self.seed, "seed")
+
+    @classmethod
+    @override
+    def Deserialize(cls, process: DeserializationProcess) -> X4:
+        return cls(
+            seed=process.deserialize_integer("seed", None),
+        )
diff --git a/hermespy/simulation/rf/chain.py b/hermespy/simulation/rf/chain.py
index 16bfd01..1c24223 100644
--- a/hermespy/simulation/rf/chain.py
+++ b/hermespy/simulation/rf/chain.py
@@ -6,6 +6,8 @@ from collections.abc import MutableMapping
 from typing import Generic, Iterable, SupportsIndex, SupportsInt
 from typing_extensions import override
 
+import numpy as np
+
 from hermespy.core import (
     DenseSignal,
     RandomNode,
@@ -147,24 +149,27 @@ class RFBlockReference(Generic[RFBT], Serializable):
     def num_connected_input_ports(self) -> int:
         """Number of connected input ports."""
 
-        return sum(len(v[0]) for v in self.__incoming_connections.values())
+        return self.block.num_input_ports - len(self.open_input_ports)
 
     @property
     def num_connected_output_ports(self) -> int:
         """Number of connected output ports."""
 
-        return sum(len(v[0]) for v in self.__outgoing_connections.values())
+        return self.block.num_output_ports - len(self.open_output_ports)
 
     @property
     def open_input_ports(self) -> list[int]:
         """List of open input port indices."""
 
-        port_indices = list(range(self.block.num_input_ports))
-        for _, connection_port_indices in self.__incoming_connections.values():
-            for port_index in connection_port_indices:
-                port_indices.remove(port_index)
+        connected_ports = {p for _, ports in self.__incoming_connections.values() for p in ports}
+        return [p for p in range(self.block.num_input_ports) if p not in connected_ports]
+
+    @property
+    def open_output_ports(self) -> list[int]:
+        """List of open output port indices."""
 
-        return port_indices
+        connected_ports = {p for ports, _ in self.__outgoing_connections.values() for p in ports}
+        return [p for p in range(self.block.num_output_ports) if p not in connected_ports]
 
     def incoming_block_index(self, block: RFBlockReference) -> int:
         """Get the index of the incoming block in the list of incoming connections.
@@ -200,7 +205,12 @@ class RFBlockReference(Generic[RFBT], Serializable):
         ):
             raise ValueError(f"Invalid input port index {_input_ports}")
 
-        self.__outgoing_connections[input] = (_output_ports, _input_ports)
+        # Retain already existing connections between both blocks
+        outputs, inputs = self.__outgoing_connections.get(input, ([], []))
+        self.__outgoing_connections[input] = (
+            [*outputs, *_output_ports],
+            [*inputs, *_input_ports],
+        )
 
     def connect_from(
         self, output: RFBlockReference, output_ports: int | list[int], input_ports: int | list[int]
@@ -224,7 +234,12 @@ class RFBlockReference(Generic[RFBT], Serializable):
         ):
             raise ValueError(f"Invalid input port index {_input_ports}")
 
-        self.__incoming_connections[output] = (_output_ports, _input_ports)
+        # Retain already existing connections between both blocks
+        outputs, inputs = self.__incoming_connections.get(output, ([], []))
+        self.__incoming_connections[output] = (
+            [*outputs, *_output_ports],
+            [*inputs, *_input_ports],
+        )
 
     def propagate(self, state: RFBlockRealization, input: RFSignal) -> RFSignal:
         """Propagate a signal through the referenced block.
@@ -564,7 +579,7 @@ class RFChain(RandomNode, Serializable):
             p += num_input_ports
 
         # Propagate back from the DSP output through the chain
-        num_output_ports = sum(b.block.num_output_ports for b in self.__rf_output_blocks)
+        num_output_ports = sum(len(b.open_output_ports) for b in self.__rf_output_blocks)
         output = RFSignal(num_output_ports, num_samples, realization.sampling_rate)
         k = 0
         block_outputs: MutableMapping[RFBlockReference, DenseSignal] = {}
@@ -572,8 +587,11 @@ class RFChain(RandomNode, Serializable):
             block_output = self.__generate_output(
                 realization, num_samples, block, origin_inputs, block_outputs
             )
-            output[k : k + block_output.num_streams, :] = block_output
-            k += block_output.num_streams
+
+            # Ports connected to other blocks don't feed into the antennas
+            open_ports = block.open_output_ports
+            output[k : k + len(open_ports), :] = block_output[open_ports, :]
+            k += len(open_ports)
 
         return output
 
@@ -602,8 +620,8 @@ class RFChain(RandomNode, Serializable):
             p += num_block_input_ports
 
         # Propagate forward from the RF input through the chain
-        num_input_ports = sum(b.block.num_input_ports for b in self.__dsp_output_blocks)
-        output = RFSignal(num_input_ports, num_samples, realization.sampling_rate)
+        num_output_ports = sum(b.block.num_output_ports for b in self.__dsp_output_blocks)
+        output = RFSignal(num_output_ports, num_samples, realization.sampling_rate)
         k = 0
         block_outputs: MutableMapping[RFBlockReference, DenseSignal] = {}
         for block in self.__dsp_output_blocks:
@@ -675,6 +693,16 @@ class RFChain(RandomNode, Serializable):
         process.serialize_object_sequence(self.__rf_output_blocks, "rf_output_blocks")
         process.serialize_object_sequence(self.__rf_origin_blocks, "rf_origin_blocks")
 
+        # Serialize the connections in between the block references
+        connections = [
+            (self.__block_references.index(output), output_port, i, input_port)
+            for i, block in enumerate(self.__block_references)
+            for output, ports in block.incoming_connections.items()
+            for output_port, input_port in zip(*ports)
+        ]
+        if connections:
+            process.serialize_array(np.asarray(connections, dtype=np.int64), "connections")
+
         # Serialize random seed if available
         if self.seed is not None:
             process.serialize_integer(self.seed, "seed")
@@ -704,4 +732,13 @@ class RFChain(RandomNode, Serializable):
             process.deserialize_object_sequence("rf_origin_blocks", RFBlockReference)
         )
 
+        # Restore the connections in between the block references
+        connections = process.deserialize_array("connections", np.int64, None)
+        if connections is not None:
+            for output, output_port, input, input_port in connections.tolist():
+                output_block = chain_instance.__block_references[output]
+                input_block = chain_instance.__block_references[input]
+                output_block.connect_to(input_block, output_port, input_port)
+                input_block.connect_from(output_block, output_port, input_port)
+
         return chain_instance
-- 
2.43.0


From 9c4ffa486d074f51421ca631202affc7a13af972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:39 +0000
Subject: [PATCH 60/97] fix: undriven ports and repeatedly connected ports of
 radio-frequency chains

---
 hermespy/simulation/rf/chain.py  | 2 ++
 hermespy/simulation/rf/signal.py | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/hermespy/simulation/rf/chain.py b/hermespy/simulation/rf/chain.py
index 1c24223..8e9f2dd 100644
--- a/hermespy/simulation/rf/chain.py
+++ b/hermespy/simulation/rf/chain.py
@@ -622,6 +622,7 @@ class RFChain(RandomNode, Serializable):
         # Propagate forward from the RF input through the chain
         num_output_ports = sum(b.block.num_output_ports for b in self.__dsp_output_blocks)
         output = RFSignal(num_output_ports, num_samples, realization.sampling_rate)
+        output[:, :] = np.zeros(output.shape)
         k = 0
         block_outputs: MutableMapping[RFBlockReference, DenseSignal] = {}
         for block in self.__dsp_output_blocks:
@@ -664,6 +665,7 @@ class RFChain(RandomNode, Serializable):
         block_input = RFSignal(
             block.block.num_input_ports, num_samples, chain_realization.sampling_rate
         )
+        block_input[:, :] = np.zeros(block_input.shape)
         for impinging_signal, (output_ports, input_ports) in zip(
             connected_block_ouputs, block.incoming_connections.values()
         ):
diff --git a/hermespy/simulation/rf/signal.py b/hermespy/simulation/rf/signal.py
index 45728bf..91717a9 100644
--- a/hermespy/simulation/rf/signal.py
+++ b/hermespy/simulation/rf/signal.py
@@ -125,13 +125,13 @@ class RFSignal(DenseSignal):
         DenseSignal.__array_finalize__(self, obj)
 
         # Recover additional attributes lost in numpy view/copy operations
-        if hasattr(obj, "carrier_frequencies"):
+        if hasattr(obj, "carrier_frequencies") and obj.carrier_frequencies.size >= self.num_streams:
             self.carrier_frequencies = obj.carrier_frequencies[: self.num_streams].copy()  # type: ignore
         else:
             self.carrier_frequencies = np.full(
                 (self.num_streams,), self.carrier_frequency, np.float64
             )
-        if hasattr(obj, "noise_powers"):
+        if hasattr(obj, "noise_powers") and obj.noise_powers.size >= self.num_streams:
             self.noise_powers = obj.noise_powers[: self.num_streams].copy()  # type: ignore
         else:
             self.noise_powers = np.full((self.num_streams,), self.noise_power, np.float64)
-- 
2.43.0


From 14592c62e6d2f4c106e3ec1d37a3e2a7d5f37e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:49 +0000
Subject: [PATCH 61/97] fix: trigger offsets, alignment of leakage and
 superposition of several signals at device inputs

---
 hermespy/core/device.py                 |  2 +-
 hermespy/simulation/simulated_device.py | 52 ++++++++++++++++++-------
 2 files changed, 38 insertions(+), 16 deletions(-)

diff --git a/hermespy/core/device.py b/hermespy/core/device.py
index 3977a6c..42b9d21 100644
--- a/hermespy/core/device.py
+++ b/hermespy/core/device.py
@@ -1547,7 +1547,7 @@ class Device(ABC, Generic[DST], Transformable, RandomNode, Serializable):
                 carrier_frequency=self.carrier_frequency,
             )
             for signal in impinging_signals:
-                superimposed_signal.superimpose(signal)
+                superimposed_signal = superimposed_signal.superimpose(signal)
 
         else:
             superimposed_signal = impinging_signals[0]
diff --git a/hermespy/simulation/simulated_device.py b/hermespy/simulation/simulated_device.py
index 9f16ce8..2fd7be9 100644
--- a/hermespy/simulation/simulated_device.py
+++ b/hermespy/simulation/simulated_device.py
@@ -66,6 +66,21 @@ __email__ = "jan.adler@barkhauseninstitut.org"
 __status__ = "Prototype"
 
 
+def _truncate_samples(num_samples: float) -> int:
+    """Truncate a number of samples to the integer closest to zero.
+
+    Robust with respect to floating point errors of integer amounts of samples.
+
+    Args:
+        num_samples: Fractional number of samples.
+
+    Returns: Integer number of samples.
+    """
+
+    nearest = round(num_samples)
+    return nearest if abs(num_samples - nearest) < 1e-6 else int(num_samples)
+
+
 class TriggerRealization(Serializable):
     """Realization of a trigger model.
 
@@ -144,7 +159,7 @@ class TriggerRealization(Serializable):
                 f"Sampling rate must be greater or equal to zero (not {sampling_rate})"
             )
 
-        return int((self.trigger_delay - initial_delay) * sampling_rate)
+        return _truncate_samples((self.trigger_delay - initial_delay) * sampling_rate)
 
     def serialize(self, process: SerializationProcess) -> None:
         process.serialize_integer(self.num_offset_samples, "num_offset_samples")
@@ -346,7 +361,7 @@ class TimeOffsetTrigger(TriggerModel):
             )
 
         sampling_rate = list(self.devices)[0].sampling_rate
-        num_offset_samples = int(self.offset * sampling_rate)
+        num_offset_samples = _truncate_samples(self.offset * sampling_rate)
 
         return TriggerRealization(num_offset_samples, sampling_rate)
 
@@ -464,7 +479,7 @@ class NormalTrigger(TriggerModel):
         # Select the proper random number generator
         _rng = self._rng if rng is None else rng
 
-        trigger_delay = int(_rng.normal(loc=self.mean, scale=self.std) * sampling_rate)
+        trigger_delay = max(0, int(_rng.normal(loc=self.mean, scale=self.std) * sampling_rate))
         return TriggerRealization(trigger_delay, sampling_rate)
 
     @override
@@ -1901,15 +1916,15 @@ class SimulatedDevice(Device[SimulatedDeviceState], Moveable):
             synchronized_signal = mixed_signal[:, num_trigger_offset_samples:]
         elif num_trigger_offset_samples < 0:
             synchronized_signal = DenseSignal.Zeros(
-                signal.num_streams,
-                num_trigger_offset_samples,
-                signal.sampling_rate,
-                signal.carrier_frequency,
-                signal.noise_power,
-            ).append_samples(synchronized_signal)
+                mixed_signal.num_streams,
+                -num_trigger_offset_samples,
+                mixed_signal.sampling_rate,
+                mixed_signal.carrier_frequency,
+                mixed_signal.noise_power,
+            ).append_samples(mixed_signal)
 
         synchronized_signal.delay = (
-            mixed_signal.delay - num_trigger_offset_samples * self.sampling_rate
+            mixed_signal.delay + num_trigger_offset_samples / self.sampling_rate
         )
 
         # Apply mutual coupling model during signal reception
@@ -1925,11 +1940,18 @@ class SimulatedDevice(Device[SimulatedDeviceState], Moveable):
         )
 
         # Model the rf chain's receive behaviour
-        rf_input = (
-            antenna_outputs.superimpose(leaking_signal)
-            if leaking_signal is not None
-            else antenna_outputs
-        )
+        rf_input = antenna_outputs
+        if leaking_signal is not None:
+            # Align the leakage to the trigger if there are no impinging samples
+            if antenna_outputs.num_samples < 1:
+                rf_input = SparseSignal.Empty(
+                    antenna_outputs.sampling_rate,
+                    antenna_outputs.num_streams,
+                    carrier_frequency=antenna_outputs.carrier_frequency,
+                    noise_power=antenna_outputs.noise_power,
+                    delay=antenna_outputs.delay,
+                )
+            rf_input = rf_input.superimpose(leaking_signal)
         rf_output = self.rf.receive(rf_input.to_dense(), _state.rf)
 
         # Generate individual operator inputs
-- 
2.43.0


From dd5372e535365226b6d0fa39a979a841d351ddb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:36 +0000
Subject: [PATCH 62/97] fix: power of empty signals and removed specific
 isolations

---
 hermespy/core/signal_model.py             | 4 ++--
 hermespy/simulation/isolation/specific.py | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index 2a53902..b9b700e 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -489,7 +489,7 @@ class SignalBlock(np.ndarray[tuple[int, int], np.dtype[np.complex128]], Serializ
         Returns: The power of each modeled stream as a numpy vector.
         """
 
-        return self.energy / self.num_samples
+        return self.energy / max(1, self.num_samples)
 
     @property
     def energy(self) -> np.ndarray:
@@ -1768,7 +1768,7 @@ class SparseSignal(Signal):
     @property
     @override
     def power(self) -> np.ndarray:
-        return self.energy / self.num_samples
+        return self.energy / max(1, self.num_samples)
 
     @override
     def view(self, dtype: type[AT]) -> AT:
diff --git a/hermespy/simulation/isolation/specific.py b/hermespy/simulation/isolation/specific.py
index 896db2e..45d4434 100644
--- a/hermespy/simulation/isolation/specific.py
+++ b/hermespy/simulation/isolation/specific.py
@@ -70,6 +70,7 @@ class SpecificIsolation(ScalarDimension, Isolation):
     ) -> None:
         if value is None:
             self.__isolation = None
+            self.__leakage_factors = None
             return
 
         if isinstance(value, (float, int)):
-- 
2.43.0


From b0accd3ddf5de2bd734290208cb42af4ebe8644c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:59 +0000
Subject: [PATCH 63/97] fix: logarithmic values of modified, sorted,
 amplitude-scaled and several sequences

---
 hermespy/core/logarithmic.py | 53 +++++++++++-------------------------
 1 file changed, 16 insertions(+), 37 deletions(-)

diff --git a/hermespy/core/logarithmic.py b/hermespy/core/logarithmic.py
index 5784f7f..f7cf07a 100644
--- a/hermespy/core/logarithmic.py
+++ b/hermespy/core/logarithmic.py
@@ -253,7 +253,6 @@ class Logarithmic(float):
 class LogarithmicSequence(np.ndarray[tuple[int], np.dtype[np.float64]]):
     """A sequence of logarithmic numbers."""
 
-    __values_db: list[float]
     __conversion: DbConversionType
 
     def __new__(
@@ -300,21 +299,9 @@ class LogarithmicSequence(np.ndarray[tuple[int], np.dtype[np.float64]]):
         if instance is None:
             return  # pragma: no cover
 
-        # Convert view
-        view = self.view(np.ndarray).flatten()
-
-        # Abort if a numpy boolean array is represented
-        # This is required to work around a strange bug in assert_array_almost_equal
-        if not issubclass(view.dtype.type, np.floating) or self.ndim < 1:
-            np.ndarray.__array_finalize__(self, instance)
-            return
-
         # Recover initialization attributes
-        conversion = getattr(instance, "conversion", DbConversionType.POWER)
-
-        # Configure class atributes
-        self.__conversion = conversion
-        self.__values_db = [lin2db(float(value), conversion) for value in view]
+        # The logarithmic values are always derived from the current linear values
+        self.__conversion = getattr(instance, "conversion", DbConversionType.POWER)
 
     @property
     def conversion(self) -> DbConversionType:
@@ -332,30 +319,22 @@ class LogarithmicSequence(np.ndarray[tuple[int], np.dtype[np.float64]]):
         Returns: list of logarithmics.
         """
 
-        return [
-            Logarithmic.From_Tuple(lin, log, self.conversion)
-            for lin, log in zip(self.view(np.ndarray), self.__values_db)
-        ]
+        values = self.view(np.ndarray).tolist()
 
-    @override
-    def __getitem__(self, i: SupportsIndex) -> Logarithmic | np.ndarray:  # type: ignore[override]
-        if isinstance(i, (int, np.integer)):
-            return Logarithmic.From_Tuple(
-                np.ndarray.__getitem__(self, i), self.__values_db[i], self.conversion
-            )
+        # Comparisons and multi-dimensional views don't represent logarithmic scalars
+        if self.ndim != 1 or not np.issubdtype(self.dtype, np.floating):
+            return values
 
-        return np.ndarray.__getitem__(self, i)
+        return [Logarithmic(value, ValueType.LIN, self.conversion) for value in values]
 
     @override
-    def __setitem__(self, i: SupportsIndex, item: Logarithmic | float | int) -> None:  # type: ignore[override]
-        # Convert non-logarithmic items to logarithmic
-        if isinstance(item, Logarithmic):
-            np.ndarray.__setitem__(self, i, float(item))
-            self.__values_db[i] = item.value_db
+    def __getitem__(self, i: SupportsIndex) -> Logarithmic | np.ndarray:  # type: ignore[override]
+        item = np.ndarray.__getitem__(self, i)
 
-        else:
-            np.ndarray.__setitem__(self, i, item)
-            self.__values_db[i] = lin2db(item, self.conversion)
+        if isinstance(item, np.floating) and isinstance(i, (int, np.integer)):
+            return Logarithmic(float(item), ValueType.LIN, self.conversion)
+
+        return item
 
     def __reduce__(
         self,
@@ -398,12 +377,12 @@ def dB(
     Returns: The logarithmic representation of `*values`.
     """
 
+    if len(values) > 1 and any(isinstance(value, Sequence) for value in values):
+        raise ValueError("Only a single argument may be a sequence")
+
     if isinstance(values[0], Sequence):
         return LogarithmicSequence(values[0], value_type=ValueType.DB, conversion=conversion)
 
-    if any(isinstance(value, Sequence) for value in values):
-        raise ValueError("Only the first argument may be a sequence")
-
     if len(values) == 1:
         return Logarithmic(values[0], value_type=ValueType.DB, conversion=conversion)
 
-- 
2.43.0


From c2a7fd9cb9725da143c1af131d77a221fb2905a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:05 +0000
Subject: [PATCH 64/97] fix: impacts, titles, scalar sample points and
 accessors of grid dimensions

---
 hermespy/core/pymonte/grid.py | 84 ++++++++++++++++++++++++-----------
 1 file changed, 59 insertions(+), 25 deletions(-)

diff --git a/hermespy/core/pymonte/grid.py b/hermespy/core/pymonte/grid.py
index dcabc0d..0dfee34 100644
--- a/hermespy/core/pymonte/grid.py
+++ b/hermespy/core/pymonte/grid.py
@@ -65,7 +65,7 @@ class RegisteredDimension(property):
             getattr(_property, "fget", None),
             getattr(_property, "fset", None),
             getattr(_property, "fdel", None),
-            getattr(_property, "doc", None),
+            getattr(_property, "__doc__", None),
         )
 
     def __call__(self, *args, **kwargs) -> None:
@@ -108,7 +108,7 @@ class RegisteredDimension(property):
         return self.__title
 
     def getter(self, fget: Callable[[object], object]) -> RegisteredDimension:
-        updated_property = property.getter(self, fget)
+        updated_property = property(fget, self.fset, self.fdel, self.__doc__)
         return RegisteredDimension(
             updated_property, self.first_impact, self.last_impact, self.title
         )
@@ -120,7 +120,7 @@ class RegisteredDimension(property):
         )
 
     def deleter(self, fdel: Callable[[object], None]) -> RegisteredDimension:
-        updated_property = property.deleter(self, fdel)
+        updated_property = property(self.fget, self.fset, fdel, self.__doc__)
         return RegisteredDimension(
             updated_property, self.first_impact, self.last_impact, self.title
         )
@@ -336,6 +336,9 @@ class GridDimension(GridDimensionInfo):
         self.__dimension = dimension
         self.__first_impact = None
         self.__last_impact = None
+        registered_impacts: set[tuple[str | None, str | None]] = set()
+        unknown_impact = False
+        default_title: str | None = None
 
         for considered_object in _considered_objects:
             # Make sure the dimension exists
@@ -361,32 +364,31 @@ class GridDimension(GridDimensionInfo):
                 first_impact = dimension_registration.first_impact
                 last_impact = dimension_registration.last_impact
 
-                if self.__first_impact and first_impact != self.__first_impact:
+                registered_impacts.add((first_impact, last_impact))
+                if len(registered_impacts) > 1:
                     raise ValueError(
                         "Diverging impacts on multi-object grid dimension initialization"
                     )
 
-                if self.__last_impact and last_impact != self.__last_impact:
-                    raise ValueError(
-                        "Diverging impacts on multi-object grid dimension initialization"
-                    )
-
-                self.__first_impact = first_impact
-                self.__last_impact = last_impact
-
                 # Updated the depicted title if the dimension offers an option and it wasn't exactly specified
-                if title is None and dimension_registration.title is not None:
-                    title = dimension_registration.title
+                if default_title is None and dimension_registration.title is not None:
+                    default_title = dimension_registration.title
+
+            # The impact of dimensions not registered is unknown
+            else:
+                unknown_impact = True
 
             self.__considered_objects += (considered_object,)
 
             # If the dimension value is a scalar dimension, we can directly use the lshift operator to configure
             # the object with the sample point values, given that the sample points are scalars as well
-            if isinstance(dimension_value, ScalarDimension) and np.all(
-                np.vectorize(np.isscalar)(sample_points)
+            if isinstance(dimension_value, ScalarDimension) and all(
+                np.isscalar(s.value if isinstance(s, SamplePoint) else s) for s in sample_points
             ):
-                self.__setter_lambdas += (dimension_value.__lshift__,)
-                title = dimension_value.title
+                self.__setter_lambdas += (
+                    self.__create_scalar_lambda(considered_object, dimension),
+                )
+                default_title = dimension_value.title
 
             # Otherwise, the dimension value is a regular attribute and we need to create a setter lambda
             else:
@@ -394,6 +396,13 @@ class GridDimension(GridDimensionInfo):
                     self.__create_setter_lambda(considered_object, dimension),
                 )
 
+        # Impacts are only known if all considered objects agree on them
+        if len(registered_impacts) == 1 and not unknown_impact:
+            self.__first_impact, self.__last_impact = registered_impacts.pop()
+
+        if title is None:
+            title = default_title
+
         # Initialize base class
         GridDimensionInfo.__init__(
             self,
@@ -467,18 +476,43 @@ class GridDimension(GridDimensionInfo):
         """
 
         stages = dimension.split(".")
-        object_reference = reduce(
-            lambda obj, attr: getattr(obj, attr), stages[:-1], considered_object
-        )
+
+        # The path is resolved upon configuration, since objects along it may have been replaced
+        def object_reference() -> object:
+            return reduce(lambda obj, attr: getattr(obj, attr), stages[:-1], considered_object)
 
         # Return a lambda to the function if the reference is callable
-        function_reference = getattr(object_reference, stages[-1])
-        if callable(function_reference):
-            return lambda args: function_reference(args)
+        if callable(getattr(object_reference(), stages[-1])):
+            return lambda args: getattr(object_reference(), stages[-1])(args)
 
         # Return a setting lambda if the reference is not callable
         # Implicitly we assume that every non-callable reference is an attribute
-        return lambda args: setattr(object_reference, stages[-1], args)
+        return lambda args: setattr(object_reference(), stages[-1], args)
+
+    @staticmethod
+    def __create_scalar_lambda(considered_object: object, dimension: str) -> Callable:
+        """Generate a configuration lambda callback for a scalar grid dimension.
+
+        Args:
+
+            considered_object:
+                The considered object root.
+
+            dimension:
+                String representation of dimension location relative to the considered object.
+
+        Returns: The configuration lambda.
+        """
+
+        stages = dimension.split(".")
+
+        def configure(scalar: float) -> None:
+            scalar_dimension: ScalarDimension = reduce(
+                lambda obj, attr: getattr(obj, attr), stages, considered_object
+            )
+            scalar_dimension << scalar
+
+        return configure
 
 
 class ScalarDimension(ABC):
-- 
2.43.0


From f08f5a3b2623bbb87ae04e192b934f81abf63f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:46 +0000
Subject: [PATCH 65/97] fix: memory amplifiers, custom amplifier validation,
 quadratic mean gain control and falling ramps

---
 hermespy/simulation/__init__.py           |  4 +
 hermespy/simulation/rf/__init__.py        |  4 +
 hermespy/simulation/rf/blocks/__init__.py |  4 +
 hermespy/simulation/rf/blocks/ad.py       |  3 +-
 hermespy/simulation/rf/blocks/amps.py     | 95 ++++++++++++++---------
 hermespy/simulation/rf/blocks/ramp.py     |  2 +-
 6 files changed, 75 insertions(+), 37 deletions(-)

diff --git a/hermespy/simulation/__init__.py b/hermespy/simulation/__init__.py
index 789f86d..20031e1 100644
--- a/hermespy/simulation/__init__.py
+++ b/hermespy/simulation/__init__.py
@@ -25,6 +25,8 @@ from .rf import (
     RappPowerAmplifier,
     ClippingPowerAmplifier,
     CustomPowerAmplifier,
+    MemoryPolynomialPowerAmplifier,
+    MemoryCTPolynomialPowerAmplifier,
     HPF,
     MixerType,
     IdealMixer,
@@ -123,6 +125,8 @@ __all__ = [
     "RappPowerAmplifier",
     "ClippingPowerAmplifier",
     "CustomPowerAmplifier",
+    "MemoryPolynomialPowerAmplifier",
+    "MemoryCTPolynomialPowerAmplifier",
     "HPF",
     "MixerType",
     "IdealMixer",
diff --git a/hermespy/simulation/rf/__init__.py b/hermespy/simulation/rf/__init__.py
index 2e34c25..4fc0fc0 100644
--- a/hermespy/simulation/rf/__init__.py
+++ b/hermespy/simulation/rf/__init__.py
@@ -12,6 +12,8 @@ from .blocks import (
     RappPowerAmplifier,
     ClippingPowerAmplifier,
     CustomPowerAmplifier,
+    MemoryPolynomialPowerAmplifier,
+    MemoryCTPolynomialPowerAmplifier,
     HPF,
     MixerType,
     IdealMixer,
@@ -63,6 +65,8 @@ __all__ = [
     "RappPowerAmplifier",
     "ClippingPowerAmplifier",
     "CustomPowerAmplifier",
+    "MemoryPolynomialPowerAmplifier",
+    "MemoryCTPolynomialPowerAmplifier",
     "HPF",
     "MixerType",
     "IdealMixer",
diff --git a/hermespy/simulation/rf/blocks/__init__.py b/hermespy/simulation/rf/blocks/__init__.py
index 347f9d8..75ddd07 100644
--- a/hermespy/simulation/rf/blocks/__init__.py
+++ b/hermespy/simulation/rf/blocks/__init__.py
@@ -7,6 +7,8 @@ from .amps import (
     RappPowerAmplifier,
     ClippingPowerAmplifier,
     CustomPowerAmplifier,
+    MemoryPolynomialPowerAmplifier,
+    MemoryCTPolynomialPowerAmplifier,
 )
 from .filters import HPF
 from .mixers import MixerType, IdealMixer, Mixer
@@ -39,6 +41,8 @@ __all__ = [
     "RappPowerAmplifier",
     "ClippingPowerAmplifier",
     "CustomPowerAmplifier",
+    "MemoryPolynomialPowerAmplifier",
+    "MemoryCTPolynomialPowerAmplifier",
     "HPF",
     "MixerType",
     "IdealMixer",
diff --git a/hermespy/simulation/rf/blocks/ad.py b/hermespy/simulation/rf/blocks/ad.py
index 303ddee..fefd9f5 100644
--- a/hermespy/simulation/rf/blocks/ad.py
+++ b/hermespy/simulation/rf/blocks/ad.py
@@ -341,8 +341,9 @@ class AutomaticGainControl(GainControlBase):
 
         elif self.agc_type == GainControlType.RMS_AMPLITUDE:
             max_amplitude = 0
+            samples = input_signal.view(np.ndarray).flatten()
             max_amplitude = max(
-                rms_value(np.real(input_signal)), rms_value(np.imag(input_signal)), max_amplitude
+                rms_value(np.real(samples)), rms_value(np.imag(samples)), max_amplitude
             )
 
         else:
diff --git a/hermespy/simulation/rf/blocks/amps.py b/hermespy/simulation/rf/blocks/amps.py
index 30d8da8..5ac5b1c 100644
--- a/hermespy/simulation/rf/blocks/amps.py
+++ b/hermespy/simulation/rf/blocks/amps.py
@@ -604,7 +604,7 @@ class CustomPowerAmplifier(PowerAmplifier):
         if phases.ndim != 1:
             raise ValueError("Custom power amplifier phase must be a vector")
 
-        if len(input) != len(gains) != len(phases):
+        if not len(input) == len(gains) == len(phases):
             raise ValueError(
                 "Custom power amplifier input, gain and phase vectors must be of identical length"
             )
@@ -731,28 +731,40 @@ class MemoryPolynomialPowerAmplifier(PowerAmplifier):
     def model(self, input_signal: RFSignal) -> RFSignal:
         memory_len = self.coeff_matrix.shape[0]
         degree_len = self.coeff_matrix.shape[1]
-        windows = np.lib.stride_tricks.sliding_window_view(
-            input_signal.view(np.ndarray), memory_len
-        )[:, ::-1]
         K_range = np.arange(degree_len)[:, None, None]
-        input_matrix = (
-            (windows[None] * np.abs(windows[None]) ** K_range)
-            .transpose(1, 0, 2)
-            .reshape(input_signal.size - memory_len + 1, -1)
-        )
-        output_samples = input_matrix @ self.coeff_matrix.ravel(order="F")
-        return RFSignal.FromNDArray(
-            output_samples, input_signal.sampling_rate, input_signal.carrier_frequency
-        )
+
+        output_signal = input_signal.copy()
+        for n, stream in enumerate(input_signal.view(np.ndarray)):
+            if stream.size < 1:
+                continue
+
+            # The amplifier's memory is initially empty
+            x = np.append(np.zeros(memory_len - 1, dtype=np.complex128), stream)
+            windows = np.lib.stride_tricks.sliding_window_view(x, memory_len)[:, ::-1]
+            input_matrix = (
+                (windows[None] * np.abs(windows[None]) ** K_range)
+                .transpose(1, 0, 2)
+                .reshape(stream.size, -1)
+            )
+            output_signal[n, :] = input_matrix @ self.coeff_matrix.ravel(order="F")
+
+        return output_signal
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
+        PowerAmplifier.serialize(self, process)
         process.serialize_array(self.coeff_matrix, "coeff_matrix")
 
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> MemoryPolynomialPowerAmplifier:
-        return cls(process.deserialize_array("coeff_matrix", np.complex128))  # type: ignore
+        return cls(
+            process.deserialize_array("coeff_matrix", np.complex128),  # type: ignore
+            gain=process.deserialize_floating("gain", cls._DEFAULT_GAIN),
+            noise_model=process.deserialize_object("noise_model", NoiseModel, None),
+            noise_level=process.deserialize_object("noise_level", NoiseLevel, None),
+            seed=process.deserialize_integer("seed", None),
+        )
 
 
 class MemoryCTPolynomialPowerAmplifier(PowerAmplifier):
@@ -833,32 +845,45 @@ class MemoryCTPolynomialPowerAmplifier(PowerAmplifier):
     def model(self, input_signal: RFSignal) -> RFSignal:
         memory_len = self.coeff_matrix.shape[0]
         degree_len = int((self.coeff_matrix.shape[1] - 1) / memory_len) + 1
-        x = input_signal.view(np.ndarray)[:, None]
-        xLen = x.shape[0]
-        num_samples = xLen - memory_len + 1
-        absPow = np.abs(x) ** np.arange(1, degree_len)
-        mem = np.arange(memory_len, 0, -1)[:, None]
-        offsets = np.arange(0, xLen * (degree_len - 1), xLen)
-        pow_idx = np.arange(num_samples)[:, None] + (mem + offsets).ravel(order="F")
-        pow_part = absPow.ravel(order="F")[pow_idx - 1]
-        topPlane = np.concatenate((np.ones((num_samples, 1)), pow_part), axis=1).T[None, :, :]
-        side_idx = np.arange(num_samples)[:, None] + np.arange(memory_len, 0, -1)
-        sidePlane = x.ravel()[side_idx - 1].T[:, None, :]
-        input_matrix = (
-            (sidePlane * topPlane)
-            .reshape((memory_len * (memory_len * (degree_len - 1) + 1), num_samples), order="F")
-            .T
-        )
-        output_samples = input_matrix @ self.coeff_matrix.ravel(order="F")
-        return RFSignal.FromNDArray(
-            output_samples, input_signal.sampling_rate, input_signal.carrier_frequency
-        )
+
+        output_signal = input_signal.copy()
+        for n, stream in enumerate(input_signal.view(np.ndarray)):
+            if stream.size < 1:
+                continue
+
+            # The amplifier's memory is initially empty
+            x = np.append(np.zeros(memory_len - 1, dtype=np.complex128), stream)[:, None]
+            xLen = x.shape[0]
+            num_samples = xLen - memory_len + 1
+            absPow = np.abs(x) ** np.arange(1, degree_len)
+            mem = np.arange(memory_len, 0, -1)[:, None]
+            offsets = np.arange(0, xLen * (degree_len - 1), xLen)
+            pow_idx = np.arange(num_samples)[:, None] + (mem + offsets).ravel(order="F")
+            pow_part = absPow.ravel(order="F")[pow_idx - 1]
+            topPlane = np.concatenate((np.ones((num_samples, 1)), pow_part), axis=1).T[None, :, :]
+            side_idx = np.arange(num_samples)[:, None] + np.arange(memory_len, 0, -1)
+            sidePlane = x.ravel()[side_idx - 1].T[:, None, :]
+            input_matrix = (
+                (sidePlane * topPlane)
+                .reshape((memory_len * (memory_len * (degree_len - 1) + 1), num_samples), order="F")
+                .T
+            )
+            output_signal[n, :] = input_matrix @ self.coeff_matrix.ravel(order="F")
+
+        return output_signal
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
+        PowerAmplifier.serialize(self, process)
         process.serialize_array(self.coeff_matrix, "coeff_matrix")
 
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> MemoryCTPolynomialPowerAmplifier:
-        return cls(process.deserialize_array("coeff_matrix", np.complex128))  # type: ignore
+        return cls(
+            process.deserialize_array("coeff_matrix", np.complex128),  # type: ignore
+            gain=process.deserialize_floating("gain", cls._DEFAULT_GAIN),
+            noise_model=process.deserialize_object("noise_model", NoiseModel, None),
+            noise_level=process.deserialize_object("noise_level", NoiseLevel, None),
+            seed=process.deserialize_integer("seed", None),
+        )
diff --git a/hermespy/simulation/rf/blocks/ramp.py b/hermespy/simulation/rf/blocks/ramp.py
index 76bd4c2..c5033d0 100644
--- a/hermespy/simulation/rf/blocks/ramp.py
+++ b/hermespy/simulation/rf/blocks/ramp.py
@@ -166,7 +166,7 @@ class RampGenerator(RFBlock):
         """
 
         num_guarded_chirp_samples = int(chirp_interval * sampling_rate)
-        chirp_duration = bandwidth / slope
+        chirp_duration = bandwidth / abs(slope)
         num_chirp_samples = min(num_guarded_chirp_samples, int(chirp_duration * sampling_rate))
 
         chirp_samples = np.zeros(num_guarded_chirp_samples, dtype=np.complex128)
-- 
2.43.0


From d6123d2cd517536c5156cb358abdb14b6e98146a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:06 +0000
Subject: [PATCH 66/97] fix: carriers of converted signals and amplifiers
 estimated from measurements

---
 hermespy/simulation/rf/blocks/ad.py   | 2 +-
 hermespy/simulation/rf/blocks/amps.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hermespy/simulation/rf/blocks/ad.py b/hermespy/simulation/rf/blocks/ad.py
index fefd9f5..1a50f90 100644
--- a/hermespy/simulation/rf/blocks/ad.py
+++ b/hermespy/simulation/rf/blocks/ad.py
@@ -555,7 +555,7 @@ class ADC(ConverterBase, DSPOutputBlock):
             frame_signal = input[:, f * num_frame_samples : (f + 1) * num_frame_samples]
             converted_frame_signal = self.__convert_frame(frame_signal)
             converted_signal[:, f * num_frame_samples : (f + 1) * num_frame_samples] = (
-                converted_frame_signal
+                converted_frame_signal.view(np.ndarray)
             )
 
         return converted_signal
diff --git a/hermespy/simulation/rf/blocks/amps.py b/hermespy/simulation/rf/blocks/amps.py
index 5ac5b1c..d125dca 100644
--- a/hermespy/simulation/rf/blocks/amps.py
+++ b/hermespy/simulation/rf/blocks/amps.py
@@ -723,7 +723,7 @@ class MemoryPolynomialPowerAmplifier(PowerAmplifier):
             .reshape(len(input_samples) - memory_len + 1, -1)
         )
         y_trimmed = output_samples[memory_len - 1 :]
-        coeffs_vector: np.ndarray = lstsq(features, y_trimmed, cond=-1)[0]
+        coeffs_vector: np.ndarray = lstsq(features, y_trimmed)[0]
         coeffs = coeffs_vector.reshape(memory_len, degree_len, order="F")
         return MemoryPolynomialPowerAmplifier(coeffs)
 
@@ -837,7 +837,7 @@ class MemoryCTPolynomialPowerAmplifier(PowerAmplifier):
             .T
         )
         y_trimmed = output_samples[memory_len - 1 :]
-        coeffs_vector: np.ndarray = lstsq(features, y_trimmed, cond=-1)[0]
+        coeffs_vector: np.ndarray = lstsq(features, y_trimmed)[0]
         coeffs = coeffs_vector.reshape(memory_len, (memory_len * (degree_len - 1) + 1), order="F")
         return MemoryCTPolynomialPowerAmplifier(coeff_matrix=coeffs)
 
-- 
2.43.0


From 3ab7d6a856df5504e5ac25a1676bd741084ce341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:33 +0000
Subject: [PATCH 67/97] fix: beams of rotated arrays, null steering towards the
 focus and sidelobes of receiving arrays

---
 hermespy/beamforming/conventional.py          | 12 ++------
 .../beamforming/nullsteeringbeamformer.py     | 30 +++++++++++--------
 hermespy/simulation/beamforming.py            |  4 ++-
 hermespy/simulation/evaluators/beamforming.py |  5 ++++
 4 files changed, 28 insertions(+), 23 deletions(-)

diff --git a/hermespy/beamforming/conventional.py b/hermespy/beamforming/conventional.py
index f462807..4fc698c 100644
--- a/hermespy/beamforming/conventional.py
+++ b/hermespy/beamforming/conventional.py
@@ -76,11 +76,8 @@ class ConventionalBeamformer(TransmitBeamformer, ReceiveBeamformer):
             with the first dimension being the number of angles and the second dimension the number of antennas.
         """
 
-        # Query topology of receiving antenna ports
-        topology = (
-            np.array([p.global_position for p in array.receive_antennas], dtype=np.float64)
-            - array.global_position
-        )
+        # Query topology of receiving antenna ports within the array's local coordinate system
+        topology = array.receive_topology
 
         # Build receive beamforming codebook of steering vectors for each angle of interest
         book = np.empty((angles.shape[0], array.num_receive_antennas), dtype=complex)
@@ -102,10 +99,7 @@ class ConventionalBeamformer(TransmitBeamformer, ReceiveBeamformer):
         azimuth, zenith = focus_angles[0, :]
 
         # Compute conventional beamformer weights
-        topology = (
-            np.array([p.global_position for p in array.transmit_antennas], dtype=np.float64)
-            - array.global_position
-        )
+        topology = array.transmit_topology
         direction = Direction.From_Spherical(azimuth, zenith)
         # Conventional steering vector
         weights = np.exp(-2j * pi * carrier_frequency / speed_of_light * (topology @ direction))
diff --git a/hermespy/beamforming/nullsteeringbeamformer.py b/hermespy/beamforming/nullsteeringbeamformer.py
index 22e1260..b5fea26 100644
--- a/hermespy/beamforming/nullsteeringbeamformer.py
+++ b/hermespy/beamforming/nullsteeringbeamformer.py
@@ -7,7 +7,12 @@ import numpy as np
 from scipy.linalg import pinvh
 
 from hermespy.beamforming import TransmitBeamformer, ReceiveBeamformer
-from hermespy.core import AntennaArrayState, DeserializationProcess, SerializationProcess
+from hermespy.core import (
+    AntennaArrayState,
+    AntennaMode,
+    DeserializationProcess,
+    SerializationProcess,
+)
 
 __author__ = "Alan Thomas"
 __copyright__ = "Copyright 2026, Barkhausen Institut gGmbH"
@@ -49,23 +54,22 @@ class NullSteeringBeamformer(TransmitBeamformer, ReceiveBeamformer):
 
     # calculate the null steering beamformer weights
     def _weights(
-        self, carrier_frequency: float, focus_angles: np.ndarray, array: AntennaArrayState
+        self,
+        carrier_frequency: float,
+        focus_angles: np.ndarray,
+        array: AntennaArrayState,
+        mode: AntennaMode,
     ) -> np.ndarray:
 
-        a0 = array.spherical_phase_response(
-            carrier_frequency, focus_angles[0, 0], focus_angles[0, 1]
-        )
-        a1 = array.spherical_phase_response(
-            carrier_frequency, focus_angles[1, 0], focus_angles[1, 1]
-        )
-        a2 = array.spherical_phase_response(
-            carrier_frequency, focus_angles[2, 0], focus_angles[2, 1]
+        a0, a1, a2 = (
+            array.spherical_phase_response(carrier_frequency, azimuth, zenith, mode)
+            for azimuth, zenith in focus_angles
         )
 
         A = np.array([a1, a2]).T
         PA = A.conj() @ pinvh(A.T @ A.conj(), check_finite=False) @ A.T
         Identity_Matrix = np.eye(PA.shape[0])
-        wns = (Identity_Matrix - PA) @ a0
+        wns = (Identity_Matrix - PA) @ a0.conj()
         wns /= np.linalg.norm(wns)
         return wns
 
@@ -78,7 +82,7 @@ class NullSteeringBeamformer(TransmitBeamformer, ReceiveBeamformer):
     ) -> np.ndarray:
 
         # Compute nullsteering beamformer weights
-        weights = self._weights(carrier_frequency, focus_angles, array)
+        weights = self._weights(carrier_frequency, focus_angles, array, AntennaMode.TX)
         # Weight the streams accordingly
         samples = weights[:, np.newaxis] @ samples
 
@@ -95,7 +99,7 @@ class NullSteeringBeamformer(TransmitBeamformer, ReceiveBeamformer):
         # Query the sensor array response vectors for the angles of interest and create a dictionary from it which contains the beamforming weights
         dictionary = np.empty((array.num_receive_antennas, angles.shape[0]), dtype=complex)
         for d, focus in enumerate(angles):
-            dictionary[:, d] = self._weights(carrier_frequency, focus, array)
+            dictionary[:, d] = self._weights(carrier_frequency, focus, array, AntennaMode.RX)
 
         beamformed_samples = dictionary.T @ samples
         return beamformed_samples[:, np.newaxis, :]
diff --git a/hermespy/simulation/beamforming.py b/hermespy/simulation/beamforming.py
index 0654a00..cdca7a3 100644
--- a/hermespy/simulation/beamforming.py
+++ b/hermespy/simulation/beamforming.py
@@ -55,8 +55,10 @@ class DeviceFocus(BeamFocus):
         transmitter_position = device.position
         receiver_position = self.focused_device.trajectory.sample(device.timestamp).pose.translation
 
+        # Beamformers expect the angles from the focusing antenna array's point of view
         direction = Direction.From_Cartesian(receiver_position - transmitter_position, True)
-        return direction.to_spherical()
+        local_direction = device.antennas.backwards_transformation.transform_direction(direction)
+        return local_direction.to_spherical()
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
diff --git a/hermespy/simulation/evaluators/beamforming.py b/hermespy/simulation/evaluators/beamforming.py
index 47c3e61..addc56b 100644
--- a/hermespy/simulation/evaluators/beamforming.py
+++ b/hermespy/simulation/evaluators/beamforming.py
@@ -229,6 +229,11 @@ class SidelobeEvaluator(Evaluator, Serializable):
 
         weights = np.concatenate([focus_beamformer, self.__codebook], axis=0)
 
+        # Focusing a receiving array requires weights matched to the array's phase response,
+        # while the signals radiated by a transmitting array superimpose according to the response
+        if self.mode is AntennaMode.RX:
+            weights = weights.conj()
+
         beamformed_energy = np.zeros(weights.shape[0], dtype=np.float64)
         signal_energy: float = 0.0
         for block in samples.blocks:
-- 
2.43.0


From 3c8f05243681479e5aefe2368004cca88a74f8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:42 +0000
Subject: [PATCH 68/97] fix: offsets of beamformed signal blocks and of signals
 created from several arrays

---
 hermespy/beamforming/beamformer.py | 32 +++++++++++++++++-------------
 hermespy/core/signal_model.py      | 22 ++++++++++++++++++--
 2 files changed, 38 insertions(+), 16 deletions(-)

diff --git a/hermespy/beamforming/beamformer.py b/hermespy/beamforming/beamformer.py
index 0af6f71..dde190a 100644
--- a/hermespy/beamforming/beamformer.py
+++ b/hermespy/beamforming/beamformer.py
@@ -330,18 +330,20 @@ class TransmitBeamformer(TransmitStreamEncoder):
         focus_angles = np.array(
             [focus.spherical_angles(device) for focus in _focus], dtype=np.float64
         )
+        encoded_blocks: list[SignalBlock] = []
+        for block in streams.blocks:
+            encoded_block = self._encode(
+                block.view(np.ndarray), device.carrier_frequency, focus_angles, device.antennas
+            ).view(SignalBlock)
+            encoded_block.offset = block.offset
+            encoded_blocks.append(encoded_block)
+
         return Signal.Create(
-            [
-                self._encode(
-                    block.view(np.ndarray), device.carrier_frequency, focus_angles, device.antennas
-                ).view(SignalBlock)
-                for block in streams.blocks
-            ],
+            encoded_blocks,
             streams.sampling_rate,
             streams.carrier_frequency,
             streams.noise_power,
             streams.delay,
-            streams.block_offsets,
         )
 
     @abstractmethod
@@ -580,18 +582,20 @@ class ReceiveBeamformer(ReceiveStreamDecoder):
         focus_angles = np.array(
             [[focus.spherical_angles(device) for focus in _focus]], dtype=np.float64
         )
+        decoded_blocks: list[SignalBlock] = []
+        for block in streams.blocks:
+            decoded_block = self._decode(
+                block.view(np.ndarray), device.carrier_frequency, focus_angles, device.antennas
+            )[0, ::].view(SignalBlock)
+            decoded_block.offset = block.offset
+            decoded_blocks.append(decoded_block)
+
         return Signal.Create(
-            [
-                self._decode(
-                    block.view(np.ndarray), device.carrier_frequency, focus_angles, device.antennas
-                )[0, ::].view(SignalBlock)
-                for block in streams.blocks
-            ],
+            decoded_blocks,
             streams.sampling_rate,
             streams.carrier_frequency,
             streams.noise_power,
             streams.delay,
-            streams.block_offsets,
         )
 
     def probe(
diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index b9b700e..ae45fd0 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -898,7 +898,18 @@ class Signal(ABC, Iterable, Serializable):
         if isinstance(samples, Sequence) and (
             len(samples) != 1 or getattr(samples[0], "offset", 0) > 0
         ):
-            return SparseSignal(samples, sampling_rate, carrier_frequency, noise_power, delay)
+            blocks: list[SignalBlock] = list(samples)
+            if offsets is not None:
+                if len(offsets) != len(blocks):
+                    raise ValueError(
+                        f"Number of offsets does not match the number of sample blocks ({len(offsets)} != {len(blocks)})"
+                    )
+                for b, (block, offset) in enumerate(zip(blocks, offsets)):
+                    if not isinstance(block, SignalBlock):
+                        blocks[b] = np.array(block, dtype=np.complex128, ndmin=2).view(SignalBlock)
+                        blocks[b].offset = offset
+
+            return SparseSignal(blocks, sampling_rate, carrier_frequency, noise_power, delay)
 
         dense_delay = delay
         dense_delay += offsets[0] / sampling_rate if offsets and len(offsets) > 0 else 0.0
@@ -1708,7 +1719,14 @@ class SparseSignal(Signal):
         if isinstance(samples, np.ndarray):
             self.__blocks = self.__from_dense(samples, 0)
         else:
-            self.__blocks = list(samples)
+            # Plain arrays are concatenated sequentially
+            next_offset = 0
+            for block in samples:
+                if not isinstance(block, SignalBlock):
+                    block = np.array(block, dtype=np.complex128, ndmin=2).view(SignalBlock)
+                    block.offset = next_offset
+                self.__blocks.append(block)
+                next_offset = block.offset + block.shape[1]
 
     @override
     def __mul__(self, value: complex) -> SparseSignal:
-- 
2.43.0


From f84b36d407c88275857e98fedd24d93b6abea9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:57 +0000
Subject: [PATCH 69/97] fix: directions of points found by the maximum detector

---
 hermespy/radar/detection.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hermespy/radar/detection.py b/hermespy/radar/detection.py
index 128c90c..6592901 100644
--- a/hermespy/radar/detection.py
+++ b/hermespy/radar/detection.py
@@ -441,15 +441,13 @@ class MaxDetector(RadarDetector, Serializable):
         if point_power <= 0.0:
             return RadarPointCloud(cube.range_bins.max())
 
-        angles_of_arrival = cube.angle_bins[point_index[0], :]
+        azimuth, zenith = cube.angle_bins[point_index[0], :]
         velocity = cube.velocity_bins[point_index[1]]
         range = cube.range_bins[point_index[2]]
 
         cloud = RadarPointCloud(cube.range_bins.max())
         cloud.add_point(
-            PointDetection.FromSpherical(
-                angles_of_arrival[0], angles_of_arrival[1], range, velocity, point_power
-            )
+            PointDetection.FromSpherical(zenith, azimuth, range, velocity, point_power)
         )
 
         return cloud
-- 
2.43.0


From 96c5dc9eafe932014e67df7dfa051b66c2f5b7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:20 +0000
Subject: [PATCH 70/97] fix: range and Doppler bins and sample counts of FMCW
 radars

---
 hermespy/radar/fmcw.py | 42 ++++++++++++++++++------------------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/hermespy/radar/fmcw.py b/hermespy/radar/fmcw.py
index 4a26a44..6b57b17 100644
--- a/hermespy/radar/fmcw.py
+++ b/hermespy/radar/fmcw.py
@@ -6,7 +6,7 @@ from typing_extensions import override
 
 import numpy as np
 from scipy.constants import speed_of_light, pi
-from scipy.fft import fft2, ifftshift
+from scipy.fft import fft2, fftshift
 from scipy.signal import decimate, resample_poly
 
 from hermespy.core import ReceiveState, Signal, SerializationProcess, TransmitState
@@ -96,7 +96,7 @@ class FMCW(RadarWaveform):
 
     @override
     def estimate(self, signal: Signal, state: ReceiveState) -> np.ndarray:
-        num_pulse_samples = int(self.pulse_rep_interval * state.sampling_rate)
+        num_pulse_samples = self.__num_pulse_samples(state.bandwidth, state.oversampling_factor)
         num_frame_samples = self.num_chirps * num_pulse_samples
 
         input_samples = (
@@ -122,17 +122,15 @@ class FMCW(RadarWaveform):
             baseband_samples = resample_poly(
                 baseband_samples, downsampling_rate.numerator, downsampling_rate.denominator, axis=1
             )
-            _adc_bandwidth = self.adc_sampling_rate
         else:
             baseband_samples = decimate(
                 baseband_samples, state.oversampling_factor, axis=1, zero_phase=False
             )
-            _adc_bandwidth = state.bandwidth
 
-        num_bins = int(self.max_range(_adc_bandwidth) / self.range_resolution(state.bandwidth))
+        num_bins = len(self.range_bins(state.bandwidth))
         transform = fft2(baseband_samples, (baseband_samples.shape[0], num_bins))
         # fft shift the Doppler components
-        transform = ifftshift(transform, axes=0)
+        transform = fftshift(transform, axes=0)
 
         return np.abs(transform) ** 2
 
@@ -164,9 +162,8 @@ class FMCW(RadarWaveform):
     @override
     def relative_doppler_bins(self) -> np.ndarray:
         return (
-            np.arange(self.num_chirps) * self.relative_doppler_resolution
-            - self.max_relative_doppler
-        )
+            np.arange(self.num_chirps) - self.num_chirps // 2
+        ) * self.relative_doppler_resolution
 
     @override
     def frame_duration(self, bandwidth: float) -> float:
@@ -174,19 +171,14 @@ class FMCW(RadarWaveform):
 
     @override
     def samples_per_frame(self, bandwidth: float, oversampling_factor: int) -> int:
-        return int(self.frame_duration(bandwidth) * bandwidth * oversampling_factor)
+        return self.num_chirps * self.__num_pulse_samples(bandwidth, oversampling_factor)
 
     @override
     def range_bins(self, bandwidth: float) -> np.ndarray:
-        # The actual bandwidth may be limited by the ADC assumptions
-        adc_bandwidth = (
-            bandwidth
-            if self.adc_sampling_rate <= FMCW.__DERIVE_SAMPLING_RATE
-            else self.adc_sampling_rate
-        )
-        max_range = self.max_range(adc_bandwidth)
+        # The maximum range may be limited by the ADC assumptions
+        max_range = self.max_range(bandwidth)
         num_bins = int(max_range / self.range_resolution(bandwidth))
-        return np.linspace(0, max_range, num_bins)
+        return np.linspace(0, max_range, num_bins, endpoint=False)
 
     @property
     def num_chirps(self) -> int:
@@ -279,6 +271,11 @@ class FMCW(RadarWaveform):
     def power(self) -> float:
         return 1.0
 
+    def __num_pulse_samples(self, bandwidth: float, oversampling_factor: int) -> int:
+        """Number of samples within a single pulse repetition interval."""
+
+        return int(self.pulse_rep_interval * bandwidth * oversampling_factor)
+
     def __chirp_prototype(self, bandwidth: float, oversampling_factor: int) -> np.ndarray:
         """Prototype function to generate a single chirp.
 
@@ -310,18 +307,15 @@ class FMCW(RadarWaveform):
             RuntimeError: If the pulse repetition interval is smaller than the chirp duration.
         """
 
-        num_zero_samples = int(
-            (self.pulse_rep_interval - self.chirp_duration) * bandwidth * oversampling_factor
-        )
+        chirp = self.__chirp_prototype(bandwidth, oversampling_factor)
+        num_zero_samples = self.__num_pulse_samples(bandwidth, oversampling_factor) - len(chirp)
 
         if num_zero_samples < 0:
             raise RuntimeError(
                 "Pulse repetition interval cannot be less than chirp duration in FMCW radar"
             )
 
-        pulse = np.concatenate(
-            (self.__chirp_prototype(bandwidth, oversampling_factor), np.zeros(num_zero_samples))
-        )
+        pulse = np.concatenate((chirp, np.zeros(num_zero_samples)))
         return pulse
 
     def __frame_prototype(self, bandwidth: float, oversampling_factor: int) -> np.ndarray:
-- 
2.43.0


From cc22041109b98cd734869d568f998a9dd2d88d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:21 +0000
Subject: [PATCH 71/97] fix: radar cubes of single antennas with several probed
 angles

---
 hermespy/radar/radar.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hermespy/radar/radar.py b/hermespy/radar/radar.py
index e495aa5..088f9ad 100644
--- a/hermespy/radar/radar.py
+++ b/hermespy/radar/radar.py
@@ -482,6 +482,10 @@ class RadarBase(Generic[RTT, RRT], Transmitter[RTT], Receiver[RRT]):
             else self.receive_beamformer.probe_focus_points[:, 0, :]
         )
 
+        # A single stream can't be beamformed, it is identical for all angles of interest
+        if signal.num_streams < 2 and len(angles_of_interest) > 1:
+            beamformed_samples = np.repeat(beamformed_samples, len(angles_of_interest), axis=0)
+
         return angles_of_interest, beamformed_samples
 
     @override
-- 
2.43.0


From 68e12feca99e456a03eccba56b9f5246533289f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:39 +0000
Subject: [PATCH 72/97] fix: angles, Doppler bins and minimal ranges of joint
 communication and sensing cubes

---
 hermespy/jcas/matched_filtering.py | 27 +++++++++++++++++----------
 hermespy/jcas/ofdm_radar.py        | 17 +++++++++--------
 2 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/hermespy/jcas/matched_filtering.py b/hermespy/jcas/matched_filtering.py
index 4d245ec..bcab73a 100644
--- a/hermespy/jcas/matched_filtering.py
+++ b/hermespy/jcas/matched_filtering.py
@@ -180,19 +180,23 @@ class MatchedFilterJcas(
                 dtype=np.complex128,
             )
             for t, angle in enumerate(angle_bins):
-                phase_response = state.antennas.horizontal_phase_response(
-                    self.__last_transmission.signal.carrier_frequency,
+                phase_response = state.antennas.spherical_phase_response(
+                    state.carrier_frequency,
                     angle[0],
                     angle[1],
                     AntennaMode.TX,
                 )
                 transmitted_samples[t, :] = (
-                    phase_response.conj() @ self.__last_transmission.signal.view(np.ndarray)
+                    phase_response @ self.__last_transmission.signal.view(np.ndarray)
                 )
 
         # For a single transmit antenna, this is not required
         else:
-            transmitted_samples = self.__last_transmission.signal.view(np.ndarray)[[0], :]
+            transmitted_samples = np.repeat(
+                self.__last_transmission.signal.view(np.ndarray)[[0], :],
+                angle_bins.shape[0],
+                axis=0,
+            )
 
         doppler_bins = (
             state.carrier_frequency
@@ -218,11 +222,14 @@ class MatchedFilterJcas(
                 / state.sampling_rate
             )
 
-            cube_data[:, d, :] = abs(
-                correlate(beamformed_samples, doppler_shifted_samples, mode="valid", method="fft")[
-                    :, :num_propagated_samples
-                ]
-            )
+            for a, (received_line, transmitted_line) in enumerate(
+                zip(beamformed_samples, doppler_shifted_samples)
+            ):
+                cube_data[a, d, :] = abs(
+                    correlate(received_line, transmitted_line, mode="valid", method="fft")[
+                        :num_propagated_samples
+                    ]
+                )
 
         # Normalize and convert to power
         cube_data = cube_data**2 / self.__last_transmission.signal.num_samples
@@ -232,7 +239,7 @@ class MatchedFilterJcas(
         )
 
         # Filter range for the minimum range
-        min_range_bin = ceil(2 * self.min_range / resolution)
+        min_range_bin = ceil(self.min_range / resolution)
 
         # Create the cube object
         range_bins = lags[min_range_bin:num_propagated_samples] * resolution
diff --git a/hermespy/jcas/ofdm_radar.py b/hermespy/jcas/ofdm_radar.py
index 850006a..5f781ad 100644
--- a/hermespy/jcas/ofdm_radar.py
+++ b/hermespy/jcas/ofdm_radar.py
@@ -7,7 +7,7 @@ from typing_extensions import override
 
 import numpy as np
 from scipy.constants import speed_of_light
-from scipy.fft import ifft, fft, ifftshift
+from scipy.fft import ifft, fft, fftshift
 
 from hermespy.beamforming import ReceiveBeamformer
 from hermespy.core import (
@@ -149,8 +149,8 @@ class OFDMRadar(DuplexJCASOperator[OFDMWaveform], Serializable):
             Maximum relative doppler shift in Hz.
         """
 
-        # The maximum velocity is the wavelength divided by four times the pulse repetition interval
-        max_doppler = 1 / (4 * self.frame_duration(bandwidth))
+        # The maximum velocity is the wavelength divided by four times the OFDM symbol interval
+        max_doppler = self.waveform.words_per_frame / (4 * self.frame_duration(bandwidth))
         return max_doppler
 
     def relative_doppler_resolution(self, bandwidth: float) -> float:
@@ -215,7 +215,7 @@ class OFDMRadar(DuplexJCASOperator[OFDMWaveform], Serializable):
         )
 
         # Estimate range-power profile by equation (10)
-        power_profile = ifftshift(fft(ifft(normalized_symbols[0, ::], axis=1), axis=0), axes=0)
+        power_profile = fftshift(fft(ifft(normalized_symbols[0, ::], axis=1), axis=0), axes=0)
         return np.abs(power_profile)
 
     @override
@@ -234,9 +234,10 @@ class OFDMRadar(DuplexJCASOperator[OFDMWaveform], Serializable):
         range_bins = np.arange(self.waveform.num_subcarriers) * self.range_resolution(
             device.bandwidth
         )
-        doppler_bins = np.arange(self.waveform.words_per_frame) * self.relative_doppler_resolution(
-            device.bandwidth
-        ) - self.max_relative_doppler(device.bandwidth)
+        num_doppler_bins = self.waveform.words_per_frame
+        doppler_bins = (
+            np.arange(num_doppler_bins) - num_doppler_bins // 2
+        ) * self.relative_doppler_resolution(device.bandwidth)
 
         # Filter range for the minimum range
         min_range_index = ceil(self.min_range / self.range_resolution(device.bandwidth))
@@ -251,7 +252,7 @@ class OFDMRadar(DuplexJCASOperator[OFDMWaveform], Serializable):
             line_estimate = self.__estimate_range(
                 transmitted_symbols, line, device.bandwidth, device.oversampling_factor
             )
-            cube_data[angle_idx, ::] = line_estimate[min_range_index:]
+            cube_data[angle_idx, ::] = line_estimate[:, min_range_index:]
 
         # Create radar cube object
         cube = RadarCube(
-- 
2.43.0


From 0378b6c69d606aa00980a4d73b9c7f80cff29505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:46 +0000
Subject: [PATCH 73/97] fix: callbacks adding or removing hooks while being
 notified

---
 hermespy/core/hooks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hermespy/core/hooks.py b/hermespy/core/hooks.py
index 8002b5b..6072721 100644
--- a/hermespy/core/hooks.py
+++ b/hermespy/core/hooks.py
@@ -116,5 +116,6 @@ class Hookable(Generic[_RT]):
                 Output of the DSP layer.
         """
 
-        for hook in self.__hooks:
+        # Callbacks may add or remove hooks while being notified
+        for hook in tuple(self.__hooks):
             hook(output)
-- 
2.43.0


From f1eeda6b1eac0a9b29671a7dba6241eba23f8e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:02 +0000
Subject: [PATCH 74/97] fix: number and timestamps of communication frames

---
 hermespy/modem/modem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hermespy/modem/modem.py b/hermespy/modem/modem.py
index cf68f23..14bf8a7 100644
--- a/hermespy/modem/modem.py
+++ b/hermespy/modem/modem.py
@@ -801,7 +801,8 @@ class TransmittingModemBase(Generic[CWT], BaseModem[CWT]):
             duration = frame_duration
 
         # Compute the number of frames to be transmitted within the given duration
-        num_mimo_frames = int(duration / frame_duration)
+        # Durations being multiples of the frame duration only up to rounding count as such
+        num_mimo_frames = int(duration / frame_duration * (1 + 1e-12))
 
         # Compute the number of parallel symbol streams required to transmit over the given coding config
         num_input_signal_streams = self.transmit_signal_coding.num_transmit_input_streams(
@@ -1252,7 +1253,7 @@ class ReceivingModemBase(Generic[CWT], BaseModem[CWT]):
                     decoded_signal=frame_signal,
                     symbols=symbols,
                     decoded_symbols=decoded_symbols,
-                    timestamp=frame_index * signal.sampling_rate,
+                    timestamp=frame_index / signal.sampling_rate,
                     equalized_symbols=equalized_symbols,
                     encoded_bits=encoded_bits,
                     code_block_size=self.encoder_manager.code_block_size,
-- 
2.43.0


From ce5244eb3dabdda437106fd8824d2eefe2ae5f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:02 +0000
Subject: [PATCH 75/97] fix: packets keep the header fields and layers they
 were configured with

---
 hermespy/modem/frame_generator/scapy.py | 4 ++--
 hermespy/modem/modem.py                 | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hermespy/modem/frame_generator/scapy.py b/hermespy/modem/frame_generator/scapy.py
index 1c66272..9fbf3e3 100644
--- a/hermespy/modem/frame_generator/scapy.py
+++ b/hermespy/modem/frame_generator/scapy.py
@@ -54,9 +54,9 @@ class FrameGeneratorScapy(FrameGenerator):
             raise ValueError(
                 f"Packet header is bigger then the requested amount of bits ({len(self.packet)*8} > {num_bits})."
             )
-        packet_new = self.packet_type()
+        packet_new = self.packet.copy()
         packet_new.add_payload(np.packbits(source.generate_bits(payload_num_bits)).tobytes())
-        return np.unpackbits(np.frombuffer(raw(packet_new), np.uint8))
+        return np.unpackbits(np.frombuffer(raw(packet_new), np.uint8))[:num_bits]
 
     def unpack_frame(self, frame: np.ndarray) -> np.ndarray:
         if frame.size < self.packet_num_bits:
diff --git a/hermespy/modem/modem.py b/hermespy/modem/modem.py
index 14bf8a7..ba5b6be 100644
--- a/hermespy/modem/modem.py
+++ b/hermespy/modem/modem.py
@@ -869,7 +869,7 @@ class TransmittingModemBase(Generic[CWT], BaseModem[CWT]):
             frames.append(
                 CommunicationTransmissionFrame(
                     signal=encoded_frame_signal,
-                    bits=frame_bits,
+                    bits=self.frame_generator.unpack_frame(frame_bits),
                     bit_block_size=self.encoder_manager.bit_block_size,
                     encoded_bits=encoded_bits,
                     code_block_size=self.encoder_manager.code_block_size,
-- 
2.43.0


From 3b229a33ed1aefba3fd545aa19a03fc841a3c935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:02 +0000
Subject: [PATCH 76/97] fix: number of bits received with more antennas than
 transmitted streams

---
 hermespy/modem/modem.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/hermespy/modem/modem.py b/hermespy/modem/modem.py
index ba5b6be..fa5a7a9 100644
--- a/hermespy/modem/modem.py
+++ b/hermespy/modem/modem.py
@@ -1206,16 +1206,6 @@ class ReceivingModemBase(Generic[CWT], BaseModem[CWT]):
             reception = CommunicationReception(signal)
             return reception
 
-        # Compute the bit generation requirements
-        # Compute the number of serial data bits required to generate a single frame over the given precoding config
-        required_num_data_symbols = int(
-            self.waveform.num_data_symbols * self.receive_symbol_coding.decode_rate
-        )
-        required_num_code_bits = self.waveform.bits_per_frame(
-            required_num_data_symbols
-        ) * self.receive_symbol_coding.num_receive_output_streams(decoded_signal.num_streams)
-        required_num_data_bits = self.encoder_manager.required_num_data_bits(required_num_code_bits)
-
         # Process each frame independently
         frames: List[CommunicationReceptionFrame] = []
         for frame_index, frame_signal in zip(frame_start_indices, synchronized_signals):
@@ -1241,6 +1231,8 @@ class ReceivingModemBase(Generic[CWT], BaseModem[CWT]):
             encoded_bits = self.__unmap(equalized_symbols)
 
             # Apply inverse FEC configuration to correct errors and remove redundancies
+            # The number of transmitted streams is known only after equalization
+            required_num_data_bits = self.encoder_manager.required_num_data_bits(encoded_bits.size)
             decoded_bits = self.encoder_manager.decode(encoded_bits, required_num_data_bits)
 
             # Decode the frame
-- 
2.43.0


From 3e77f63853adab1ddfede96670409f3dee934c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:02 +0000
Subject: [PATCH 77/97] fix: symbol energy of raised cosine waveforms

---
 hermespy/modem/waveform_single_carrier.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hermespy/modem/waveform_single_carrier.py b/hermespy/modem/waveform_single_carrier.py
index f356c08..eac24a1 100644
--- a/hermespy/modem/waveform_single_carrier.py
+++ b/hermespy/modem/waveform_single_carrier.py
@@ -829,6 +829,11 @@ class RaisedCosineWaveform(RolledOffSingleCarrierWaveform, Serializable):
     def __init__(self, *args, **kwargs) -> None:
         RolledOffSingleCarrierWaveform.__init__(self, *args, **kwargs)
 
+    @override
+    def symbol_energy(self, bandwidth: float, oversampling_factor: int) -> float:
+        # Raised cosine pulses of unit peak amplitude lose energy with increasing roll-off
+        return float(np.sum(np.abs(self._transmit_filter(oversampling_factor)) ** 2))
+
     @override
     def _base_filter(self, oversampling_factor: int) -> np.ndarray:
         impulse_response = np.zeros(oversampling_factor * self.filter_length)
-- 
2.43.0


From a57bd5af4ed15ba966b7893c2127367e8ea6f221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:02 +0000
Subject: [PATCH 78/97] fix: ideal channel estimates of single carrier
 waveforms and of later frames

---
 hermespy/modem/waveform_single_carrier.py     | 15 +++++++++++
 .../simulation/modem/channel_estimation.py    | 26 +++++++++++++------
 2 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/hermespy/modem/waveform_single_carrier.py b/hermespy/modem/waveform_single_carrier.py
index eac24a1..59d1550 100644
--- a/hermespy/modem/waveform_single_carrier.py
+++ b/hermespy/modem/waveform_single_carrier.py
@@ -152,6 +152,17 @@ class FilteredSingleCarrierWaveform(ConfigurablePilotWaveform):
         """
         ...  # pragma: no cover
 
+    def _samples_per_symbol(self, oversampling_factor: int) -> int:
+        """Number of samples between the pulses of two consecutive symbols.
+
+        Args:
+            oversampling_factor: The oversampling factor used for the waveform generation.
+
+        Returns: Distance in samples.
+        """
+
+        return oversampling_factor
+
     @abstractmethod
     def _filter_delay(self, oversampling_factor: int) -> int:
         """Cumulative delay introduced during transmit and receive filtering.
@@ -980,6 +991,10 @@ class FMCWWaveform(FilteredSingleCarrierWaveform, Serializable):
     def _filter_delay(self, oversampling_factor: int) -> int:
         return oversampling_factor * self.num_samples_per_chirp - 1
 
+    @override
+    def _samples_per_symbol(self, oversampling_factor: int) -> int:
+        return oversampling_factor * self.num_samples_per_chirp
+
     @override
     def modulate(
         self, data_symbols: Symbols, bandwidth: float, oversampling_factor: int
diff --git a/hermespy/simulation/modem/channel_estimation.py b/hermespy/simulation/modem/channel_estimation.py
index a87986d..2226fa4 100644
--- a/hermespy/simulation/modem/channel_estimation.py
+++ b/hermespy/simulation/modem/channel_estimation.py
@@ -127,8 +127,12 @@ class IdealChannelEstimation(Generic[CWT], ChannelEstimation[CWT]):
             else num_samples
         )
 
-        channel_state_information = self.__cached_sample.state(num_samples, num_samples)
-        return channel_state_information
+        # Skip the samples received before the considered frame
+        num_delay_samples = round(delay * bandwidth * oversampling_factor)
+        channel_state_information = self.__cached_sample.state(
+            num_delay_samples + num_samples, num_samples
+        )
+        return channel_state_information[:, :, num_delay_samples:]
 
 
 class SingleCarrierIdealChannelEstimation(
@@ -141,13 +145,19 @@ class SingleCarrierIdealChannelEstimation(
         self, symbols: Symbols, bandwidth: float, oversampling_factor: int, delay: float = 0.0
     ) -> StatedSymbols:
         num_symbols = self.waveform._num_frame_symbols
-        filter_delay = int(0.5 * self.waveform._filter_delay(oversampling_factor))
-        # sync_delay = int(frame_delay * self.waveform.sampling_rate)
+        symbol_stride = self.waveform._samples_per_symbol(oversampling_factor)
+        filter_delay = self.waveform._filter_delay(oversampling_factor)
+
+        # Compute the weights by which the channel at each sample of a transmitted pulse
+        # contributes to the respective symbol after receive filtering
+        transmit_filter = self.waveform._transmit_filter(oversampling_factor)
+        receive_filter = self.waveform._receive_filter(oversampling_factor)
+        filter_characteristics = np.zeros(filter_delay + 1, dtype=np.complex128)
+        for i in range(filter_delay + 1):
+            if i < receive_filter.size and filter_delay - i < transmit_filter.size:
+                filter_characteristics[i] = receive_filter[i] * transmit_filter[filter_delay - i]
 
         # Compute the CSI including inter-symbol interference
-        filter_characteristics = self.waveform._transmit_filter(
-            oversampling_factor
-        ) * self.waveform._receive_filter(oversampling_factor)
         state = (
             self._csi(
                 delay,
@@ -170,7 +180,7 @@ class SingleCarrierIdealChannelEstimation(
         symbol_csi = summed_state[
             :,
             :,
-            filter_delay : filter_delay + num_symbols * oversampling_factor : oversampling_factor,
+            filter_delay : filter_delay + num_symbols * symbol_stride : symbol_stride,
             None,
         ]
 
-- 
2.43.0


From 8fee4e7b8a3e7b9ee4773fd62ddacb4e88987a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:53 +0000
Subject: [PATCH 79/97] fix: threshold, guard ratio and prominence of
 correlation synchronizations

---
 hermespy/modem/waveform_correlation_synchronization.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hermespy/modem/waveform_correlation_synchronization.py b/hermespy/modem/waveform_correlation_synchronization.py
index 53a495a..3cf94c5 100644
--- a/hermespy/modem/waveform_correlation_synchronization.py
+++ b/hermespy/modem/waveform_correlation_synchronization.py
@@ -148,7 +148,10 @@ class CorrelationSynchronization(Generic[PGT], Synchronization[PGT]):
         # Determine the pilot sequence locations by performing a peak search over the correlation profile
         frame_length = self.waveform.samples_per_frame(bandwidth, oversampling_factor)
         pilot_indices, _ = find_peaks(
-            abs(correlation), height=0.9, distance=int(0.8 * frame_length)
+            abs(correlation),
+            height=self.threshold,
+            distance=max(1, int(self.guard_ratio * frame_length)),
+            prominence=self.__peak_prominence,
         )
 
         # Abort if no pilot section has been detected
@@ -163,7 +166,7 @@ class CorrelationSynchronization(Generic[PGT], Synchronization[PGT]):
         pilot_indices = np.where(pilot_indices < 0, 0, pilot_indices)
         pilot_indices = np.where(
             pilot_indices > (signal.shape[1] - frame_length),
-            abs(signal.shape[1] - frame_length),
+            max(0, signal.shape[1] - frame_length),
             pilot_indices,
         )
 
-- 
2.43.0


From aceb8dd89b87c1d87b996d2103395f0877d41264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:50 +0000
Subject: [PATCH 80/97] fix: hardware loop dimensions of the scenario

---
 hermespy/hardware_loop/hardware_loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/hardware_loop/hardware_loop.py b/hermespy/hardware_loop/hardware_loop.py
index 128ec79..f503cec 100644
--- a/hermespy/hardware_loop/hardware_loop.py
+++ b/hermespy/hardware_loop/hardware_loop.py
@@ -558,7 +558,7 @@ class HardwareLoop(Generic[PhysicalScenarioType, PDT], Pipeline[PhysicalScenario
         Returns: The newly created dimension object.
         """
 
-        considered_objects = (self.__scenario) if len(args) < 1 else args
+        considered_objects = (self.scenario,) if len(args) < 1 else args
         grid_dimension = GridDimension(considered_objects, dimension, sample_points, **kwargs)
         self.add_dimension(grid_dimension)
 
-- 
2.43.0


From bd7eec2928105cb038f2a418f2b65aed68186dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:50 +0000
Subject: [PATCH 81/97] fix: hardware loop plots missing the first sample or
 showing none

---
 hermespy/hardware_loop/hardware_loop.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/hermespy/hardware_loop/hardware_loop.py b/hermespy/hardware_loop/hardware_loop.py
index f503cec..82565fe 100644
--- a/hermespy/hardware_loop/hardware_loop.py
+++ b/hermespy/hardware_loop/hardware_loop.py
@@ -329,6 +329,7 @@ class PlotThread(Thread):
 
     __plots: Sequence[HardwareLoopPlot]
     __sample: HardwareLoopSample | None = None
+    __pending: bool  # The most recent sample has not been plotted yet
     __new_sample: Condition
     __sample_lock: Lock
     __alive: bool
@@ -350,6 +351,7 @@ class PlotThread(Thread):
         # Initialize class attributes
         self.__plots = [plots] if isinstance(plots, HardwareLoopPlot) else plots
         self.__sample = None
+        self.__pending = False
         self.__alive = True
         self.__rc_params = rc_params
         self.__new_sample = Condition()
@@ -387,12 +389,16 @@ class PlotThread(Thread):
             stack.enter_context(self.__new_sample)
 
             while self.__alive:
-                while not self.__new_sample.wait(1.0) and self.__alive:
-                    pass
+                # Wait for a sample which hasn't been plotted yet
+                # It may already have arrived before this thread started waiting
+                while not self.__pending and self.__alive:
+                    self.__new_sample.wait(1.0)
 
                 with self.__sample_lock:
-                    for plot in self.__plots:
-                        plot.update_plot(self.__sample)
+                    if self.__pending:
+                        self.__pending = False
+                        for plot in self.__plots:
+                            plot.update_plot(self.__sample)
 
         # Close the plots
         # This is required as to not confuse the matplotlib backend which thread to use
@@ -410,6 +416,7 @@ class PlotThread(Thread):
 
         with self.__sample_lock:
             self.__sample = sample
+            self.__pending = True
 
         with self.__new_sample:
             self.__new_sample.notify()
-- 
2.43.0


From 7884e8a26e310a9acd6e066b2d37342b38b2ebbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:19 +0000
Subject: [PATCH 82/97] fix: physical devices ignoring their adaptive sampling
 and lowpass filter settings

---
 hermespy/hardware_loop/physical_device.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hermespy/hardware_loop/physical_device.py b/hermespy/hardware_loop/physical_device.py
index 900164a..2abc632 100644
--- a/hermespy/hardware_loop/physical_device.py
+++ b/hermespy/hardware_loop/physical_device.py
@@ -141,8 +141,8 @@ class PhysicalDevice(Generic[PDST], Device[PDST]):
 
         # Initialize class attributes
         self.max_receive_delay = max_receive_delay
-        self.adaptive_sampling = False
-        self.lowpass_filter = False
+        self.adaptive_sampling = adaptive_sampling
+        self.lowpass_filter = lowpass_filter
         self.lowpass_bandwidth = lowpass_bandwidth
         self.__recent_upload = None
         self.noise_power = noise_power
@@ -638,8 +638,8 @@ class PhysicalDevice(Generic[PDST], Device[PDST]):
 
         Returns: The received device information.
         """
-        _impinging_signals = self._download() if impinging_signals is None else impinging_signals
-        return Device.receive(self, _impinging_signals, state, notify)
+        # Samples not provided are downloaded and filtered while being processed
+        return Device.receive(self, impinging_signals, state, notify)
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
-- 
2.43.0


From b23597f4398c63ffbefc9e7140d4c5dad3098411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:19 +0000
Subject: [PATCH 83/97] fix: calibrations replaced at their device resetting it
 later on

---
 hermespy/hardware_loop/physical_device.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/hermespy/hardware_loop/physical_device.py b/hermespy/hardware_loop/physical_device.py
index 2abc632..a47c450 100644
--- a/hermespy/hardware_loop/physical_device.py
+++ b/hermespy/hardware_loop/physical_device.py
@@ -174,7 +174,9 @@ class PhysicalDevice(Generic[PDST], Device[PDST]):
         if self.__leakage_calibration is value:
             return
 
+        replaced_calibration = self.__leakage_calibration
         self.__leakage_calibration = value
+        replaced_calibration._release(self)
 
         if self.__leakage_calibration.device is not self:
             self.__leakage_calibration.device = self
@@ -194,7 +196,9 @@ class PhysicalDevice(Generic[PDST], Device[PDST]):
         if self.__delay_calibration is value:
             return
 
+        replaced_calibration = self.__delay_calibration
         self.__delay_calibration = value
+        replaced_calibration._release(self)
         self.__delay_calibration.device = self
 
     @property
@@ -211,7 +215,9 @@ class PhysicalDevice(Generic[PDST], Device[PDST]):
         if self.__antenna_calibration is value:
             return
 
+        replaced_calibration = self.__antenna_calibration
         self.__antenna_calibration = value
+        replaced_calibration._release(self)
         self.__antenna_calibration.device = self
 
     def save_calibration(
@@ -745,6 +751,17 @@ class Calibration(ABC, Serializable):
         if self.__device is not None:
             self._configure_slot(self.__device, self)
 
+    def _release(self, device: PhysicalDevice) -> None:
+        """Forget about a device which has been configured to use another calibration.
+
+        Args:
+
+            device: The device no longer using this calibration.
+        """
+
+        if self.__device is device:
+            self.__device = None
+
     @property
     def transmit_ports(self) -> list[int] | None:
         """List of transmit port indices considered for this calibration.
-- 
2.43.0


From 89d51515c79d9d4e2d4b38c589748ededb55bc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:19 +0000
Subject: [PATCH 84/97] fix: antenna calibrations modifying directly triggered
 signals

---
 hermespy/hardware_loop/physical_device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/hardware_loop/physical_device.py b/hermespy/hardware_loop/physical_device.py
index a47c450..7fcbfbe 100644
--- a/hermespy/hardware_loop/physical_device.py
+++ b/hermespy/hardware_loop/physical_device.py
@@ -525,7 +525,7 @@ class PhysicalDevice(Generic[PDST], Device[PDST]):
         # Apply antenna calibration
         if calibrate:
             signal = Signal.Create(
-                [self.antenna_calibration.correct_transmission(b) for b in signal.blocks],
+                [self.antenna_calibration.correct_transmission(b.copy()) for b in signal.blocks],
                 signal.sampling_rate,
                 signal.carrier_frequency,
                 signal.noise_power,
-- 
2.43.0


From 948687b08a20a6e0fa672fdb8cbcde69faa6644a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:19 +0000
Subject: [PATCH 85/97] fix: estimating and correcting delays of several ports,
 phases, blocks and fractions of samples

---
 hermespy/hardware_loop/calibration/delay.py |  6 ++++--
 hermespy/hardware_loop/physical_device.py   | 23 ++++++++++++++-------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/hermespy/hardware_loop/calibration/delay.py b/hermespy/hardware_loop/calibration/delay.py
index 49e41d8..06d5bcc 100644
--- a/hermespy/hardware_loop/calibration/delay.py
+++ b/hermespy/hardware_loop/calibration/delay.py
@@ -111,9 +111,11 @@ class DelayCalibration(DelayCalibrationBase):
 
             # Infer the implicit delay by estimating the sample index of the propagated dirac
             propagated_signals.append(propagated_signal)
-            propagated_dirac_indices[n] = np.argmax(
-                propagated_signal.blocks[0].view(np.ndarray)[_receive_ports, :]
+            # at the port receiving the highest peak
+            received_magnitudes = np.abs(
+                propagated_signal.to_dense().view(np.ndarray)[_receive_ports, :]
             )
+            propagated_dirac_indices[n] = np.argmax(np.max(received_magnitudes, axis=0))
 
             # Wait the configured amount of time between iterations
             sleep(wait)
diff --git a/hermespy/hardware_loop/physical_device.py b/hermespy/hardware_loop/physical_device.py
index 7fcbfbe..8d90739 100644
--- a/hermespy/hardware_loop/physical_device.py
+++ b/hermespy/hardware_loop/physical_device.py
@@ -861,19 +861,24 @@ class DelayCalibrationBase(Calibration, Serializable):
 
         # Prepend zeros to the signal to account for negative delays
         delay_in_samples = round(-self.delay * signal.sampling_rate)
+        # Subsequent blocks are shifted
         corrected_signal = Signal.Create(
             [
-                np.concatenate(
-                    (np.zeros((signal.num_streams, delay_in_samples), dtype=np.complex128), b),
-                    axis=1,
-                ).view(SignalBlock)
-                for b in signal.blocks
+                (
+                    np.concatenate(
+                        (np.zeros((signal.num_streams, delay_in_samples), dtype=np.complex128), b),
+                        axis=1,
+                    )
+                    if n == 0
+                    else b.view(np.ndarray)
+                )
+                for n, b in enumerate(signal.blocks)
             ],
             signal.sampling_rate,
             signal.carrier_frequency,
             signal.noise_power,
             signal.delay,
-            [b.offset for b in signal.blocks],
+            [b.offset + (0 if n == 0 else delay_in_samples) for n, b in enumerate(signal.blocks)],
         )
 
         return corrected_signal
@@ -892,10 +897,14 @@ class DelayCalibrationBase(Calibration, Serializable):
             return signal
 
         _receive_ports = slice(None) if self.receive_ports is None else self.receive_ports
-        delay_in_samples = round(self.delay * signal.sampling_rate)
+        delay_in_samples = min(round(self.delay * signal.sampling_rate), signal.num_samples)
 
         # Remove samples from the signal's relevant streams to account for positive delays
         corrected_signal = signal.copy()
+        if delay_in_samples < 1:
+            corrected_signal.delay = self.delay
+            return corrected_signal
+
         corrected_signal[_receive_ports, :-delay_in_samples] = signal[
             _receive_ports, delay_in_samples:
         ]
-- 
2.43.0


From e173d755b16ee23d4c53fa3a226b98500e6aa0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:28 +0000
Subject: [PATCH 86/97] fix: directly triggered dummy devices correcting
 leakage at carrier frequencies

---
 hermespy/hardware_loop/physical_device_dummy.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/hermespy/hardware_loop/physical_device_dummy.py b/hermespy/hardware_loop/physical_device_dummy.py
index 8ea268c..10b48cb 100644
--- a/hermespy/hardware_loop/physical_device_dummy.py
+++ b/hermespy/hardware_loop/physical_device_dummy.py
@@ -271,7 +271,16 @@ class PhysicalDeviceDummy(SimulatedDevice, PhysicalDevice, Serializable):
         corrected_signal = (
             baseband_signal
             if not calibrate or self.leakage_calibration is None
-            else self.leakage_calibration.remove_leakage(signal, baseband_signal)
+            else self.leakage_calibration.remove_leakage(
+                Signal.Create(
+                    signal.to_dense().view(np.ndarray),
+                    signal.sampling_rate,
+                    baseband_signal.carrier_frequency,
+                    signal.noise_power,
+                    signal.delay,
+                ),
+                baseband_signal,
+            )
         )
 
         return corrected_signal
-- 
2.43.0


From 824ae08a9a3c8ad65e9d1c469e8930453d8bb009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:28 +0000
Subject: [PATCH 87/97] fix: predicted, removed and delayed leakage of several
 ports

---
 hermespy/hardware_loop/calibration/leakage.py | 85 +++++++++----------
 1 file changed, 42 insertions(+), 43 deletions(-)

diff --git a/hermespy/hardware_loop/calibration/leakage.py b/hermespy/hardware_loop/calibration/leakage.py
index 542be34..3e0aa02 100644
--- a/hermespy/hardware_loop/calibration/leakage.py
+++ b/hermespy/hardware_loop/calibration/leakage.py
@@ -125,17 +125,18 @@ class SelectiveLeakageCalibration(LeakageCalibrationBase):
             ),
             dtype=np.complex128,
         )
-        for m, n in np.ndindex(self.leakage_response.shape[0], transmitted_signal.num_streams):
+        for m, n in np.ndindex(self.leakage_response.shape[0], _transmit_signal.num_streams):
             # The leaked signal is the convolution of the transmitted signal with the leakage response
             predicted_signal_samples[m, :] += convolve(
                 self.__leakage_response[m, n, :],
-                transmitted_signal[n : n + 1, :].view(np.ndarray).flatten(),
+                _transmit_signal[n : n + 1, :].to_dense().view(np.ndarray).flatten(),
             )
 
         return DenseSignal.FromNDArray(
             predicted_signal_samples,
             transmitted_signal.sampling_rate,
             transmitted_signal.carrier_frequency,
+            transmitted_signal.noise_power,
             transmitted_signal.delay + self.delay,
         )
 
@@ -164,7 +165,7 @@ class SelectiveLeakageCalibration(LeakageCalibrationBase):
         delay_correction = transmitted_signal.delay + received_signal.delay
 
         # The received signal is corrected by subtracting the leaked samples
-        corrected_signal = received_signal.copy()
+        corrected_signal = received_signal.to_dense().copy()
 
         # If nothing has been transmitted, abort
         if _transmit_signal.num_samples < 1:
@@ -175,38 +176,26 @@ class SelectiveLeakageCalibration(LeakageCalibrationBase):
 
         for m, n in np.ndindex(
             min(received_signal.num_streams, self.leakage_response.shape[0]),
-            min(transmitted_signal.num_streams, self.leakage_response.shape[0]),
+            min(_transmit_signal.num_streams, self.leakage_response.shape[1]),
         ):
             _m = _receive_ports[m]
 
             # The leaked signal is the convolution of the transmitted signal with the leakage response
             predicted_siso_signal = convolve(
                 self.__leakage_response[m, n, :],
-                _transmit_signal[n : n + 1, :].view(np.ndarray).flatten(),
+                _transmit_signal[n : n + 1, :].to_dense().view(np.ndarray).flatten(),
             )
 
             # The correction is achieved by subtracting the leaked signal from the received signal
-            if delay_sample_shift >= 0:
-                leak_range = min(
-                    delay_sample_shift + len(predicted_siso_signal), corrected_signal.num_samples
-                )
-                min_num_samples = min(
-                    corrected_signal.num_samples - delay_sample_shift, len(predicted_siso_signal)
-                )
-                corrected_signal[_m : _m + 1, delay_sample_shift:leak_range] = (
-                    corrected_signal[_m : _m + 1, delay_sample_shift:leak_range]
-                    - predicted_siso_signal[:min_num_samples]
-                )
-
-            else:
-                leak_range = min(
-                    delay_sample_shift + len(predicted_siso_signal),
-                    corrected_signal.num_samples + delay_sample_shift,
-                )
-                min_num_samples = min(corrected_signal.num_samples, len(predicted_siso_signal))
-                corrected_signal[_m : _m + 1, 0:leak_range] = (
-                    corrected_signal[_m : _m + 1, :leak_range]
-                    - predicted_siso_signal[-delay_sample_shift:min_num_samples]
+            # Only consider the section of the leaked signal overlapping with the received signal
+            start = max(0, delay_sample_shift)
+            stop = min(
+                delay_sample_shift + len(predicted_siso_signal), corrected_signal.num_samples
+            )
+            if start < stop:
+                corrected_signal[_m : _m + 1, start:stop] = (
+                    corrected_signal[_m : _m + 1, start:stop]
+                    - predicted_siso_signal[start - delay_sample_shift : stop - delay_sample_shift]
                 )
 
         return corrected_signal
@@ -250,7 +239,9 @@ class SelectiveLeakageCalibration(LeakageCalibrationBase):
         """
 
         # The delay is estimated by finding the maximum of the absolute value of the leakage response
-        delay = float(np.argmax(np.abs(self.leakage_response)) / self.sampling_rate + self.delay)
+        # over all pairs of transmit and receive ports
+        peak_index = np.argmax(np.max(np.abs(self.leakage_response), axis=(0, 1)))
+        delay = float(peak_index / self.sampling_rate + self.delay)
 
         return DelayCalibration(delay)
 
@@ -366,19 +357,12 @@ class SelectiveLeakageCalibration(LeakageCalibrationBase):
             ValueError: If the number of samples is not strictly positive.
         """
 
-        _transmit_ports: list[int] | slice = slice(None)
-        if isinstance(transmit_ports, list):
-            if len(transmit_ports) > 1:
-                _transmit_ports = transmit_ports
-            else:
-                _transmit_ports = slice(transmit_ports[0], transmit_ports[0] + 1)
-
-        _receive_ports: list[int] | slice = slice(None)
-        if isinstance(receive_ports, list):
-            if len(receive_ports) > 1:
-                _receive_ports = receive_ports
-            else:
-                _receive_ports = slice(receive_ports[0], receive_ports[0] + 1)
+        _transmit_ports = (
+            list(range(device.num_transmit_rf_ports)) if transmit_ports is None else transmit_ports
+        )
+        _receive_ports = (
+            list(range(device.num_receive_rf_ports)) if receive_ports is None else receive_ports
+        )
 
         # Probe the device leakage
         probing_frequencies, received_frequencies = SelectiveLeakageCalibration.__probe_leakage(
@@ -412,7 +396,10 @@ class SelectiveLeakageCalibration(LeakageCalibrationBase):
 
         # Convert the estimated leakage-response into the time-domain
         leakage_response = np.asarray(
-            ifft(estimated_frequency_response[_receive_ports, _transmit_ports, :], norm="backward"),
+            ifft(
+                estimated_frequency_response[np.ix_(_receive_ports, _transmit_ports)],
+                norm="backward",
+            ),
             np.complex128,
         )
 
@@ -434,7 +421,11 @@ class SelectiveLeakageCalibration(LeakageCalibrationBase):
                 leakage_response = new_leakage_response
 
         calibration = SelectiveLeakageCalibration(
-            leakage_response, device.sampling_rate, device.delay_calibration.delay
+            leakage_response,
+            device.sampling_rate,
+            device.delay_calibration.delay,
+            transmit_ports=transmit_ports,
+            receive_ports=receive_ports,
         )
 
         # Configure the device with the estimated calibration if the respective flag is enabled
@@ -500,7 +491,7 @@ class SelectiveLeakageCalibration(LeakageCalibrationBase):
         if np.any(noise_power < 0.0):
             raise ValueError(f"Noise power must be non-negative (not {noise_power})")
 
-        if noise_power.ndim != 1 or noise_power.shape[0] != device.num_transmit_rf_ports:
+        if noise_power.ndim != 1 or noise_power.shape[0] != device.num_receive_rf_ports:
             raise ValueError("Noise power has invalid dimensions")
 
         # Estimate frequency spectra via MMSE estimation
@@ -555,14 +546,22 @@ class SelectiveLeakageCalibration(LeakageCalibrationBase):
         process.serialize_array(self.leakage_response, "leakage_response")
         process.serialize_floating(self.sampling_rate, "sampling_rate")
         process.serialize_floating(self.delay, "delay")
+        if self.__transmit_ports is not None:
+            process.serialize_array(np.asarray(self.__transmit_ports, np.int64), "transmit_ports")
+        if self.__receive_ports is not None:
+            process.serialize_array(np.asarray(self.__receive_ports, np.int64), "receive_ports")
 
     @override
     @classmethod
     def Deserialize(
         cls: Type[SelectiveLeakageCalibration], process: DeserializationProcess
     ) -> SelectiveLeakageCalibration:
+        transmit_ports = process.deserialize_array("transmit_ports", np.int64, None)
+        receive_ports = process.deserialize_array("receive_ports", np.int64, None)
         return cls(
             process.deserialize_array("leakage_response", np.complex128),
             process.deserialize_floating("sampling_rate"),
             process.deserialize_floating("delay", cls.__DEFAULT_DELAY),
+            transmit_ports=None if transmit_ports is None else transmit_ports.tolist(),
+            receive_ports=None if receive_ports is None else receive_ports.tolist(),
         )
-- 
2.43.0


From 94b37998410b70caf09eb9d7185af1c3283e7228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:41 +0000
Subject: [PATCH 88/97] fix: audio devices swapping antenna counts, detuning
 delayed receptions and forgetting settings

---
 hermespy/hardware_loop/audio/device.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/hermespy/hardware_loop/audio/device.py b/hermespy/hardware_loop/audio/device.py
index 9a82379..c89dfbe 100644
--- a/hermespy/hardware_loop/audio/device.py
+++ b/hermespy/hardware_loop/audio/device.py
@@ -78,12 +78,12 @@ class AudioDeviceAntennas(AntennaArray[AudioAntenna]):
     @property
     @override
     def num_receive_antennas(self) -> int:
-        return len(self.__device.playback_channels)
+        return len(self.__device.record_channels)
 
     @property
     @override
     def num_transmit_antennas(self) -> int:
-        return len(self.__device.record_channels)
+        return len(self.__device.playback_channels)
 
     @property
     @override
@@ -296,28 +296,32 @@ class AudioDevice(PhysicalDevice[PhysicalDeviceState], Serializable):
         # Infer parameters
         delay_samples = int(self.max_receive_delay * self.sampling_rate)
 
+        # Append zeros to account for the maximum expected delay during reception
+        # The padded signal has as many samples as will be recorded,
+        # so that both are mixed by exactly the same frequency
+        padded_samples = np.append(
+            signal.to_dense().view(np.ndarray),
+            np.zeros((signal.num_streams, delay_samples), dtype=np.complex128),
+            axis=1,
+        )
+
         # Mix to to positive frequencies for audio transmission
         pressure_spectrum = np.roll(
-            np.asarray(fft(signal.to_dense()), np.complex128),
-            int(0.25 * signal.num_samples) + 1,
+            np.asarray(fft(padded_samples, axis=1), np.complex128),
+            int(0.25 * padded_samples.shape[1]) + 1,
             axis=1,
         ).reshape((self.num_transmit_rf_ports, -1))
         pressure_spectrum[:, int(0.5 * pressure_spectrum.shape[1]) :] = 0.0
         real_pressure_signal = np.asarray(
             ifft(pressure_spectrum, axis=1), np.complex128
         ).real.reshape((self.num_transmit_rf_ports, -1))
-        real_pressure_signal = np.append(
-            real_pressure_signal,
-            np.zeros((real_pressure_signal.shape[0], delay_samples), dtype=np.float64),
-            axis=1,
-        ).reshape((self.num_transmit_rf_ports, -1))
 
         self.__transmission = real_pressure_signal.T
         self.__reception = np.empty(
             (self.__transmission.shape[0], len(self.__record_channels)), dtype=np.float64
         )
         return DenseSignal.FromNDArray(
-            real_pressure_signal.reshape((self.num_receive_rf_ports, -1)).astype(np.complex128),
+            real_pressure_signal.astype(np.complex128),
             signal.sampling_rate,
             0.0,
         )
@@ -373,6 +377,7 @@ class AudioDevice(PhysicalDevice[PhysicalDeviceState], Serializable):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
+        PhysicalDevice.serialize(self, process)
         process.serialize_integer(self.playback_device, "playback_device")
         process.serialize_integer(self.record_device, "record_device")
         process.serialize_array(np.asarray(self.playback_channels), "playback_channels")
@@ -390,4 +395,5 @@ class AudioDevice(PhysicalDevice[PhysicalDeviceState], Serializable):
             process.deserialize_array("record_channels", np.int64).tolist(),
             process.deserialize_floating("sampling_rate", cls.__DEFAULT_SAMPLING_RATE),
             process.deserialize_integer("oversampling_factor", cls.__DEFAULT_OVERSAMPLING_FACTOR),
+            **cls._DeserializeParameters(process),  # type: ignore[arg-type]
         )
-- 
2.43.0


From ffe92617e86a569aebf81975b127eb875c4d7e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:41 +0000
Subject: [PATCH 89/97] fix: audio scenarios always calibrating direct triggers

---
 hermespy/hardware_loop/audio/scenario.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/hardware_loop/audio/scenario.py b/hermespy/hardware_loop/audio/scenario.py
index cd6ef9b..137ac1d 100644
--- a/hermespy/hardware_loop/audio/scenario.py
+++ b/hermespy/hardware_loop/audio/scenario.py
@@ -37,5 +37,5 @@ class AudioScenario(PhysicalScenario[AudioDevice]):
     def _trigger_direct(
         self, transmissions: list[Signal], devices: list[AudioDevice], calibrate: bool = True
     ) -> list[Signal]:
-        transmissions = [d.trigger_direct(t) for d, t in zip(devices, transmissions)]
-        return transmissions
+        calibration_flags = {} if calibrate else {"calibrate": False}
+        return [d.trigger_direct(t, **calibration_flags) for d, t in zip(devices, transmissions)]
-- 
2.43.0


From fa8c1f920a3426e61e27c1ca8485b37d39fb4772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:41 +0000
Subject: [PATCH 90/97] fix: radio devices modifying transmitted signals and
 dropping collected samples

---
 hermespy/hardware_loop/uhd/usrp.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hermespy/hardware_loop/uhd/usrp.py b/hermespy/hardware_loop/uhd/usrp.py
index d1a0892..3ba4bcd 100644
--- a/hermespy/hardware_loop/uhd/usrp.py
+++ b/hermespy/hardware_loop/uhd/usrp.py
@@ -338,8 +338,8 @@ class UsrpDevice(PhysicalDevice[PhysicalDeviceState], Serializable):
         self.__rpc_call_wrapper(self.__usrp_client.resetStreamingConfigs)
 
         # Make a copy in order to avoid changing baseband_signal
-        uploaded_samples: np.ndarray[tuple[int, int], np.dtype[np.complex128]] = signal.view(
-            np.ndarray
+        uploaded_samples: np.ndarray[tuple[int, int], np.dtype[np.complex128]] = np.array(
+            signal.to_dense().view(np.ndarray)
         )
 
         # Apply the antenna array calibration
@@ -437,15 +437,15 @@ class UsrpDevice(PhysicalDevice[PhysicalDeviceState], Serializable):
 
         for mimo_signal in mimo_signals:
             streams = np.array([mimo_signal.signals[i] for i in range(self.num_receive_rf_ports)])
-            mimo_signals = np.append(signal_samples, streams, axis=1)
+            signal_samples = np.append(signal_samples, streams, axis=1)
 
         # Remove the zero padding hack
-        mimo_signals = mimo_signals[
-            :, self.num_prepeneded_zeros : mimo_signals.shape[1] - self.num_appended_zeros
+        signal_samples = signal_samples[
+            :, self.num_prepeneded_zeros : signal_samples.shape[1] - self.num_appended_zeros
         ]
 
         # Apply the antenna array calibration
-        dense_result = mimo_signals.view(DenseSignal)
+        dense_result = signal_samples.view(DenseSignal)
         dense_result.sampling_rate = self.sampling_rate
         corrected_signal = self.antenna_calibration.correct_reception(dense_result)
         return Signal.Create(
-- 
2.43.0


From ff25d8e5f67f9c9a0733257a3c0f06deb69274c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:45 +0000
Subject: [PATCH 91/97] fix: simulation campaigns sampling channels at time
 zero for every drop

---
 hermespy/simulation/simulation.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hermespy/simulation/simulation.py b/hermespy/simulation/simulation.py
index 072ae63..f023f81 100644
--- a/hermespy/simulation/simulation.py
+++ b/hermespy/simulation/simulation.py
@@ -47,6 +47,7 @@ class SimulationRunner(object):
     __propagation: Sequence[Sequence[Signal]] | None
     __processed_inputs: Sequence[ProcessedSimulatedDeviceInput]
     __device_states: Sequence[SimulatedDeviceState] | None
+    __timestamp: float
     __operator_transmissions: Sequence[Sequence[Transmission]] | None
     __device_outputs: Sequence[SimulatedDeviceOutput] | None
     __channel_realizations: Sequence[ChannelRealization] | None
@@ -61,6 +62,7 @@ class SimulationRunner(object):
         self.__scenario = scenario
         self.__channel_realizations = None
         self.__device_states = None
+        self.__timestamp = 0.0
         self.__operator_transmissions = None
         self.__device_outputs = None
         self.__propagation = None
@@ -70,6 +72,7 @@ class SimulationRunner(object):
         self.__channel_realizations = self.__scenario.realize_channels()
 
     def sample_states(self, timestamp: float = 0.0) -> None:
+        self.__timestamp = timestamp
         self.__device_states = [d.state(timestamp) for d in self.__scenario.devices]
 
     def transmit_operators(self) -> None:
@@ -118,7 +121,10 @@ class SimulationRunner(object):
 
         # Propagate device outputs
         self.__propagation, _ = self.__scenario.propagate(
-            self.__device_outputs, self.__device_states, self.__channel_realizations
+            self.__device_outputs,
+            self.__device_states,
+            self.__channel_realizations,
+            self.__timestamp,
         )
 
     def process_inputs(self) -> None:
-- 
2.43.0


From 22d67b6876e0cb8e332937c69817efe7138d94b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:58 +0000
Subject: [PATCH 92/97] fix: fading channels ignoring later changes of their
 number of sinusoids

---
 hermespy/channel/fading/fading.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/hermespy/channel/fading/fading.py b/hermespy/channel/fading/fading.py
index 8c0ef3d..717192c 100644
--- a/hermespy/channel/fading/fading.py
+++ b/hermespy/channel/fading/fading.py
@@ -729,21 +729,27 @@ class MultipathFadingChannel(
         rice_inf_pos = np.isposinf(self.__rice_factors)
         rice_num_pos = np.invert(rice_inf_pos)
         self.__los_gains = np.empty(self.num_resolvable_paths, dtype=float)
-        self.__non_los_gains = np.empty(self.num_resolvable_paths, dtype=float)
 
         self.__los_gains[rice_inf_pos] = 1.0
         self.__los_gains[rice_num_pos] = np.sqrt(
             self.__rice_factors[rice_num_pos] / (1 + self.__rice_factors[rice_num_pos])
         )
-        self.__non_los_gains[rice_num_pos] = np.sqrt(
-            1 / ((1 + self.__rice_factors[rice_num_pos]) * self.__num_sinusoids)
-        )
-        self.__non_los_gains[rice_inf_pos] = 0.0
 
         # Update correlations (required here to break dependency cycle during init)
         self.antenna_correlation = antenna_correlation
         self.correlation_distance = correlation_distance
 
+        self.__init_sinusoids()
+
+    def __init_sinusoids(self) -> None:
+        """Initialize the gains and random variables depending on the number of sinusoids."""
+
+        rice_num_pos = np.invert(np.isposinf(self.__rice_factors))
+        self.__non_los_gains = np.zeros(self.num_resolvable_paths, dtype=float)
+        self.__non_los_gains[rice_num_pos] = np.sqrt(
+            1 / ((1 + self.__rice_factors[rice_num_pos]) * self.__num_sinusoids)
+        )
+
         self.__rng = ConsistentGenerator(self)
         # Note: This is a temporary solution,
         # since the configuration class is unaware of the devices' number of antennas.
@@ -880,6 +886,7 @@ class MultipathFadingChannel(
             raise ValueError("Number of sinusoids must be greater or equal to zero")
 
         self.__num_sinusoids = num
+        self.__init_sinusoids()
 
     @property
     def los_angle(self) -> float | None:
-- 
2.43.0


From 640e56f9fd57e4431c33521b0e3e333a44be0523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:58 +0000
Subject: [PATCH 93/97] fix: fading channels restarting at each sample instead
 of evolving over time

---
 hermespy/channel/fading/fading.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/channel/fading/fading.py b/hermespy/channel/fading/fading.py
index 717192c..b2de6b8 100644
--- a/hermespy/channel/fading/fading.py
+++ b/hermespy/channel/fading/fading.py
@@ -298,7 +298,7 @@ class MultipathFadingSample(ChannelSample):
 
         num_sinusoids = self.__nlos_angles.shape[1]
         n = 1 + np.arange(num_sinusoids)
-        timestamps = np.arange(num_samples) / self.bandwidth
+        timestamps = self.time + np.arange(num_samples) / self.bandwidth
 
         nlos_time = self.nlos_doppler * timestamps
         los_time = self.los_doppler * timestamps
-- 
2.43.0


From 8df41a52835848cd8d5da58dba9aa43efafbe806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:56 +0000
Subject: [PATCH 94/97] fix: line of sight power, Rice factor and Doppler of
 the 5G TDL-D and TDL-E models

---
 hermespy/channel/fading/tdl.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hermespy/channel/fading/tdl.py b/hermespy/channel/fading/tdl.py
index 8414c3f..34333ff 100644
--- a/hermespy/channel/fading/tdl.py
+++ b/hermespy/channel/fading/tdl.py
@@ -302,7 +302,7 @@ class TDL(MultipathFadingChannel):
             )
             power_db = np.array(
                 [
-                    -13.5,
+                    10 * np.log10(10 ** (-0.2 / 10) + 10 ** (-13.5 / 10)),
                     -18.8,
                     -21,
                     -22.8,
@@ -318,8 +318,8 @@ class TDL(MultipathFadingChannel):
                 ]
             )
             rice_factors = np.zeros(normalized_delays.shape)
-            rice_factors[0] = 13.3
-            los_doppler_frequency = 0.7
+            rice_factors[0] = 10 ** (13.3 / 10)
+            los_angle = np.arccos(0.7) if los_angle is None else los_angle
 
         # ETSI TR 38.900 Table 7.7.2-5: 5G TDL-E
         elif model_type == TDLType.E:
@@ -348,7 +348,7 @@ class TDL(MultipathFadingChannel):
             )
             power_db = np.array(
                 [
-                    -22.03,
+                    10 * np.log10(10 ** (-0.03 / 10) + 10 ** (-22.03 / 10)),
                     -15.8,
                     -18.1,
                     -19.8,
@@ -365,8 +365,8 @@ class TDL(MultipathFadingChannel):
                 ]
             )
             rice_factors = np.zeros(normalized_delays.shape)
-            rice_factors[0] = 22
-            los_doppler_frequency = 0.7
+            rice_factors[0] = 10 ** (22 / 10)
+            los_angle = np.arccos(0.7) if los_angle is None else los_angle
 
         else:
             raise ValueError("Requested model type not supported")
-- 
2.43.0


From 7ec1ebe6eb727201d0438ba3f2f3dd038a668104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:56 +0000
Subject: [PATCH 95/97] fix: power of the sixth path of the 5G TDL-B model

---
 hermespy/channel/fading/tdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/channel/fading/tdl.py b/hermespy/channel/fading/tdl.py
index 34333ff..2a6283a 100644
--- a/hermespy/channel/fading/tdl.py
+++ b/hermespy/channel/fading/tdl.py
@@ -194,7 +194,7 @@ class TDL(MultipathFadingChannel):
                     -4,
                     -3.2,
                     -9.8,
-                    -3.2,
+                    -1.2,
                     -3.4,
                     -5.2,
                     -7.6,
-- 
2.43.0


From 3553507dddb6e13154008593dff026cf44869614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:48 +0000
Subject: [PATCH 96/97] fix: executables started at the same time failing to
 create their results directories

---
 hermespy/core/executable.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/hermespy/core/executable.py b/hermespy/core/executable.py
index 145c123..3a6d514 100644
--- a/hermespy/core/executable.py
+++ b/hermespy/core/executable.py
@@ -203,13 +203,15 @@ class Executable(ABC):
             today = str(datetime.date.today())
             dir_index = 0
 
-            results_dir = path.join(base_directory, today + "_" + "{:03d}".format(dir_index))
-            while path.exists(results_dir):
-                dir_index += 1
+            # Create the first results directory which does not exist yet.
+            # Other executables may be creating their results directories at the same time.
+            while True:
                 results_dir = path.join(base_directory, today + "_" + "{:03d}".format(dir_index))
-
-            # Create the results directory
-            mkdir(results_dir)
+                try:
+                    mkdir(results_dir)
+                    break
+                except FileExistsError:
+                    dir_index += 1
 
         return results_dir
 
-- 
2.43.0


From 5d5e2ac23fd2f76509bbadae9fe1ddbb8c278d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:49 +0000
Subject: [PATCH 97/97] fix: plots ignoring the configured style

---
 hermespy/core/executable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/core/executable.py b/hermespy/core/executable.py
index 3a6d514..c9fdec8 100644
--- a/hermespy/core/executable.py
+++ b/hermespy/core/executable.py
@@ -231,12 +231,12 @@ class Executable(ABC):
     def style(self, value: str) -> None:
         hermes_styles = self.__hermes_styles()
         if value in hermes_styles:
-            self.__style = value
+            Executable.__style = value
             return
 
         matplotlib_styles = plt.style.available
         if value in matplotlib_styles:
-            self.__style = value
+            Executable.__style = value
             return
 
         raise ValueError("Requested style identifier not available")
-- 
2.43.0

