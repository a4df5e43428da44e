From 37c6eadae899da776ea817a559942f28b562c890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:04 +0000
Subject: [PATCH 01/30] fix: keep TinyMT tempering within 32 bits under numba

uint32 + uint32 is uint64 in numba, so next() could return a 33-bit value
and next_rand() a value at or above its maximum.
---
 numba_pokemon_prngs/mersenne_twister/tinymt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/mersenne_twister/tinymt.py b/numba_pokemon_prngs/mersenne_twister/tinymt.py
index cec642b..13f31c3 100644
--- a/numba_pokemon_prngs/mersenne_twister/tinymt.py
+++ b/numba_pokemon_prngs/mersenne_twister/tinymt.py
@@ -75,7 +75,7 @@ class TinyMersenneTwister:
     def temper(self) -> np.uint32:
         """Access and return the next 32-bit tempered rand"""
         temper_0 = self.state[3]
-        temper_1 = self.state[0] + (self.state[2] >> np.uint32(8))
+        temper_1 = np.uint32(self.state[0] + (self.state[2] >> np.uint32(8)))
 
         temper_0 ^= temper_1
 
-- 
2.43.0


From 4bca0d33ed1beabfb000c5c805866bb4f30824e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:04 +0000
Subject: [PATCH 02/30] fix: reciprocal division rand with a maximum of 1

(0xFFFF // 1) + 1 does not fit 16 bits: it wrapped to 0 and divided by zero.
---
 numba_pokemon_prngs/lcrng/lcrng32.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/numba_pokemon_prngs/lcrng/lcrng32.py b/numba_pokemon_prngs/lcrng/lcrng32.py
index 1fe0bab..b9119bb 100644
--- a/numba_pokemon_prngs/lcrng/lcrng32.py
+++ b/numba_pokemon_prngs/lcrng/lcrng32.py
@@ -163,8 +163,8 @@ def lcrng32_init(
         elif distribution == LCRNG32RandomDistribution.RECIPROCAL_DIVISION:
 
             def next_rand(self: LCRNG32, maximum: np.uint16) -> np.uint16:
-                return np.uint16(self.next_u16()) // np.uint16(
-                    (np.uint16(0xFFFF) // np.uint16(maximum)) + np.uint16(1)
+                return np.uint16(self.next_u16()) // np.uint32(
+                    (np.uint32(0xFFFF) // np.uint32(maximum)) + np.uint32(1)
                 )
 
             def const_rand(
@@ -172,8 +172,8 @@ def lcrng32_init(
             ) -> Callable[[LCRNG32], np.uint16]:
                 @optional_njit(**kwargs)
                 def rand_func(self: LCRNG32) -> np.uint16:
-                    return np.uint16(self.next_u16()) // np.uint16(
-                        (np.uint16(0xFFFF) // np.uint16(maximum)) + np.uint16(1)
+                    return np.uint16(self.next_u16()) // np.uint32(
+                        (np.uint32(0xFFFF) // np.uint32(maximum)) + np.uint32(1)
                     )
 
                 return rand_func
-- 
2.43.0


From 7acce120c99df616e84fd6edfd2aead926d66294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:04 +0000
Subject: [PATCH 03/30] fix: give ARNG/ARNGR their documented modulo random
 distribution

---
 numba_pokemon_prngs/lcrng/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/numba_pokemon_prngs/lcrng/__init__.py b/numba_pokemon_prngs/lcrng/__init__.py
index cf71802..ada5dfc 100644
--- a/numba_pokemon_prngs/lcrng/__init__.py
+++ b/numba_pokemon_prngs/lcrng/__init__.py
@@ -52,6 +52,7 @@ class PokeRNGRDiv(LCRNG32):
 @lcrng32_init(
     add=0x1,
     mult=0x6C078965,
+    distribution=LCRNG32RandomDistribution.MODULO,
 )
 class ARNG(LCRNG32):
     """Alternative Pokemon LCRNG with modulo random distribution"""
@@ -60,6 +61,7 @@ class ARNG(LCRNG32):
 @lcrng32_init(
     add=0x1,
     mult=0x6C078965,
+    distribution=LCRNG32RandomDistribution.MODULO,
     reverse=True,
 )
 class ARNGR(LCRNG32):
-- 
2.43.0


From 7d628a87db860a8ac2b37a80c9deb0e1681e019e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:04 +0000
Subject: [PATCH 04/30] fix: accept np.uint64 advances in LCRNG64
 jump/const_jump

np.uint64 & int and np.uint64 >> int are TypeErrors outside of numba.
---
 numba_pokemon_prngs/lcrng/lcrng64.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/numba_pokemon_prngs/lcrng/lcrng64.py b/numba_pokemon_prngs/lcrng/lcrng64.py
index 198f65c..4ae6057 100644
--- a/numba_pokemon_prngs/lcrng/lcrng64.py
+++ b/numba_pokemon_prngs/lcrng/lcrng64.py
@@ -110,18 +110,20 @@ def lcrng64_init(
             return np.uint64(self.seed)
 
         def jump(self: LCRNG64, adv: np.uint64):
+            adv = np.uint64(adv)
             i = 0
             while adv:
-                if adv & 1:
+                if adv & np.uint64(1):
                     add, mult = jump_table[i]
                     self.seed = np.uint64(
                         np.uint64(self.seed) * np.uint64(mult) + np.uint64(add)
                     )
-                adv >>= 1
+                adv >>= np.uint64(1)
                 i += 1
             return np.uint64(self.seed)
 
-        def const_jump(adv: np.uint32, **kwargs) -> Callable[[LCRNG64]]:
+        def const_jump(adv: np.uint64, **kwargs) -> Callable[[LCRNG64]]:
+            adv = int(adv)
             i = 0
             mult = np.uint64(1)
             add = np.uint64(0)
-- 
2.43.0


From 34e92b3bffb331c238d1f845e70ef4e6170f2a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:04 +0000
Subject: [PATCH 05/30] fix: RNGList of inherited next functions outside of
 numba

rng_class.__dict__ does not hold methods of a parent class (next_u16, next_u32).
---
 numba_pokemon_prngs/rng_list.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/numba_pokemon_prngs/rng_list.py b/numba_pokemon_prngs/rng_list.py
index 828ebbf..0b92a6d 100644
--- a/numba_pokemon_prngs/rng_list.py
+++ b/numba_pokemon_prngs/rng_list.py
@@ -46,9 +46,9 @@ def build_rnglist(
             next_function_name
         ]
     else:
-        next_function: Callable[[PRNG], state_type] = rng_class.__dict__[
-            next_function_name
-        ]
+        next_function: Callable[[PRNG], state_type] = getattr(
+            rng_class, next_function_name
+        )
 
     @optional_jitclass(
         {
-- 
2.43.0


From fb4bc2c613dd05abe48b99fe3bcf48d7766ae185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:04 +0000
Subject: [PATCH 06/30] fix: RNGList of any state_type under numba

the list was always declared as an array of uint32.
---
 numba_pokemon_prngs/rng_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/rng_list.py b/numba_pokemon_prngs/rng_list.py
index 0b92a6d..b516621 100644
--- a/numba_pokemon_prngs/rng_list.py
+++ b/numba_pokemon_prngs/rng_list.py
@@ -52,7 +52,7 @@ def build_rnglist(
 
     @optional_jitclass(
         {
-            "list": array_type(np.uint32),  # contiguous array
+            "list": array_type(state_type),  # contiguous array
             "rng": rng_class.class_type.instance_type if USE_NUMBA else rng_class,
             "head": np.uint16,
             "pointer": np.uint16,
-- 
2.43.0


From 4510aadc5116c0849252805ecf5f35e921bfa920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:04 +0000
Subject: [PATCH 07/30] fix: RNGList larger than 0x10000 values under numba

head and pointer were truncated to 16 bits.
---
 numba_pokemon_prngs/rng_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/rng_list.py b/numba_pokemon_prngs/rng_list.py
index b516621..b985dbc 100644
--- a/numba_pokemon_prngs/rng_list.py
+++ b/numba_pokemon_prngs/rng_list.py
@@ -54,8 +54,8 @@ def build_rnglist(
         {
             "list": array_type(state_type),  # contiguous array
             "rng": rng_class.class_type.instance_type if USE_NUMBA else rng_class,
-            "head": np.uint16,
-            "pointer": np.uint16,
+            "head": np.uint32,
+            "pointer": np.uint32,
         }
     )
     class SpecificRNGList:
-- 
2.43.0


From 6c1f5ff3f8ec63b14c1c257cb971e95df54baf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:39 +0000
Subject: [PATCH 08/30] fix: support @optional_njit without arguments outside
 of numba

the decorated function was replaced by the inner decorator, so everything using
@optional_njit directly (the Gen 3 generator, get_info_table_3) failed to run.
---
 numba_pokemon_prngs/compilation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/compilation.py b/numba_pokemon_prngs/compilation.py
index 80ffd70..6bae3ae 100644
--- a/numba_pokemon_prngs/compilation.py
+++ b/numba_pokemon_prngs/compilation.py
@@ -118,7 +118,7 @@ else:
 
     def return_type(output_type, input_types):
         """Function that takes inputs and returns the return type based on the output type"""
-        return lambda *args: output_type
+        return None
 
     # pylint enable=unused-argument
 
@@ -167,7 +167,8 @@ def optional_njit(signature_or_function=None, locals=None, **options):
             **options,
         )
 
-    # TODO: support @optional_njit w/o arguments provided
+    if callable(signature_or_function):
+        return signature_or_function
 
     def wrap(func):
         return func
-- 
2.43.0


From d612794bb9b54f245e6d2f78f93e5d7ca6fb213e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:39 +0000
Subject: [PATCH 09/30] fix: encounter slot tables off by one

each slot after the first took over the last value of the slot before it
(e.g. the first grass slot was 19% and the last 2%).
---
 numba_pokemon_prngs/gen3/encounter_area_3.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/gen3/encounter_area_3.py b/numba_pokemon_prngs/gen3/encounter_area_3.py
index da621d9..a722623 100644
--- a/numba_pokemon_prngs/gen3/encounter_area_3.py
+++ b/numba_pokemon_prngs/gen3/encounter_area_3.py
@@ -15,10 +15,13 @@ def compute_table(ranges: tuple[int], greater: bool = False) -> np.array:
     """Compute encounter slot lookup table"""
     table = np.empty(100, dtype=np.uint8)
 
-    r_val = 99 if greater else 0
+    start = 99 if greater else 0
     for i, range_val in enumerate(ranges):
-        for r_val in range(r_val, range_val, -1 if greater else 1):
+        # range_val is exclusive when counting up and inclusive when counting down
+        end = range_val - 1 if greater else range_val
+        for r_val in range(start, end, -1 if greater else 1):
             table[r_val] = i
+        start = end
 
     return table
 
-- 
2.43.0


From a5fa37b7ec44b48d51c90af8167c5d926894c878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:39 +0000
Subject: [PATCH 10/30] fix: encounter rates of land and fishing encounters
 were swapped

---
 numba_pokemon_prngs/gen3/encounter_area_3.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/gen3/encounter_area_3.py b/numba_pokemon_prngs/gen3/encounter_area_3.py
index a722623..1db83cf 100644
--- a/numba_pokemon_prngs/gen3/encounter_area_3.py
+++ b/numba_pokemon_prngs/gen3/encounter_area_3.py
@@ -196,7 +196,11 @@ def get_encounter_rate(
     encounter_area: EncounterArea3, encounter_type: Encounter
 ) -> np.uint8:
     """Get encounter rate"""
-    if encounter_type == Encounter.GRASS:
+    if (
+        encounter_type == Encounter.OLD_ROD
+        or encounter_type == Encounter.GOOD_ROD
+        or encounter_type == Encounter.SUPER_ROD
+    ):
         return encounter_area.fish_rate
     if encounter_type == Encounter.ROCK_SMASH:
         return encounter_area.rock_rate
-- 
2.43.0


From 3574766d189903a8ffb773c993af87d866f862f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:39 +0000
Subject: [PATCH 11/30] fix: advance the rng past failed rock smash encounters

the first advance without an encounter made every later advance reuse its rng state.
---
 numba_pokemon_prngs/gen3/wild_generator_3.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/gen3/wild_generator_3.py b/numba_pokemon_prngs/gen3/wild_generator_3.py
index 85a8aa6..34d89dd 100644
--- a/numba_pokemon_prngs/gen3/wild_generator_3.py
+++ b/numba_pokemon_prngs/gen3/wild_generator_3.py
@@ -78,6 +78,7 @@ class WildGenerator3:
         rng.jump(initial_advances + delay)
         for advance in range(initial_advances, initial_advances + max_advances):
             go.re_init(rng.seed)
+            rng.next()
 
             # RSE uses main rng to check for rock smash encounters
             if rse and self.encounter == Encounter.ROCK_SMASH and rand_2880(go) >= rate:
@@ -144,6 +145,4 @@ class WildGenerator3:
 
             states.append(state)
 
-            rng.next()
-
         return states
-- 
2.43.0


From 5680376ce1872a58f1e6c049f204f06a94492429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:39 +0000
Subject: [PATCH 12/30] fix: only apply cute charm to species with both genders

the condition was inverted, which never ended for fixed gender species.
---
 numba_pokemon_prngs/gen3/wild_generator_3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/gen3/wild_generator_3.py b/numba_pokemon_prngs/gen3/wild_generator_3.py
index 34d89dd..684138e 100644
--- a/numba_pokemon_prngs/gen3/wild_generator_3.py
+++ b/numba_pokemon_prngs/gen3/wild_generator_3.py
@@ -95,9 +95,9 @@ class WildGenerator3:
             info = self.personal_info_table[species]
             if self.lead == Lead.CUTE_CHARM_M or self.lead == Lead.CUTE_CHARM_F:
                 if 0 < info.gender_ratio < 254:
-                    cute_charm = False
-                else:
                     cute_charm = rand_3(go) != 0
+                else:
+                    cute_charm = False
 
             # pokeblocks
             if rse_safari:
-- 
2.43.0


From 65fdb2ac9800a468d73c0ff2c797ec2ee1cfbf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:39 +0000
Subject: [PATCH 13/30] fix: whole hidden power strength outside of numba

true division left a fraction which only numba truncates.
---
 numba_pokemon_prngs/gen3/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/gen3/state.py b/numba_pokemon_prngs/gen3/state.py
index e00c228..f4ff347 100644
--- a/numba_pokemon_prngs/gen3/state.py
+++ b/numba_pokemon_prngs/gen3/state.py
@@ -66,7 +66,7 @@ class State:
                 max_iv = self.ivs[ORDER[index]]
 
         self.hidden_power = hidden_power_val * 15 // 63
-        self.hidden_power_strength = 30 + (hidden_power_strength_value * 40 / 63)
+        self.hidden_power_strength = 30 + (hidden_power_strength_value * 40 // 63)
         self.characteristic = (char_index * 5) + (max_iv % 5)
 
 
-- 
2.43.0


From 55678854501e860ae4c4eb14ac1435c335f9402a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:39 +0000
Subject: [PATCH 14/30] fix: apply nature modifiers in the order of the stats

natures are ordered atk/def/spe/spa/spd, stats are ordered atk/def/spa/spd/spe.
---
 numba_pokemon_prngs/util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/util.py b/numba_pokemon_prngs/util.py
index f1b3ffd..ce7a3c8 100644
--- a/numba_pokemon_prngs/util.py
+++ b/numba_pokemon_prngs/util.py
@@ -45,10 +45,12 @@ def rotate_right_u64(val: np.uint64, count: np.uint8) -> np.uint64:
     return np.uint64((val << (np.uint8(64) - count)) | (val >> count))
 
 
+# index of each stat natures are ordered by (atk, def, spe, spa, spd)
+NATURE_STAT_ORDER = (0, 1, 4, 2, 3)
 NATURE_MODIFIERS = np.ones((25, 5), np.float32)
 for i in range(25):
-    NATURE_MODIFIERS[i][i % 5] -= 0.1
-    NATURE_MODIFIERS[i][i // 5] += 0.1
+    NATURE_MODIFIERS[i][NATURE_STAT_ORDER[i % 5]] -= 0.1
+    NATURE_MODIFIERS[i][NATURE_STAT_ORDER[i // 5]] += 0.1
 
 
 @optional_njit(return_type(np.uint16, (np.uint16, np.uint8, np.uint8)))
-- 
2.43.0


From fe4c458be24da0c3cd0a6313a9ab5e6033640590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:39 +0000
Subject: [PATCH 15/30] fix: distinct Game values for Diamond and Platinum

DIAMOND was an alias of PLATINUM, which got the Diamond and Pearl PersonalInfo table.
---
 numba_pokemon_prngs/data/personal/__init__.py | 2 ++
 numba_pokemon_prngs/enums/game.py             | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/data/personal/__init__.py b/numba_pokemon_prngs/data/personal/__init__.py
index ea9fb4a..b0bce37 100644
--- a/numba_pokemon_prngs/data/personal/__init__.py
+++ b/numba_pokemon_prngs/data/personal/__init__.py
@@ -89,6 +89,8 @@ def get_info_table(game: Game):
         return PERSONAL_INFO_LG
     if game & (Game.DIAMOND | Game.PEARL):
         return PERSONAL_INFO_DP
+    if game & (Game.PLATINUM):
+        return PERSONAL_INFO_PT
     if game & (Game.BLACK | Game.WHITE):
         return PERSONAL_INFO_BW
     if game & (Game.BLACK2 | Game.WHITE2):
diff --git a/numba_pokemon_prngs/enums/game.py b/numba_pokemon_prngs/enums/game.py
index a6a7025..d2eb9c7 100644
--- a/numba_pokemon_prngs/enums/game.py
+++ b/numba_pokemon_prngs/enums/game.py
@@ -14,7 +14,7 @@ class Game(IntEnum):
     LEAF_GREEN = 1 << 4
     GALES = 1 << 5
     COLOSSEUM = 1 << 6
-    DIAMOND = 1 << 9
+    DIAMOND = 1 << 7
     PEARL = 1 << 8
     PLATINUM = 1 << 9
     HEART_GOLD = 1 << 10
-- 
2.43.0


From 830fbae9bebb0c5db09afa99597db833f9d46069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:51 +0000
Subject: [PATCH 16/30] fix: advance of MT/SFMT past the end of 32 bits

---
 numba_pokemon_prngs/mersenne_twister/mt.py   | 8 ++++----
 numba_pokemon_prngs/mersenne_twister/sfmt.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/numba_pokemon_prngs/mersenne_twister/mt.py b/numba_pokemon_prngs/mersenne_twister/mt.py
index 8f2ed95..fe8e113 100644
--- a/numba_pokemon_prngs/mersenne_twister/mt.py
+++ b/numba_pokemon_prngs/mersenne_twister/mt.py
@@ -38,11 +38,11 @@ class MersenneTwister:
 
     def advance(self, adv: np.uint32) -> None:
         """Advance Mersenne Twister sequence by adv"""
-        adv = np.uint32(adv)
-        adv += np.uint32(self.index)
-        while adv >= np.uint32(624):
+        # adv + index can exceed 32 bits
+        adv = np.uint64(np.uint32(adv)) + np.uint64(self.index)
+        while adv >= np.uint64(624):
             self.shuffle()
-            adv -= np.uint32(624)
+            adv -= np.uint64(624)
         self.index = np.uint16(adv)
 
     def next(self) -> np.uint32:
diff --git a/numba_pokemon_prngs/mersenne_twister/sfmt.py b/numba_pokemon_prngs/mersenne_twister/sfmt.py
index 6e8280a..c5d1525 100644
--- a/numba_pokemon_prngs/mersenne_twister/sfmt.py
+++ b/numba_pokemon_prngs/mersenne_twister/sfmt.py
@@ -297,11 +297,11 @@ class SIMDFastMersenneTwister:
 
     def advance(self, adv: np.uint32) -> None:
         """Advance SIMD-oriented Fast Mersenne Twister sequence by adv"""
-        adv = np.uint32(adv)
-        adv = (adv * np.uint32(2)) + np.uint32(self.index)
-        while adv >= np.uint32(624):
+        # each advance consumes 2 32-bit words, adv * 2 + index can exceed 32 bits
+        adv = (np.uint64(np.uint32(adv)) * np.uint64(2)) + np.uint64(self.index)
+        while adv >= np.uint64(624):
             self.shuffle()
-            adv -= np.uint32(624)
+            adv -= np.uint64(624)
         self.index = np.uint16(adv)
 
     def next(self) -> np.uint64:
-- 
2.43.0


From eb1703e81738238004c7321bd4d7468af1e05946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:51 +0000
Subject: [PATCH 17/30] fix: recompute encounter data when its cache file is
 unusable

---
 numba_pokemon_prngs/data/encounter/__init__.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/numba_pokemon_prngs/data/encounter/__init__.py b/numba_pokemon_prngs/data/encounter/__init__.py
index e3771bb..85ac32e 100644
--- a/numba_pokemon_prngs/data/encounter/__init__.py
+++ b/numba_pokemon_prngs/data/encounter/__init__.py
@@ -33,13 +33,17 @@ def pickle_cached(filename: str, encode = None, decode = None):
         def wrapped(*args, **kwargs):
             pkl_filename = filename.format(*args, **kwargs)
             if os.path.exists(pkl_filename):
-                with open(pkl_filename, "rb") as pickled_file:
-                    data = pickled_file.read()
-                    if data:
-                        data = pickle.loads(data)
-                        if decode is not None:
-                            return decode(data)
-                        return data
+                try:
+                    with open(pkl_filename, "rb") as pickled_file:
+                        data = pickled_file.read()
+                        if data:
+                            data = pickle.loads(data)
+                            if decode is not None:
+                                return decode(data)
+                            return data
+                except Exception:  # pylint: disable=broad-exception-caught
+                    # unusable file (eg. a previous write was interrupted), recompute
+                    pass
             result = function(*args, **kwargs)
             with open(pkl_filename, "wb+") as pickled_file:
                 if encode is not None:
-- 
2.43.0


From 4d88fe81a1c189ed2d89c114aac1bf9a36ba8d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:51 +0000
Subject: [PATCH 18/30] fix: encounter data import without a writable cache
 directory

---
 .../data/encounter/__init__.py                | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/numba_pokemon_prngs/data/encounter/__init__.py b/numba_pokemon_prngs/data/encounter/__init__.py
index 85ac32e..671729c 100644
--- a/numba_pokemon_prngs/data/encounter/__init__.py
+++ b/numba_pokemon_prngs/data/encounter/__init__.py
@@ -28,7 +28,11 @@ def pickle_cached(filename: str, encode = None, decode = None):
     """Cache results of a function next to the executable"""
     cache_dir = user_cache_dir("numba_pokemon_prngs", "Lincoln-LM")
     filename = cache_dir + "/" + filename
-    pathlib.Path(cache_dir).mkdir(parents=True, exist_ok=True)
+    try:
+        pathlib.Path(cache_dir).mkdir(parents=True, exist_ok=True)
+    except OSError:
+        # results are still usable when they cannot be cached
+        pass
     def wrapper(function):
         def wrapped(*args, **kwargs):
             pkl_filename = filename.format(*args, **kwargs)
@@ -45,11 +49,15 @@ def pickle_cached(filename: str, encode = None, decode = None):
                     # unusable file (eg. a previous write was interrupted), recompute
                     pass
             result = function(*args, **kwargs)
-            with open(pkl_filename, "wb+") as pickled_file:
-                if encode is not None:
-                    pickled_file.write(pickle.dumps(encode(result)))
-                else:
-                    pickle.dump(result, pickled_file)
+            try:
+                with open(pkl_filename, "wb+") as pickled_file:
+                    if encode is not None:
+                        pickled_file.write(pickle.dumps(encode(result)))
+                    else:
+                        pickle.dump(result, pickled_file)
+            except OSError:
+                # results are still usable when they cannot be cached
+                pass
             return result
         return wrapped
     return wrapper
-- 
2.43.0


From 3442dbc2d43b7d17f5526b9c8f9b2a625039063f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:51 +0000
Subject: [PATCH 19/30] fix: return the default of an absent FlatBuffer string

---
 numba_pokemon_prngs/data/fbs/flatbuffer_object.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/data/fbs/flatbuffer_object.py b/numba_pokemon_prngs/data/fbs/flatbuffer_object.py
index 2137ceb..78cb635 100644
--- a/numba_pokemon_prngs/data/fbs/flatbuffer_object.py
+++ b/numba_pokemon_prngs/data/fbs/flatbuffer_object.py
@@ -136,13 +136,13 @@ class FlatBufferObject:
 
     def read_string(self, position: int, default=None):
         """Read a string at position"""
-        array = default
         pos_offset = self._table.Offset(position)
         if pos_offset:
             array_offset = self._table.Vector(pos_offset)
             array_len = self._table.VectorLen(pos_offset)
             array = self._table.Bytes[array_offset : array_offset + array_len]
-        return array.decode("utf-8")
+            return array.decode("utf-8")
+        return default
 
     def read_init_string(self, default=None):
         """Read a string at the position of self._counter and increment the counter"""
-- 
2.43.0


From 239f14233433857c9fbe1b819c85b1405e64cc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:50 +0000
Subject: [PATCH 20/30] fix: Legends Arceus calc_slot in both modes

The loaded tables are plain structured arrays, without the field attributes
calc_slot and its callers use outside of numba, and numba can not index with
LATime/LAWeather.
---
 numba_pokemon_prngs/data/encounter/__init__.py          | 2 +-
 numba_pokemon_prngs/data/encounter/encounter_area_la.py | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/numba_pokemon_prngs/data/encounter/__init__.py b/numba_pokemon_prngs/data/encounter/__init__.py
index 671729c..999508c 100644
--- a/numba_pokemon_prngs/data/encounter/__init__.py
+++ b/numba_pokemon_prngs/data/encounter/__init__.py
@@ -314,7 +314,7 @@ def encounter_tables_la_decode(regular_dict):
     for key, value in regular_dict.items():
         table_id, slots = value
         value = EncounterAreaLA(np.uint64(table_id), len(slots))
-        value.slots = slots
+        value.slots = slots.view(np.recarray)
         map_encounter_area_lookup[np.uint64(key)] = value
     return map_encounter_area_lookup
 
diff --git a/numba_pokemon_prngs/data/encounter/encounter_area_la.py b/numba_pokemon_prngs/data/encounter/encounter_area_la.py
index 8301b7b..a7a4075 100644
--- a/numba_pokemon_prngs/data/encounter/encounter_area_la.py
+++ b/numba_pokemon_prngs/data/encounter/encounter_area_la.py
@@ -26,7 +26,8 @@ class SlotLA:
 SlotLA.dtype: np.dtype
 
 # numba doesnt like SlotLA.dtype
-SlotLA_dtype = SlotLA.dtype
+# np.record so that a slot has its fields as attributes outside of numba as well
+SlotLA_dtype = np.dtype((np.record, SlotLA.dtype))
 
 
 @optional_jitclass
@@ -43,9 +44,9 @@ class EncounterAreaLA:
     def calc_slot(self, rand: np.float32, time: LATime, weather: LAWeather) -> SlotLA:
         """Calculate encounter slot based on rand and time/weather"""
         probabilities = (
-            self.slots.base_probability
-            * self.slots.time_multipliers[:, time]
-            * self.slots.weather_multipliers[:, weather]
+            self.slots["base_probability"]
+            * self.slots["time_multipliers"][:, np.int64(time)]
+            * self.slots["weather_multipliers"][:, np.int64(weather)]
         )
         scaled_rand = rand * np.sum(probabilities)
         for i, probability in enumerate(probabilities):
-- 
2.43.0


From bbb85d9294f73f3926bdf7bcb0623ea5ae567cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 21/30] fix: same single precision calc_slot in both modes

outside of numba the weights were promoted to double precision, so draws next to
the end of a slot's share chose another slot than under numba.
---
 numba_pokemon_prngs/data/encounter/encounter_area_la.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/data/encounter/encounter_area_la.py b/numba_pokemon_prngs/data/encounter/encounter_area_la.py
index a7a4075..2c04198 100644
--- a/numba_pokemon_prngs/data/encounter/encounter_area_la.py
+++ b/numba_pokemon_prngs/data/encounter/encounter_area_la.py
@@ -44,11 +44,15 @@ class EncounterAreaLA:
     def calc_slot(self, rand: np.float32, time: LATime, weather: LAWeather) -> SlotLA:
         """Calculate encounter slot based on rand and time/weather"""
         probabilities = (
-            self.slots["base_probability"]
+            self.slots["base_probability"].astype(np.float32)
             * self.slots["time_multipliers"][:, np.int64(time)]
             * self.slots["weather_multipliers"][:, np.int64(weather)]
         )
-        scaled_rand = rand * np.sum(probabilities)
+        # single precision added up in order, as np.sum does only under numba
+        total = np.float32(0.0)
+        for probability in probabilities:
+            total += probability
+        scaled_rand = rand * total
         for i, probability in enumerate(probabilities):
             if scaled_rand < probability:
                 break
-- 
2.43.0


From 00defbd8f8eb6b767840020563d5396442428c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 22/30] fix: calc_slot never ends on a slot without a weight

for draws next to 1 rounding can leave a remainder past the last share, which
selected the last slot even when its weight is zero.
---
 numba_pokemon_prngs/data/encounter/encounter_area_la.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/numba_pokemon_prngs/data/encounter/encounter_area_la.py b/numba_pokemon_prngs/data/encounter/encounter_area_la.py
index 2c04198..9b5068e 100644
--- a/numba_pokemon_prngs/data/encounter/encounter_area_la.py
+++ b/numba_pokemon_prngs/data/encounter/encounter_area_la.py
@@ -57,4 +57,8 @@ class EncounterAreaLA:
             if scaled_rand < probability:
                 break
             scaled_rand -= probability
+        else:
+            # rounding left a remainder past the end, which slots without a weight have no share in
+            while i > 0 and probabilities[i] == 0:
+                i -= 1
         return self.slots[i]
-- 
2.43.0


From 3d00c855510d00055a027f37daedcd9aa3406423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:30 +0000
Subject: [PATCH 23/30] fix: offsets of the Gen 1 and Gen 2 PersonalInfo
 layouts

moves and growth rate (Gen 1) and hatch cycles (Gen 2) were read one byte off the
shipped files, eg. Tackle is byte 0x0F of Bulbasaur in personal_rb.
---
 numba_pokemon_prngs/data/personal/personal_info.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/numba_pokemon_prngs/data/personal/personal_info.py b/numba_pokemon_prngs/data/personal/personal_info.py
index e879a2c..907186e 100644
--- a/numba_pokemon_prngs/data/personal/personal_info.py
+++ b/numba_pokemon_prngs/data/personal/personal_info.py
@@ -34,13 +34,13 @@ class PersonalInfo1:
     type_2: U8
     catch_rate: U8
     base_exp: U8
-    _padding: unused_bytes(6)
+    _padding: unused_bytes(5)
     move_1: U8
     move_2: U8
     move_3: U8
     move_4: U8
     exp_growth: U8
-    tm_hm: unused_bytes(7)
+    tm_hm: unused_bytes(8)
 
 
 PersonalInfo1.dtype: np.dtype
@@ -65,8 +65,9 @@ class PersonalInfo2:
     item_1: U8
     item_2: U8
     gender_ratio: U8
+    _unknown: U8
     hatch_cycles: U8
-    _padding: unused_bytes(7)
+    _padding: unused_bytes(6)
     exp_growth: U8
     egg_group: U8
     tm_hm: unused_bytes(8)
-- 
2.43.0


From ade2dc16e8e0ab303d381bc29f49b88b5ae2b170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:28 +0000
Subject: [PATCH 24/30] fix: optional_jitclass(spec=...) ignored its spec in
 compiled mode

---
 numba_pokemon_prngs/compilation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/compilation.py b/numba_pokemon_prngs/compilation.py
index 6bae3ae..49527ff 100644
--- a/numba_pokemon_prngs/compilation.py
+++ b/numba_pokemon_prngs/compilation.py
@@ -138,8 +138,9 @@ def optional_jitclass(cls_or_spec=None, spec=None):
         if cls_or_spec is None:
 
             def wrap(cls):
-                spec = convert_spec_cls(None, cls)
-                return numba.experimental.jitclass(cls_or_spec=cls, spec=spec)
+                return numba.experimental.jitclass(
+                    cls_or_spec=cls, spec=convert_spec_cls(spec, cls)
+                )
 
             return wrap
 
-- 
2.43.0


From 44c30964235ce430424584ea05869d5607ec9d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:39 +0000
Subject: [PATCH 25/30] fix: unset (-1) gender of Legends Arceus slots does not
 fit uint8 under numpy 2

assigning -1 to an unsigned field raises OverflowError there, so the encounter
data could not be imported. The stored value (255) is unchanged.
---
 numba_pokemon_prngs/data/encounter/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/data/encounter/__init__.py b/numba_pokemon_prngs/data/encounter/__init__.py
index 999508c..8418bb8 100644
--- a/numba_pokemon_prngs/data/encounter/__init__.py
+++ b/numba_pokemon_prngs/data/encounter/__init__.py
@@ -346,7 +346,8 @@ def load_encounter_tables_la(map_area: LAArea):
         encounter_area_slots = encounter_area.slots.view(np.recarray)
         for i, slot in enumerate(encounter_area_fb.encounter_slots):
             encounter_area_slots[i].species = slot.species
-            encounter_area_slots[i].gender = slot.gender
+            # -1 (unset) is stored as 255
+            encounter_area_slots[i].gender = slot.gender & 0xFF
             encounter_area_slots[i].form = slot.form or 0
             encounter_area_slots[i].guaranteed_ivs = slot.guaranteed_ivs or 0
             encounter_area_slots[i].min_level = (
-- 
2.43.0


From 953b2502f424cab83eb45e6666c8b84b3d4d2c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:39 +0000
Subject: [PATCH 26/30] fix: next_float_randrange stays in double precision
 under numpy 2

1 - np.float32 is a float32 there and a double in numpy 1 and under numba.
---
 numba_pokemon_prngs/xorshift/xorshift128.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/xorshift/xorshift128.py b/numba_pokemon_prngs/xorshift/xorshift128.py
index 3bbf332..0fa48cb 100644
--- a/numba_pokemon_prngs/xorshift/xorshift128.py
+++ b/numba_pokemon_prngs/xorshift/xorshift128.py
@@ -109,4 +109,4 @@ class Xorshift128:
             0x7FFFFF
         )
 
-        return rand_float * minimum + (1 - rand_float) * maximum
+        return rand_float * minimum + (np.float64(1) - rand_float) * maximum
-- 
2.43.0


From 8517123f9588b0efd69ba4f49b9324f849ad2c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:39 +0000
Subject: [PATCH 27/30] fix: 8-bit overflow in Gen 3 stats and hidden power
 under numpy 2

a Python int no longer widens the np.uint8 it meets, so 2 * base_stats and
hidden_power_val * 15 wrapped.
---
 numba_pokemon_prngs/gen3/state.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/numba_pokemon_prngs/gen3/state.py b/numba_pokemon_prngs/gen3/state.py
index f4ff347..fe4cdf0 100644
--- a/numba_pokemon_prngs/gen3/state.py
+++ b/numba_pokemon_prngs/gen3/state.py
@@ -54,7 +54,9 @@ class State:
             hidden_power_val += (self.ivs[ORDER[i]] & 1) << i
             hidden_power_strength_value += ((self.ivs[ORDER[i]] >> 1) & 1) << i
 
-            stat = np.uint16(((2 * base_stats[i] + self.ivs[i]) * self.level) // 100)
+            stat = np.uint16(
+                ((2 * np.uint32(base_stats[i]) + self.ivs[i]) * self.level) // 100
+            )
             if i == 0:
                 self.stats[i] = stat + self.level + 10
             else:
@@ -65,8 +67,10 @@ class State:
                 char_index = index
                 max_iv = self.ivs[ORDER[index]]
 
-        self.hidden_power = hidden_power_val * 15 // 63
-        self.hidden_power_strength = 30 + (hidden_power_strength_value * 40 // 63)
+        self.hidden_power = np.uint16(hidden_power_val) * 15 // 63
+        self.hidden_power_strength = 30 + (
+            np.uint16(hidden_power_strength_value) * 40 // 63
+        )
         self.characteristic = (char_index * 5) + (max_iv % 5)
 
 
-- 
2.43.0


From 8a62d12d7d3309539d724476856a40894ff3610b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:39 +0000
Subject: [PATCH 28/30] fix: Gen 3 PID halves and encounter rate overflow under
 numpy 2

np.uint16 << 16 is 0 there and the np.uint8 encounter rate * 16 wrapped.
---
 numba_pokemon_prngs/gen3/wild_generator_3.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/numba_pokemon_prngs/gen3/wild_generator_3.py b/numba_pokemon_prngs/gen3/wild_generator_3.py
index 684138e..e6b2a8d 100644
--- a/numba_pokemon_prngs/gen3/wild_generator_3.py
+++ b/numba_pokemon_prngs/gen3/wild_generator_3.py
@@ -69,7 +69,9 @@ class WildGenerator3:
             self.game,
             self.personal_info_table,
         )
-        rate = encounter_area_3.get_encounter_rate(encounter_area, self.encounter) * 16
+        rate = 16 * np.uint16(
+            encounter_area_3.get_encounter_rate(encounter_area, self.encounter)
+        )
         rse_safari = encounter_area_3.is_rse_safari_zone(encounter_area, self.game)
         rse = self.game & (Game.RUBY | Game.SAPPHIRE | Game.EMERALD)
         cute_charm = False
@@ -108,13 +110,13 @@ class WildGenerator3:
             else:
                 search_nature = rand_25(go)
 
-            pid = go.next_u16() | (go.next_u16() << 16)
+            pid = go.next_u16() | (np.uint32(go.next_u16()) << np.uint32(16))
             while (
                 ((pid % 25) != search_nature)
                 or (cute_charm and not self.cute_charm_check(pid, info))
                 or (species == 201 and not unown_check(pid, form))
             ):
-                pid = go.next_u16() | (go.next_u16() << 16)
+                pid = go.next_u16() | (np.uint32(go.next_u16()) << np.uint32(16))
 
             if self.method == Method.METHOD_2:
                 go.next()
-- 
2.43.0


From 17e4cc38267c26267c4fc074378658fd5d66ca04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:39 +0000
Subject: [PATCH 29/30] fix: get_gender returns the documented number, not a
 boolean

np.bool can not index GENDER_SYMBOLS under numpy 2, so State.csv raised.
---
 numba_pokemon_prngs/gen3/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/gen3/util.py b/numba_pokemon_prngs/gen3/util.py
index 89fa0f0..4a31128 100644
--- a/numba_pokemon_prngs/gen3/util.py
+++ b/numba_pokemon_prngs/gen3/util.py
@@ -13,7 +13,7 @@ def get_gender(pid: np.uint32, gender_ratio: np.uint8):
         return 1
     if gender_ratio == 0:
         return 0
-    return (pid & 0xFF) < gender_ratio
+    return np.uint8((pid & 0xFF) < gender_ratio)
 
 
 @optional_njit(return_type(np.uint8, (np.uint32, np.uint16)))
-- 
2.43.0


From 626390033aa11875c6c161cb6319a1c0d5d9368c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:39 +0000
Subject: [PATCH 30/30] fix: get_modified_slots with an 8-bit game under numpy
 2

masks of later games do not fit np.uint8, which raises OverflowError there.
---
 numba_pokemon_prngs/gen3/encounter_area_3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/gen3/encounter_area_3.py b/numba_pokemon_prngs/gen3/encounter_area_3.py
index 1db83cf..1b98c94 100644
--- a/numba_pokemon_prngs/gen3/encounter_area_3.py
+++ b/numba_pokemon_prngs/gen3/encounter_area_3.py
@@ -132,7 +132,7 @@ def get_modified_slots(
     elif lead == Lead.STATIC:
         lead_type = (
             13
-            if game
+            if np.uint32(game)
             & (
                 Game.RUBY
                 | Game.SAPPHIRE
-- 
2.43.0

