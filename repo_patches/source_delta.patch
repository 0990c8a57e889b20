From 8815dfc3426032c6e4814bc452a7ab03176015e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:01 +0000
Subject: [PATCH 01/35] fix: normalise logged pon and kakan codes to the
 constructors' canonical form

---
 MahjongAI/draw.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/MahjongAI/draw.py b/MahjongAI/draw.py
index f90474f..3e5d8b4 100644
--- a/MahjongAI/draw.py
+++ b/MahjongAI/draw.py
@@ -85,20 +85,20 @@ class Naki(Draw):
         return code
 
     def _clean_pon(self):
-        _, _, which, red, *_ = self.pattern_pon()
+        _, _, which, red, _, acquired = self.pattern_pon()
         code = self.naki_code & ~(0x60)
         if red:
             code += 0x60
-            if which:
-                code -= (which - 1) << 9
+        # which = 1 if red was in the hand else 0
+        red_in_hand = red and acquired % 4 != 0
+        code -= (which - int(red_in_hand)) << 9
         return code
 
     def _clean_kakan(self):
-        _, _, which, red, *_ = self.pattern_kakan()
-        code = self.naki_code & ~(0x60)
-        if not red or which:
-            code |= 0x20
-        return code
+        color, number, _, red, exposed, _ = self.pattern_kakan()
+        # which = 1 if red was in the exposed pon else 0
+        which = int(red and exposed[0] % 4 != 0)
+        return Naki.from_kakan_info(9 * color + number, which).naki_code
 
     def _clean_minkan(self):
         _, _, which, red, *_ = self.pattern_minkan()
-- 
2.43.0


From 239fb949970e6e841d8fb1f0afa4b96704b5f903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:01 +0000
Subject: [PATCH 02/35] fix: give red-tile chi and pon calls their own
 post-turn action index

---
 MahjongAI/draw.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/draw.py b/MahjongAI/draw.py
index 3e5d8b4..1e7008d 100644
--- a/MahjongAI/draw.py
+++ b/MahjongAI/draw.py
@@ -244,8 +244,13 @@ class Naki(Draw):
         if self.is_chi():
             color, number, which, has_red, _, _ = self.pattern_chi()
             if has_red and number + which != 4:
+                # two positions remain for the called tile next to the red five
                 return (
-                    CHI_START + 63 + 6 * color + number * 2 + (number + which - 3) // 2
+                    CHI_START
+                    + 63
+                    + 6 * color
+                    + (number - 2) * 2
+                    + (which - int(number + which > 4))
                 )
             else:
                 return CHI_START + color * 21 + number * 3 + which
@@ -254,7 +259,7 @@ class Naki(Draw):
             color, number, which, has_red, _, acquired = self.pattern_pon()
             if color == 3:
                 return PON_START + 30 + number
-            elif has_red and acquired % 4 == 3:
+            elif has_red and acquired % 4 != 0:
                 return PON_START + 27 + color
             else:
                 return PON_START + 9 * color + number
-- 
2.43.0


From ceccfdd503de888631765804644fbb9e980416d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:22 +0000
Subject: [PATCH 03/35] fix: offer open kans under the canonical code logged
 kans normalise to

---
 MahjongAI/decision.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/MahjongAI/decision.py b/MahjongAI/decision.py
index 4dd7032..f00757a 100644
--- a/MahjongAI/decision.py
+++ b/MahjongAI/decision.py
@@ -88,7 +88,7 @@ def _one_and_nine_mask(
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -123,7 +123,7 @@ def _two_and_eight_mask(
             decisions[p].append(NakiDecision(p, naki, False))
 
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -185,7 +185,7 @@ def _three_and_seven_mask(
             decisions[p].append(NakiDecision(p, naki, False))
 
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -263,7 +263,7 @@ def _four_and_six_mask(
             decisions[p].append(NakiDecision(p, naki, False))
 
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -317,7 +317,7 @@ def _five_mask(
                 decisions[p].append(NakiDecision(p, naki, False))
 
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1 if is_red else 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0 if is_red else 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -336,7 +336,7 @@ def _jihai_mask(player: int, hand_tensors: np.ndarray, tile_idx: int):
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
-- 
2.43.0


From b5011f407c481fd463eab9d32bf656dd96e9df66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:22 +0000
Subject: [PATCH 04/35] fix: offer pon with three copies in hand and of a
 discarded red five

---
 MahjongAI/decision.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/MahjongAI/decision.py b/MahjongAI/decision.py
index f00757a..8b4b826 100644
--- a/MahjongAI/decision.py
+++ b/MahjongAI/decision.py
@@ -83,7 +83,7 @@ def _one_and_nine_mask(
             )
             assert naki.is_chi()
             decisions[p].append(NakiDecision(p, naki, False))
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
@@ -117,7 +117,7 @@ def _two_and_eight_mask(
                 assert naki.is_chi()
                 decisions[p].append(NakiDecision(p, naki, False))
 
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
@@ -179,7 +179,7 @@ def _three_and_seven_mask(
                     assert naki.is_chi()
                     decisions[p].append(NakiDecision(p, naki, False))
 
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
@@ -257,7 +257,7 @@ def _four_and_six_mask(
                     assert naki.is_chi()
                     decisions[p].append(NakiDecision(p, naki, False))
 
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
@@ -300,19 +300,17 @@ def _five_mask(
                 decisions[p].append(NakiDecision(p, naki, False))
 
         if player_has_red:
-            if hand_tensor[tile_idx] == 2.0:
+            if hand_tensor[tile_idx] >= 2.0:
                 naki = Naki.from_pon_info(tile_idx, 1, True, (player - p) % 4)
                 assert naki.is_pon()
                 decisions[p].append(NakiDecision(p, naki, False))
-            if black_fives == 2.0:
+            if black_fives >= 2.0:
                 naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
                 assert naki.is_pon()
                 decisions[p].append(NakiDecision(p, naki, False))
         else:
-            if hand_tensor[tile_idx] == 2.0:
-                naki = Naki.from_pon_info(
-                    tile_idx, 1 if is_red else 0, is_red, (player - p) % 4
-                )
+            if hand_tensor[tile_idx] >= 2.0:
+                naki = Naki.from_pon_info(tile_idx, 0, is_red, (player - p) % 4)
                 assert naki.is_pon()
                 decisions[p].append(NakiDecision(p, naki, False))
 
@@ -331,7 +329,7 @@ def _jihai_mask(player: int, hand_tensors: np.ndarray, tile_idx: int):
         if p == player:
             continue
 
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
-- 
2.43.0


From c41d8ac6e527cd607b477f8fb00bd930e51d14b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:22 +0000
Subject: [PATCH 05/35] fix: offer chi with the right position and red-five
 variants next to a five

---
 MahjongAI/decision.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MahjongAI/decision.py b/MahjongAI/decision.py
index 8b4b826..221e9d2 100644
--- a/MahjongAI/decision.py
+++ b/MahjongAI/decision.py
@@ -144,7 +144,7 @@ def _three_and_seven_mask(
             continue
 
         player_has_red = hand_tensors[p][34 + tile_idx // 9] > 0.0
-        black_fives = hand_tensor[tile_idx] - float(player_has_red)
+        black_fives = hand_tensor[tile_idx + 2 * coef] - float(player_has_red)
 
         if (p - player) % 4 == 1:
             if hand_tensor[tile_idx - 2 * coef] * hand_tensor[tile_idx - coef]:
@@ -206,7 +206,7 @@ def _four_and_six_mask(
             continue
 
         player_has_red = hand_tensors[p][34 + tile_idx // 9] > 0.0
-        black_fives = hand_tensor[tile_idx] - float(player_has_red)
+        black_fives = hand_tensor[tile_idx + coef] - float(player_has_red)
 
         if (p - player) % 4 == 1:
             if hand_tensor[tile_idx - 2 * coef] * hand_tensor[tile_idx - coef]:
@@ -218,7 +218,7 @@ def _four_and_six_mask(
             if hand_tensor[tile_idx - 1] * hand_tensor[tile_idx + 1]:
                 if player_has_red:
                     naki = Naki.from_chi_info(
-                        tile_idx // 9, 2 if is_four else 4, 0 if is_four else 2, True
+                        tile_idx // 9, 2 if is_four else 4, 1, True
                     )
                     assert naki.is_chi()
                     decisions[p].append(NakiDecision(p, naki, False))
@@ -226,7 +226,7 @@ def _four_and_six_mask(
                         naki = Naki.from_chi_info(
                             tile_idx // 9,
                             2 if is_four else 4,
-                            0 if is_four else 2,
+                            1,
                             False,
                         )
                         assert naki.is_chi()
-- 
2.43.0


From 7e679f08227aacb80171edf6ad0677ae015fb3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:53 +0000
Subject: [PATCH 06/35] fix: encode discards with the discard event type

---
 MahjongAI/process_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 5df14da..e0a6ccf 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -595,7 +595,7 @@ def discard2idx(who: int, tile_idx: int, is_tsumogiri: bool):
     assert 0 <= tile_idx < 37
     return (
         EventStateTypes.DISCARD << 13
-        | EventTypes.NAKI << 10
+        | EventTypes.DISCARD << 10
         | who << 8
         | int(is_tsumogiri) << 7
         | tile_idx
-- 
2.43.0


From 2aa974896b384cfee78d2fd3fc7e59b1a84335b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:53 +0000
Subject: [PATCH 07/35] fix: count every draw once against the remaining draws

A kan removed three draws: at the call, at the rinshan draw and at the new
dora indicator.
---
 MahjongAI/process_xml.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index e0a6ccf..5ac9065 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -129,7 +129,6 @@ def process(file_path: str, verbose: bool = False):
                 remaining_tiles[tile_idx] -= 1
                 for pov in remaining_tiles_pov:
                     pov[tile_idx] -= 1
-                remaining_tsumo -= 1
                 encoding_tokens.append(new_dora2idx(tile_idx))
 
             elif eventtype == "REACH":
@@ -199,9 +198,6 @@ def process(file_path: str, verbose: bool = False):
                                 decision.executed = True
                                 break
 
-                if not naki.is_chi() and not naki.is_pon():
-                    remaining_tsumo -= 1
-
                 exposed, acquired = naki.get_exposed()
                 exposed_idx = TILE2IDX[exposed]
 
-- 
2.43.0


From b44750e80964652cc7910c5653e3ce5d7e9407c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:53 +0000
Subject: [PATCH 08/35] fix: take a revealed red five out of the red slot of
 the unseen tiles

---
 MahjongAI/process_xml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 5ac9065..fb9b32b 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -124,12 +124,12 @@ def process(file_path: str, verbose: bool = False):
 
             if eventtype == "DORA":
                 tile = int(event["attr"]["hai"])
-                tile_idx = TILE2IDX[tile][0]
+                tile_idx = TILE2IDX[tile]
                 doras = doras[:] + [tile]
                 remaining_tiles[tile_idx] -= 1
                 for pov in remaining_tiles_pov:
                     pov[tile_idx] -= 1
-                encoding_tokens.append(new_dora2idx(tile_idx))
+                encoding_tokens.append(new_dora2idx(tile_idx[0]))
 
             elif eventtype == "REACH":
                 assert curr_halfturn is not None
-- 
2.43.0


From 4328e7e2b001885d20f03033154ce800a4663ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:53 +0000
Subject: [PATCH 09/35] fix: offer added kans from the tiles in hand

---
 MahjongAI/process_xml.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index fb9b32b..1c4ee65 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -362,14 +362,14 @@ def process(file_path: str, verbose: bool = False):
                 # check if kakan is possible
                 for meld in melds[player]:
                     if meld.is_pon():
-                        color, number, *_ = meld.pattern_pon()
-                        if hands[player, 9 * color + number] == 1.0:
+                        color, number, _, has_red, *_ = meld.pattern_pon()
+                        if hand_tensors[player][9 * color + number] == 1.0:
                             naki_decisions.append(
                                 NakiDecision(
                                     player,
                                     Naki.from_kakan_info(
-                                        9 * color + number, 0
-                                    ),  # TODO get accurate "which" value
+                                        9 * color + number, int(has_red)
+                                    ),
                                     executed=False,
                                 )
                             )
-- 
2.43.0


From 03a4179c6454ee24d91877fc2ed90bc8a86c7dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:53 +0000
Subject: [PATCH 10/35] fix: keep ippatsu from the accepted riichi to the
 player's next discard

---
 MahjongAI/process_xml.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 1c4ee65..e004ed5 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -156,8 +156,8 @@ def process(file_path: str, verbose: bool = False):
                         double_reaches[player] = 1
                     encoding_tokens.append(reach2idx(player))
 
-                ippatsu = ippatsu[:]
-                ippatsu[player] = 1
+                    ippatsu = ippatsu[:]
+                    ippatsu[player] = 1
 
             elif eventtype == "N":
                 assert curr_halfturn is not None
@@ -318,10 +318,6 @@ def process(file_path: str, verbose: bool = False):
                 hand_tensors_full[player][tile_idx] += 1.0
                 assert int(hand_tensors[player][:34].sum()) % 3 == 2
 
-                if ippatsu[player]:
-                    ippatsu = ippatsu[:]
-                    ippatsu[player] = 0
-
                 # check if tsumo is possible
                 agari_decisions = evaluate_tsumo(
                     player=player,
@@ -411,8 +407,6 @@ def process(file_path: str, verbose: bool = False):
 
                 halfturns.append(halfturn)
                 curr_halfturn = halfturn  # carry over
-                if sum(ippatsu):
-                    ippatsu = [0] * 4
 
             elif eventtype[0] in ["D", "E", "F", "G"]:
                 assert acquired is not None
@@ -444,6 +438,11 @@ def process(file_path: str, verbose: bool = False):
                 ].sum()
                 sutehai_tensors[player, tile_idx] = 1.0
 
+                # the chance of ippatsu ends with the player's next discard
+                if ippatsu[player]:
+                    ippatsu = ippatsu[:]
+                    ippatsu[player] = 0
+
                 for pov in remaining_tiles_pov:
                     pov[tile_idx] -= 1.0
                 remaining_tiles_pov[player][tile_idx] += 1.0
-- 
2.43.0


From 50585d25b1353610866f18c37f9a7a82aaa50a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 11/35] fix: show the discard to the samples that react to it

---
 MahjongAI/process_xml.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index e004ed5..e85bb8d 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -486,6 +486,10 @@ def process(file_path: str, verbose: bool = False):
                         continue
                     post_decisions[p][DECISION_NAKI_IDX] = decision_lst
 
+                encoding_tokens.append(
+                    discard2idx(player, tile_idx[0], tile == acquired)
+                )
+
                 half_turn = PostTurn(
                     player=player,
                     stateObj=stateObj,
@@ -495,9 +499,6 @@ def process(file_path: str, verbose: bool = False):
                 halfturns.append(half_turn)
                 curr_halfturn = half_turn  # carry over
 
-                encoding_tokens.append(
-                    discard2idx(player, tile_idx[0], tile == acquired)
-                )
                 acquired = None
 
             elif eventtype == "AGARI" or eventtype == "RYUUKYOKU":
-- 
2.43.0


From 3b9a5cd6bd0a7eccd1314fc901139498591db0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 12/35] fix: keep recorded states apart from the later course
 of the round

Samples shared the live hand, tile counts, menzen flags and melds with the
round in progress, and the state after a call still showed the menzen and
ippatsu flags from before it.
---
 MahjongAI/process_xml.py | 44 +++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index e85bb8d..7a73879 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -216,17 +216,32 @@ def process(file_path: str, verbose: bool = False):
                 if acquired is not None:
                     hand_tensors_full[player][TILE2IDX[acquired]] += 1.0
 
+                if naki.from_who() != 0:
+                    is_menzen = is_menzen[:]
+                    is_menzen[player] = 0
+                if sum(ippatsu):
+                    ippatsu = [0] * 4
+
+                if naki.is_kakan():
+                    # remove corresponding pon from melds
+                    for i, meld in enumerate(melds[player]):
+                        if meld.is_pon():
+                            color, number, *_ = meld.pattern_pon()
+                            if color * 9 + number == exposed[0] // 4:
+                                melds[player].pop(i)
+                                break
+
                 stateObj = StateObject(
                     remaining_turns=remaining_tsumo,
-                    hand_tensor=hand_tensors[player],
-                    remaining_tiles=remaining_tiles,
-                    remaining_tiles_pov=remaining_tiles_pov[player][:],
+                    hand_tensor=np.copy(hand_tensors[player]),
+                    remaining_tiles=np.copy(remaining_tiles),
+                    remaining_tiles_pov=np.copy(remaining_tiles_pov[player]),
                     sutehai_tensors=np.copy(sutehai_tensors),
                     is_menzen=is_menzen,
                     double_reaches=double_reaches,
                     reaches=reaches,  # share same reach list
                     ippatsu=ippatsu,  # share same ippatsu list
-                    melds=melds,
+                    melds=[player_melds[:] for player_melds in melds],
                     scores=scores,
                     kyotaku=kyotaku,
                     honba=honba,
@@ -238,21 +253,8 @@ def process(file_path: str, verbose: bool = False):
                     player=player,
                 )
 
-                if naki.from_who() != 0:
-                    is_menzen[player] = 0
-                if sum(ippatsu):
-                    ippatsu = [0] * 4
-
                 # in case of Kakan, create new post turn to train on chankan ron decision
                 if naki.is_kakan():
-                    # remove corresponding pon from melds
-                    for i, meld in enumerate(melds[player]):
-                        if meld.is_pon():
-                            color, number, *_ = meld.pattern_pon()
-                            if color * 9 + number == exposed[0] // 4:
-                                melds[player].pop(i)
-                                break
-
                     new_post_decisions = [[[] for _ in range(3)] for _ in range(4)]
 
                     # evaluate chankan ron
@@ -378,15 +380,15 @@ def process(file_path: str, verbose: bool = False):
 
                 stateObj = StateObject(
                     remaining_turns=remaining_tsumo,
-                    hand_tensor=hand_tensors[player],
-                    remaining_tiles=remaining_tiles,
-                    remaining_tiles_pov=remaining_tiles_pov[player][:],
+                    hand_tensor=np.copy(hand_tensors[player]),
+                    remaining_tiles=np.copy(remaining_tiles),
+                    remaining_tiles_pov=np.copy(remaining_tiles_pov[player]),
                     sutehai_tensors=np.copy(sutehai_tensors),
                     is_menzen=is_menzen,
                     double_reaches=double_reaches,
                     reaches=reaches,  # share same reach list
                     ippatsu=ippatsu,  # share same ippatsu list
-                    melds=melds,
+                    melds=[player_melds[:] for player_melds in melds],
                     scores=scores,
                     kyotaku=kyotaku,
                     honba=honba,
-- 
2.43.0


From e5ea744210a86b37d6627c2a05e48c9059d1ad39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 13/35] fix: offer no calls to players in riichi or on the last
 discard

---
 MahjongAI/process_xml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 7a73879..335f9b2 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -486,6 +486,9 @@ def process(file_path: str, verbose: bool = False):
                     if p == player:
                         assert len(decision_lst) == 0
                         continue
+                    # no calls in riichi or on the last discard
+                    if reaches[p] or remaining_tsumo == 0:
+                        continue
                     post_decisions[p][DECISION_NAKI_IDX] = decision_lst
 
                 encoding_tokens.append(
-- 
2.43.0


From 5991145e26601cbb12f98f02d9293a68c1132a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 14/35] fix: mark the win that ended the round as executed

---
 MahjongAI/process_xml.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 335f9b2..0bb40c2 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -523,7 +523,17 @@ def process(file_path: str, verbose: bool = False):
                 result.append(
                     AgariResult(list(map(int, event["attr"]["sc"].split(","))))
                 )
-                # TODO: make decision executed = True
+                # the win is taken on the last half-turn of the round
+                winner = int(event["attr"]["who"])
+                if isinstance(halfturns[-1], DuringTurn):
+                    agari_decisions = halfturns[-1].decisions[DECISION_AGARI_IDX]
+                else:
+                    agari_decisions = halfturns[-1].decisions[winner][
+                        DECISION_AGARI_IDX
+                    ]
+                for decision in agari_decisions:
+                    if decision.player == winner:
+                        decision.executed = True
 
             elif event["event"] == "RYUUKYOKU":
                 result.append(
-- 
2.43.0


From 8b27966c9f69b35f2e299ed2355b36aa7120699a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 15/35] fix: evaluate wins on the tiles that complete the hand

The winning copy was mostly not among the copies the converter picks, which
rejected the win, and a hand with all four fives was read with a six.
---
 MahjongAI/utils/agari.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/MahjongAI/utils/agari.py b/MahjongAI/utils/agari.py
index 7e2b2d7..6b14cae 100644
--- a/MahjongAI/utils/agari.py
+++ b/MahjongAI/utils/agari.py
@@ -69,9 +69,9 @@ def evaluate_ron(
                 print(f"Player {p} is furiten")
             continue
 
-        hand_tensor[discarded_tile_idx] += 1
+        hand_tensor[TILE2IDX[discarded_tile]] += 1
         man, pin, sou, honors = hand_tensor2strs(hand_tensor)
-        hand_tensor[discarded_tile_idx] -= 1
+        hand_tensor[TILE2IDX[discarded_tile]] -= 1
 
         tiles = TilesConverter.string_to_136_array(
             man=man, pin=pin, sou=sou, honors=honors, has_aka_dora=True
@@ -138,7 +138,7 @@ def evaluate_ron(
         # TODO: use Agari.is_agari instead for better performance
         result: HandResponse = hand_calculator.estimate_hand_value(
             tiles=tiles,
-            win_tile=discarded_tile,
+            win_tile=_find_tile(tiles, discarded_tile),
             melds=melds,
             dora_indicators=doras,
             config=config,
@@ -244,7 +244,7 @@ def evaluate_tsumo(
 
     result: HandResponse = hand_calculator.estimate_hand_value(
         tiles=tiles,
-        win_tile=tsumo_tile,
+        win_tile=_find_tile(tiles, tsumo_tile),
         melds=melds,
         dora_indicators=doras,
         config=config,
@@ -259,13 +259,25 @@ def evaluate_tsumo(
     return decisions
 
 
+def _find_tile(tiles, tile):
+    # the copies in tiles are chosen by the converter, any equal tile will do
+    if tile in tiles:
+        return tile
+    return next(t for t in tiles if t // 4 == tile // 4)
+
+
 def hand_tensor2strs(hand_tensor):
     tile_strs = []
 
     for i in range(0, 27, 9):
         lst = []
+        red = int(hand_tensor[34 + i // 9])
         for j in range(9):
-            lst += [j + 1] * int(hand_tensor[i + j])
+            if j == 4:
+                # red fives are written as 0
+                lst += [0] * red + [5] * (int(hand_tensor[i + j]) - red)
+            else:
+                lst += [j + 1] * int(hand_tensor[i + j])
         tile_strs.append("".join(list(map(str, lst))))
 
     lst = []
-- 
2.43.0


From 56b27257340e1e26786e9302957087c5d7ae97b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 16/35] fix: treat a win on the last discard as houtei

The evaluator rejects haitei without a tsumo, so these wins were never offered.
---
 MahjongAI/utils/agari.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/utils/agari.py b/MahjongAI/utils/agari.py
index 6b14cae..31ad018 100644
--- a/MahjongAI/utils/agari.py
+++ b/MahjongAI/utils/agari.py
@@ -124,8 +124,8 @@ def evaluate_ron(
             is_ippatsu=ippatsu[p],
             is_rinshan=False,
             is_chankan=is_chankan,
-            is_haitei=is_haitei,
-            is_houtei=False,
+            is_haitei=False,
+            is_houtei=is_haitei,
             is_daburu_riichi=double_reaches[p],
             is_renhou=is_renhou[p],
             player_wind=player_wind,
-- 
2.43.0


From c0ec45195b2e40cb3761b7e2b2b022a3dab613b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:23 +0000
Subject: [PATCH 17/35] fix: let a closed kan end the first-turn bonuses

---
 MahjongAI/process_xml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 0bb40c2..2ef9256 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -151,7 +151,7 @@ def process(file_path: str, verbose: bool = False):
                     kyotaku += 1
                     scores = scores.copy()
                     scores[player] -= 10
-                    if cycles <= 4 and min(is_menzen):
+                    if cycles <= 4 and not any(melds):
                         double_reaches = double_reaches[:]
                         double_reaches[player] = 1
                     encoding_tokens.append(reach2idx(player))
@@ -333,7 +333,7 @@ def process(file_path: str, verbose: bool = False):
                     is_rinshan=False,
                     double_reaches=double_reaches,
                     is_tenhou=(cycles == 1),
-                    is_chiihou=(2 <= cycles <= 4 and min(is_menzen)),
+                    is_chiihou=(2 <= cycles <= 4 and not any(melds)),
                     player_wind=roundinfo.player_wind,
                     round_wind=roundinfo.round_wind,
                     kyotaku=kyotaku,
-- 
2.43.0


From 8941dc945b5d4ff8a1e1a30e6424466b54a9a50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:23 +0000
Subject: [PATCH 18/35] fix: do not score renhou, which the logged games do not
 have

---
 MahjongAI/process_xml.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 2ef9256..d15f0b9 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -464,10 +464,7 @@ def process(file_path: str, verbose: bool = False):
                     is_chankan=False,
                     is_haitei=(remaining_tsumo == 0),
                     double_reaches=double_reaches,
-                    is_renhou=[
-                        (cycles <= 3 and player >= cycles and min(is_menzen))
-                        for _ in range(4)
-                    ],
+                    is_renhou=[False] * 4,
                     player_wind=roundinfo.player_wind,
                     round_wind=roundinfo.round_wind,
                     kyotaku=kyotaku,
-- 
2.43.0


From 3d8c49183828590d2cff23e5f31c8d5c9e86b66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:41 +0000
Subject: [PATCH 19/35] fix: evaluate wins with the winner's seat wind and the
 round wind

The evaluator takes winds as tiles, so value winds never counted.
---
 MahjongAI/utils/agari.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/MahjongAI/utils/agari.py b/MahjongAI/utils/agari.py
index 31ad018..591bce2 100644
--- a/MahjongAI/utils/agari.py
+++ b/MahjongAI/utils/agari.py
@@ -8,6 +8,7 @@ from mahjong.hand_calculating.hand import HandCalculator
 from mahjong.hand_calculating.hand_response import HandResponse
 from mahjong.hand_calculating.hand_config import HandConfig, OptionalRules
 from mahjong.meld import Meld
+from mahjong.constants import EAST
 from typing import List
 
 from MahjongAI.draw import Naki
@@ -128,8 +129,8 @@ def evaluate_ron(
             is_houtei=is_haitei,
             is_daburu_riichi=double_reaches[p],
             is_renhou=is_renhou[p],
-            player_wind=player_wind,
-            round_wind=round_wind,
+            player_wind=EAST + (p - player_wind) % 4,
+            round_wind=EAST + round_wind,
             kyoutaku_number=kyotaku,
             tsumi_number=honba,
             options=OPTIONS,
@@ -235,8 +236,8 @@ def evaluate_tsumo(
         is_tenhou=is_tenhou,
         is_chiihou=is_chiihou,
         is_renhou=False,
-        player_wind=player_wind,
-        round_wind=round_wind,
+        player_wind=EAST + (player - player_wind) % 4,
+        round_wind=EAST + round_wind,
         kyoutaku_number=kyotaku,
         tsumi_number=honba,
         options=OPTIONS,
-- 
2.43.0


From 82bda3592696f75ecd0af9be8c00082b1b1900b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:41 +0000
Subject: [PATCH 20/35] fix: offer wins on the replacement draw after a kan

---
 MahjongAI/process_xml.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index d15f0b9..fd42b3f 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -107,6 +107,7 @@ def process(file_path: str, verbose: bool = False):
         curr_halfturn = None
         cycles = 0
         acquired = None
+        after_kan = False
         result_idx = None
 
         if verbose:
@@ -301,6 +302,7 @@ def process(file_path: str, verbose: bool = False):
                 if naki.is_minkan() or naki.is_ankan() or naki.is_kakan():
                     cycles += 1
                     acquired = None
+                    after_kan = True
 
             elif eventtype[0] in ["T", "U", "V", "W"]:
                 assert acquired is None
@@ -329,8 +331,8 @@ def process(file_path: str, verbose: bool = False):
                     doras=doras,
                     reaches=reaches,
                     ippatsu=ippatsu,
-                    is_haitei=(remaining_tsumo == 0),
-                    is_rinshan=False,
+                    is_haitei=(remaining_tsumo == 0 and not after_kan),
+                    is_rinshan=after_kan,
                     double_reaches=double_reaches,
                     is_tenhou=(cycles == 1),
                     is_chiihou=(2 <= cycles <= 4 and not any(melds)),
@@ -339,6 +341,7 @@ def process(file_path: str, verbose: bool = False):
                     kyotaku=kyotaku,
                     honba=honba,
                 )
+                after_kan = False
 
                 # check if reach is possible
                 reach_decisions = []
-- 
2.43.0


From 0757ef7bd8c3185cdff53daf0fe3b365ef0acae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:15 +0000
Subject: [PATCH 21/35] fix: embed the fields an event has instead of those it
 lacks

The masks of the event encoder were inverted, which left the embeddings of
real events at zero and filled the padding.
---
 MahjongAI/agents/transformer.py            | 18 +++++++++---------
 MahjongAI/agents/transformer_conv.py       | 18 +++++++++---------
 MahjongAI/agents/transformer_conv_large.py | 18 +++++++++---------
 3 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/MahjongAI/agents/transformer.py b/MahjongAI/agents/transformer.py
index a677569..7c96857 100644
--- a/MahjongAI/agents/transformer.py
+++ b/MahjongAI/agents/transformer.py
@@ -197,7 +197,7 @@ class Encoder(nn.Module):
         type_emb = self.type_embedding(
             adjusted_embedding_type
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = event_type == EventStateTypes.EMPTY
+        mask = event_type != EventStateTypes.EMPTY
         type_emb = type_emb * mask.unsqueeze(-1).float()
 
         # retrieve tile embeddings if event_type is DISCARD or NEW_DORA
@@ -206,8 +206,8 @@ class Encoder(nn.Module):
         tile_emb = self.tile_embedding(
             adjusted_tile_encoding
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) & (
-            event_type != EventStateTypes.NEW_DORA
+        mask = (event_type == EventStateTypes.DISCARD) | (
+            event_type == EventStateTypes.NEW_DORA
         )
         tile_emb = tile_emb * mask.unsqueeze(-1).float()
 
@@ -215,9 +215,9 @@ class Encoder(nn.Module):
         player_idx = player_idx.to(self.player_coding_table.device)
         player_emb = self.player_coding_table[player_idx]  # Shape: (B, T, EMBD_SIZE)
         mask = (
-            (event_type != EventStateTypes.DISCARD)
-            & (event_type != EventStateTypes.DURING)
-            & (event_type != EventStateTypes.POST)
+            (event_type == EventStateTypes.DISCARD)
+            | (event_type == EventStateTypes.DURING)
+            | (event_type == EventStateTypes.POST)
         ).to(player_emb.device)
         player_emb = player_emb * mask.unsqueeze(-1).float()
         player_emb = player_emb.to(device)
@@ -226,7 +226,7 @@ class Encoder(nn.Module):
         tsumogiri_emb = self.tsumogiri_embedding(
             torch.tensor([0], device=device)
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) | (tsumogiri == 0)
+        mask = (event_type == EventStateTypes.DISCARD) & (tsumogiri != 0)
         tsumogiri_emb = tsumogiri_emb * mask.unsqueeze(-1).float()
 
         # Retrieve position encodings (shape: (150, EMBD_SIZE)) if embedding type is not EMPTY
@@ -242,7 +242,7 @@ class Encoder(nn.Module):
         during_naki_emb = self.during_naki_embedding(
             adjusted_during_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DURING) | (naki_idx < 3)
+        mask = (event_type == EventStateTypes.DURING) & (naki_idx >= 3)
         during_naki_emb = during_naki_emb * mask.unsqueeze(-1).float()
 
         # retrieve post naki encodings if event_type is POST and naki_idx is >= 2
@@ -250,7 +250,7 @@ class Encoder(nn.Module):
         post_naki_emb = self.post_naki_embedding(
             adjusted_post_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.POST) | (naki_idx < 2)
+        mask = (event_type == EventStateTypes.POST) & (naki_idx >= 2)
         post_naki_emb = post_naki_emb * mask.unsqueeze(-1).float()
 
         x = (
diff --git a/MahjongAI/agents/transformer_conv.py b/MahjongAI/agents/transformer_conv.py
index 04d844f..e01f769 100644
--- a/MahjongAI/agents/transformer_conv.py
+++ b/MahjongAI/agents/transformer_conv.py
@@ -197,7 +197,7 @@ class Encoder(nn.Module):
         type_emb = self.type_embedding(
             adjusted_embedding_type
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = event_type == EventStateTypes.EMPTY
+        mask = event_type != EventStateTypes.EMPTY
         type_emb = type_emb * mask.unsqueeze(-1).float()
 
         # retrieve tile embeddings if event_type is DISCARD or NEW_DORA
@@ -206,8 +206,8 @@ class Encoder(nn.Module):
         tile_emb = self.tile_embedding(
             adjusted_tile_encoding
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) & (
-            event_type != EventStateTypes.NEW_DORA
+        mask = (event_type == EventStateTypes.DISCARD) | (
+            event_type == EventStateTypes.NEW_DORA
         )
         tile_emb = tile_emb * mask.unsqueeze(-1).float()
 
@@ -215,9 +215,9 @@ class Encoder(nn.Module):
         player_idx = player_idx.to(self.player_coding_table.device)
         player_emb = self.player_coding_table[player_idx]  # Shape: (B, T, EMBD_SIZE)
         mask = (
-            (event_type != EventStateTypes.DISCARD)
-            & (event_type != EventStateTypes.DURING)
-            & (event_type != EventStateTypes.POST)
+            (event_type == EventStateTypes.DISCARD)
+            | (event_type == EventStateTypes.DURING)
+            | (event_type == EventStateTypes.POST)
         ).to(player_emb.device)
         player_emb = player_emb * mask.unsqueeze(-1).float()
         player_emb = player_emb.to(device)
@@ -226,7 +226,7 @@ class Encoder(nn.Module):
         tsumogiri_emb = self.tsumogiri_embedding(
             torch.tensor([0], device=device)
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) | (tsumogiri == 0)
+        mask = (event_type == EventStateTypes.DISCARD) & (tsumogiri != 0)
         tsumogiri_emb = tsumogiri_emb * mask.unsqueeze(-1).float()
 
         # Retrieve position encodings (shape: (150, EMBD_SIZE)) if embedding type is not EMPTY
@@ -242,7 +242,7 @@ class Encoder(nn.Module):
         during_naki_emb = self.during_naki_embedding(
             adjusted_during_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DURING) | (naki_idx < 3)
+        mask = (event_type == EventStateTypes.DURING) & (naki_idx >= 3)
         during_naki_emb = during_naki_emb * mask.unsqueeze(-1).float()
 
         # retrieve post naki encodings if event_type is POST and naki_idx is >= 2
@@ -250,7 +250,7 @@ class Encoder(nn.Module):
         post_naki_emb = self.post_naki_embedding(
             adjusted_post_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.POST) | (naki_idx < 2)
+        mask = (event_type == EventStateTypes.POST) & (naki_idx >= 2)
         post_naki_emb = post_naki_emb * mask.unsqueeze(-1).float()
 
         x = (
diff --git a/MahjongAI/agents/transformer_conv_large.py b/MahjongAI/agents/transformer_conv_large.py
index 75bbec1..c38cb62 100644
--- a/MahjongAI/agents/transformer_conv_large.py
+++ b/MahjongAI/agents/transformer_conv_large.py
@@ -197,7 +197,7 @@ class Encoder(nn.Module):
         type_emb = self.type_embedding(
             adjusted_embedding_type
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = event_type == EventStateTypes.EMPTY
+        mask = event_type != EventStateTypes.EMPTY
         type_emb = type_emb * mask.unsqueeze(-1).float()
 
         # retrieve tile embeddings if event_type is DISCARD or NEW_DORA
@@ -206,8 +206,8 @@ class Encoder(nn.Module):
         tile_emb = self.tile_embedding(
             adjusted_tile_encoding
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) & (
-            event_type != EventStateTypes.NEW_DORA
+        mask = (event_type == EventStateTypes.DISCARD) | (
+            event_type == EventStateTypes.NEW_DORA
         )
         tile_emb = tile_emb * mask.unsqueeze(-1).float()
 
@@ -215,9 +215,9 @@ class Encoder(nn.Module):
         player_idx = player_idx.to(self.player_coding_table.device)
         player_emb = self.player_coding_table[player_idx]  # Shape: (B, T, EMBD_SIZE)
         mask = (
-            (event_type != EventStateTypes.DISCARD)
-            & (event_type != EventStateTypes.DURING)
-            & (event_type != EventStateTypes.POST)
+            (event_type == EventStateTypes.DISCARD)
+            | (event_type == EventStateTypes.DURING)
+            | (event_type == EventStateTypes.POST)
         ).to(player_emb.device)
         player_emb = player_emb * mask.unsqueeze(-1).float()
         player_emb = player_emb.to(device)
@@ -226,7 +226,7 @@ class Encoder(nn.Module):
         tsumogiri_emb = self.tsumogiri_embedding(
             torch.tensor([0], device=device)
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) | (tsumogiri == 0)
+        mask = (event_type == EventStateTypes.DISCARD) & (tsumogiri != 0)
         tsumogiri_emb = tsumogiri_emb * mask.unsqueeze(-1).float()
 
         # Retrieve position encodings (shape: (150, EMBD_SIZE)) if embedding type is not EMPTY
@@ -242,7 +242,7 @@ class Encoder(nn.Module):
         during_naki_emb = self.during_naki_embedding(
             adjusted_during_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DURING) | (naki_idx < 3)
+        mask = (event_type == EventStateTypes.DURING) & (naki_idx >= 3)
         during_naki_emb = during_naki_emb * mask.unsqueeze(-1).float()
 
         # retrieve post naki encodings if event_type is POST and naki_idx is >= 2
@@ -250,7 +250,7 @@ class Encoder(nn.Module):
         post_naki_emb = self.post_naki_embedding(
             adjusted_post_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.POST) | (naki_idx < 2)
+        mask = (event_type == EventStateTypes.POST) & (naki_idx >= 2)
         post_naki_emb = post_naki_emb * mask.unsqueeze(-1).float()
 
         x = (
-- 
2.43.0


From d3fe5f927c406952de49c109eff2dd5d8ff5bc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:21 +0000
Subject: [PATCH 22/35] fix: label turns with the executed decision, not the
 last decision kind

The loop variable overwrote the label, so every during-turn sample without an
executed call was labelled riichi.
---
 MahjongAI/agents/transformer.py              | 10 +++++-----
 MahjongAI/agents/transformer_conv.py         | 10 +++++-----
 MahjongAI/agents/transformer_conv_large.py   | 10 +++++-----
 MahjongAI/agents/transformer_conv_ordered.py | 10 +++++-----
 4 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/MahjongAI/agents/transformer.py b/MahjongAI/agents/transformer.py
index 7c96857..8e4a662 100644
--- a/MahjongAI/agents/transformer.py
+++ b/MahjongAI/agents/transformer.py
@@ -819,7 +819,7 @@ class TransformerTensorProcessor:
             filter_tensor = torch.zeros(71, dtype=torch.float32, device=device)
             filter_tensor[0] = 1.0  # pass
 
-            decision_idx = 0
+            result = 0
 
             for decision_idx, decision_type in enumerate(turn.decisions):
                 if not decision_type:
@@ -830,12 +830,12 @@ class TransformerTensorProcessor:
                 if decision_idx == DECISION_AGARI_IDX:
                     filter_tensor[1] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 1
+                        result = 1
 
                 elif decision_idx == DECISION_REACH_IDX:
                     filter_tensor[2] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 2
+                        result = 2
 
                 elif decision_idx == DECISION_NAKI_IDX:
                     for decision in decision_type:
@@ -844,12 +844,12 @@ class TransformerTensorProcessor:
                         idx = meld.get_during_turn_filter_idx()
                         filter_tensor[idx] = 1.0
                         if decision.executed:
-                            decision_idx = idx
+                            result = idx
 
                 else:
                     raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
-            y.append(decision_idx)
+            y.append(result)
             filter_tensors.append(filter_tensor)  # Shape: (71,)
 
         encoding_tokens_batch = (
diff --git a/MahjongAI/agents/transformer_conv.py b/MahjongAI/agents/transformer_conv.py
index e01f769..95248a1 100644
--- a/MahjongAI/agents/transformer_conv.py
+++ b/MahjongAI/agents/transformer_conv.py
@@ -798,7 +798,7 @@ class TransformerTensorProcessor:
             filter_tensor = torch.zeros(71, dtype=torch.float32, device=device)
             filter_tensor[0] = 1.0  # pass
 
-            decision_idx = 0
+            result = 0
 
             for decision_idx, decision_type in enumerate(turn.decisions):
                 if not decision_type:
@@ -809,12 +809,12 @@ class TransformerTensorProcessor:
                 if decision_idx == DECISION_AGARI_IDX:
                     filter_tensor[1] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 1
+                        result = 1
 
                 elif decision_idx == DECISION_REACH_IDX:
                     filter_tensor[2] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 2
+                        result = 2
 
                 elif decision_idx == DECISION_NAKI_IDX:
                     for decision in decision_type:
@@ -823,12 +823,12 @@ class TransformerTensorProcessor:
                         idx = meld.get_during_turn_filter_idx()
                         filter_tensor[idx] = 1.0
                         if decision.executed:
-                            decision_idx = idx
+                            result = idx
 
                 else:
                     raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
-            y.append(decision_idx)
+            y.append(result)
             filter_tensors.append(filter_tensor)  # Shape: (71,)
 
         encoding_tokens_batch = (
diff --git a/MahjongAI/agents/transformer_conv_large.py b/MahjongAI/agents/transformer_conv_large.py
index c38cb62..022c772 100644
--- a/MahjongAI/agents/transformer_conv_large.py
+++ b/MahjongAI/agents/transformer_conv_large.py
@@ -798,7 +798,7 @@ class TransformerTensorProcessor:
             filter_tensor = torch.zeros(71, dtype=torch.float32, device=device)
             filter_tensor[0] = 1.0  # pass
 
-            decision_idx = 0
+            result = 0
 
             for decision_idx, decision_type in enumerate(turn.decisions):
                 if not decision_type:
@@ -809,12 +809,12 @@ class TransformerTensorProcessor:
                 if decision_idx == DECISION_AGARI_IDX:
                     filter_tensor[1] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 1
+                        result = 1
 
                 elif decision_idx == DECISION_REACH_IDX:
                     filter_tensor[2] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 2
+                        result = 2
 
                 elif decision_idx == DECISION_NAKI_IDX:
                     for decision in decision_type:
@@ -823,12 +823,12 @@ class TransformerTensorProcessor:
                         idx = meld.get_during_turn_filter_idx()
                         filter_tensor[idx] = 1.0
                         if decision.executed:
-                            decision_idx = idx
+                            result = idx
 
                 else:
                     raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
-            y.append(decision_idx)
+            y.append(result)
             filter_tensors.append(filter_tensor)  # Shape: (71,)
 
         encoding_tokens_batch = (
diff --git a/MahjongAI/agents/transformer_conv_ordered.py b/MahjongAI/agents/transformer_conv_ordered.py
index 1c146c8..dc50b86 100644
--- a/MahjongAI/agents/transformer_conv_ordered.py
+++ b/MahjongAI/agents/transformer_conv_ordered.py
@@ -909,7 +909,7 @@ class TransformerTensorProcessor:
             )
             filter_tensor[0] = 1.0  # pass
 
-            decision_idx = 0
+            result = 0
 
             for decision_idx, decision_type in enumerate(turn.decisions):
                 if not decision_type:
@@ -920,12 +920,12 @@ class TransformerTensorProcessor:
                 if decision_idx == DECISION_AGARI_IDX:
                     filter_tensor[1] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 1
+                        result = 1
 
                 elif decision_idx == DECISION_REACH_IDX:
                     filter_tensor[2] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 2
+                        result = 2
 
                 elif decision_idx == DECISION_NAKI_IDX:
                     for decision in decision_type:
@@ -939,12 +939,12 @@ class TransformerTensorProcessor:
                         ), f"Filter idx {idx} out of range for DURING_TURN_ACTION_DIM"
                         filter_tensor[idx] = 1.0
                         if decision.executed:
-                            decision_idx = idx
+                            result = idx
 
                 else:
                     raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
-            y.append(decision_idx)
+            y.append(result)
             filter_tensors.append(filter_tensor)  # Shape: (71,)
             player_tensor.append(turn.player)
 
-- 
2.43.0


From 4877637ae083f2d93dd88faf649d236de5c16da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 23/35] fix: skip a malformed game instead of ending the
 training run

---
 MahjongAI/utils/dataloader.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/MahjongAI/utils/dataloader.py b/MahjongAI/utils/dataloader.py
index e330fdd..ed6c462 100644
--- a/MahjongAI/utils/dataloader.py
+++ b/MahjongAI/utils/dataloader.py
@@ -1,5 +1,4 @@
 import os
-import sys
 import torch
 
 from MahjongAI.process_xml import process, InvalidGameException
@@ -39,7 +38,7 @@ class DataLoader:
                 continue  # Skip to the next file
             except AssertionError as e:
                 print(f"Assertion error: {e} happened in {filename}")
-                sys.exit(1) # TODO: remove this line
+                continue
             except Exception as e:
                 print(f"Unexpected error: {e} happened in {filename}")
                 continue
-- 
2.43.0


From a1750e55f38424915ceae0f4684fd139908b4533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 24/35] fix: do not yield a batch without games

---
 MahjongAI/utils/dataloader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MahjongAI/utils/dataloader.py b/MahjongAI/utils/dataloader.py
index ed6c462..0697169 100644
--- a/MahjongAI/utils/dataloader.py
+++ b/MahjongAI/utils/dataloader.py
@@ -47,6 +47,9 @@ class DataLoader:
             all_halfturns_list.append(all_halfturns)
             all_encoding_tokens_list.append(all_encoding_tokens)
 
+        if not all_halfturns_list:
+            raise StopIteration
+
         self.log_func(f"{self.__repr__()} - Batch {self.batch_count}")
 
         return all_halfturns_list, all_encoding_tokens_list
-- 
2.43.0


From 83e3030ee83bb21297d688ef0872df40ee17c6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 25/35] fix: publish checkpoints only once they are completely
 written

A run interrupted while saving left a truncated file that every later run
resumed from.
---
 MahjongAI/supervised_learning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/supervised_learning.py b/MahjongAI/supervised_learning.py
index beb9ae8..71a48d5 100644
--- a/MahjongAI/supervised_learning.py
+++ b/MahjongAI/supervised_learning.py
@@ -179,7 +179,8 @@ def train(model_name: str, max_iters: int, verbose: bool = True):
             model_path = os.path.join(
                 checkpoint_dir, f"model_{model_name}_checkpoint_iter_{iter}.pt"
             )
-            torch.save(model.state_dict(), model_path)
+            torch.save(model.state_dict(), model_path + ".tmp")
+            os.replace(model_path + ".tmp", model_path)
             log_message(f"Model saved at {model_path}")
 
         train_dataloader.reset()
-- 
2.43.0


From 200ba0b61e5dc958a87cc3cf4906b1f2f2918bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 26/35] fix: leave the red five out of the terminals and
 honours

---
 MahjongAI/utils/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MahjongAI/utils/constants.py b/MahjongAI/utils/constants.py
index 52381ca..0b10960 100644
--- a/MahjongAI/utils/constants.py
+++ b/MahjongAI/utils/constants.py
@@ -17,7 +17,7 @@ MAX_SEQUENCE_LENGTH = 150
 
 
 YAOCHU_TENSOR = np.zeros(37)
-YAOCHU_TENSOR[[0, 8, 9, 17, 18, 26, 27, 28, 29, 30, 31, 32, 33, 34]] = 1.0
+YAOCHU_TENSOR[[0, 8, 9, 17, 18, 26, 27, 28, 29, 30, 31, 32, 33]] = 1.0
 
 
 DECISION_AGARI_IDX = 0
-- 
2.43.0


From f10f74ad026bd973be4d54beb528f9ae6b6771c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 27/35] fix: count red fives once when deriving the number of
 melds

---
 MahjongAI/utils/shanten.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MahjongAI/utils/shanten.py b/MahjongAI/utils/shanten.py
index e699159..d0bf034 100644
--- a/MahjongAI/utils/shanten.py
+++ b/MahjongAI/utils/shanten.py
@@ -9,7 +9,7 @@ from MahjongAI.utils.constants import YAOCHU_TENSOR
 class ShantenSolver:
     def _init(self, hand_tensor: np.ndarray):
         self.hand_tensor = hand_tensor
-        self.n_melds = (14 - self.hand_tensor.sum()) // 3
+        self.n_melds = (14 - self.hand_tensor[:34].sum()) // 3
         self.n_mentsu = self.n_melds + sum(self.hand_tensor[27:] >= 3.0)
         self.n_taatsu = 0
         self.n_toitsu = sum(self.hand_tensor[27:] == 2.0)
-- 
2.43.0


From a913ea306b9e154387a103e571112af1dcbb3b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:56 +0000
Subject: [PATCH 28/35] fix: offer riichi only to players who can pay the stick
 and draw again

---
 MahjongAI/process_xml.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index fd42b3f..2217359 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -345,7 +345,13 @@ def process(file_path: str, verbose: bool = False):
 
                 # check if reach is possible
                 reach_decisions = []
-                if not reaches[player] and is_menzen[player]:
+                # (the stick takes 1000 points, and the player needs one more draw)
+                if (
+                    not reaches[player]
+                    and is_menzen[player]
+                    and scores[player] >= 10
+                    and remaining_tsumo >= 4
+                ):
                     shanten = shanten_solver.calculate_shanten(
                         hand_tensors[player][:34]
                     )
-- 
2.43.0


From bf8c650d6a1b30073ee84981c94140f92de5dea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:06 +0000
Subject: [PATCH 29/35] fix: offer no kan on the last draw

---
 MahjongAI/process_xml.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 2217359..f89b2eb 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -381,6 +381,10 @@ def process(file_path: str, verbose: bool = False):
                                 )
                             )
 
+                # there is no replacement tile for a kan on the last draw
+                if remaining_tsumo == 0:
+                    naki_decisions = []
+
                 during_decisions = [
                     agari_decisions,
                     reach_decisions,
-- 
2.43.0


From 76a4e3cd1022a92b37fea1dc60fdb661b78f0806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:29 +0000
Subject: [PATCH 30/35] fix: keep training when a batch of games yields no
 sample

---
 MahjongAI/supervised_learning.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/supervised_learning.py b/MahjongAI/supervised_learning.py
index 71a48d5..2441478 100644
--- a/MahjongAI/supervised_learning.py
+++ b/MahjongAI/supervised_learning.py
@@ -150,6 +150,7 @@ def train(model_name: str, max_iters: int, verbose: bool = True):
         for batch_count, (all_halfturns_list, all_encoding_tokens_list) in enumerate(
             train_dataloader
         ):
+            loss = None
             for logits, loss in model(
                 all_halfturns_list, all_encoding_tokens_list, sample=True
             ):
@@ -168,8 +169,9 @@ def train(model_name: str, max_iters: int, verbose: bool = True):
 
             if (batch_count * batch_size) % 1000 < batch_size:
                 val_loss = estimate_loss(val_dataloader, model, batch_size)
+                train_loss = loss.item() if loss is not None else None
                 log_message(
-                    f"iter {iter} | batch {batch_count} | val loss {val_loss} | loss {loss.item()}"
+                    f"iter {iter} | batch {batch_count} | val loss {val_loss} | loss {train_loss}"
                 )
 
         log_message(f"iter {iter} | Processed {repr(train_dataloader)}")
-- 
2.43.0


From 00e8b291bc648ed5b785a4c3a1c0c8a01a2f9ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:29 +0000
Subject: [PATCH 31/35] fix: keep training when no validation game is usable

---
 MahjongAI/supervised_learning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/supervised_learning.py b/MahjongAI/supervised_learning.py
index 2441478..41893ac 100644
--- a/MahjongAI/supervised_learning.py
+++ b/MahjongAI/supervised_learning.py
@@ -207,7 +207,8 @@ def estimate_loss(val_dataloader: DataLoader, model, batch_size: int):
     val_dataloader.reset()
 
     model.train()  # Return model to training mode
-    return total_loss / num_batches  # Average validation loss
+    # Average validation loss (none without usable validation games)
+    return total_loss / num_batches if num_batches else None
 
 
 def log_message(message: str):
-- 
2.43.0


From 99631b9d04e658a469bd949bc19003e4d61e47f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:29 +0000
Subject: [PATCH 32/35] fix: accept a batch whose games have no round

---
 MahjongAI/agents/transformer.py            | 3 +++
 MahjongAI/agents/transformer_conv.py       | 3 +++
 MahjongAI/agents/transformer_conv_large.py | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/MahjongAI/agents/transformer.py b/MahjongAI/agents/transformer.py
index 8e4a662..bd5eeac 100644
--- a/MahjongAI/agents/transformer.py
+++ b/MahjongAI/agents/transformer.py
@@ -55,6 +55,9 @@ class TransformerModel(nn.Module):
         sample=False,
         sample_size=2250,
     ):
+        if not any(all_halfturns_list):
+            return  # no round in any of the games
+
         (
             tensors_during,
             tensors_discard,
diff --git a/MahjongAI/agents/transformer_conv.py b/MahjongAI/agents/transformer_conv.py
index 95248a1..4aec69f 100644
--- a/MahjongAI/agents/transformer_conv.py
+++ b/MahjongAI/agents/transformer_conv.py
@@ -55,6 +55,9 @@ class TransformerConvModel(nn.Module):
         sample=False,
         sample_size=2250,
     ):
+        if not any(all_halfturns_list):
+            return  # no round in any of the games
+
         (
             tensors_during,
             tensors_discard,
diff --git a/MahjongAI/agents/transformer_conv_large.py b/MahjongAI/agents/transformer_conv_large.py
index 022c772..83486d5 100644
--- a/MahjongAI/agents/transformer_conv_large.py
+++ b/MahjongAI/agents/transformer_conv_large.py
@@ -55,6 +55,9 @@ class TransformerConvLargeModel(nn.Module):
         sample=False,
         sample_size=2250,
     ):
+        if not any(all_halfturns_list):
+            return  # no round in any of the games
+
         (
             tensors_during,
             tensors_discard,
-- 
2.43.0


From 8be6864462b749fcab354a3b0a2aaa47081b67da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:15 +0000
Subject: [PATCH 33/35] fix: require seven different kinds for seven pairs

---
 MahjongAI/utils/shanten.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/utils/shanten.py b/MahjongAI/utils/shanten.py
index d0bf034..44bcfde 100644
--- a/MahjongAI/utils/shanten.py
+++ b/MahjongAI/utils/shanten.py
@@ -132,7 +132,9 @@ class ShantenSolver:
             process_shuntsu(idx)
 
     def solve_chitoitsu(self):
-        self.best_shanten = min(self.best_shanten, 6 - sum(self.hand_tensor >= 2.0))
+        n_pairs = sum(self.hand_tensor[:34] >= 2.0)
+        n_kinds = sum(self.hand_tensor[:34] >= 1.0)
+        self.best_shanten = min(self.best_shanten, 6 - n_pairs + max(0, 7 - n_kinds))
 
     def solve_kokushi(self):
         yaochu_arr = self.hand_tensor * YAOCHU_TENSOR
-- 
2.43.0


From a83fea7cf6de1868af480d731a59d7ce73501d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:15 +0000
Subject: [PATCH 34/35] fix: count a single pair towards thirteen orphans

---
 MahjongAI/utils/shanten.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MahjongAI/utils/shanten.py b/MahjongAI/utils/shanten.py
index 44bcfde..0d02bc0 100644
--- a/MahjongAI/utils/shanten.py
+++ b/MahjongAI/utils/shanten.py
@@ -139,7 +139,7 @@ class ShantenSolver:
     def solve_kokushi(self):
         yaochu_arr = self.hand_tensor * YAOCHU_TENSOR
         self.best_shanten = min(
-            self.best_shanten, 13 - sum(yaochu_arr >= 1.0) - (max(yaochu_arr) - 1.0)
+            self.best_shanten, 13 - sum(yaochu_arr >= 1.0) - (max(yaochu_arr) >= 2.0)
         )
 
     def solve(self):
-- 
2.43.0


From 6a419297a41870792d8923d80e059f1552144e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:15 +0000
Subject: [PATCH 35/35] fix: try two sequences through three tiles of a kind

---
 MahjongAI/utils/shanten.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MahjongAI/utils/shanten.py b/MahjongAI/utils/shanten.py
index 0d02bc0..c65d233 100644
--- a/MahjongAI/utils/shanten.py
+++ b/MahjongAI/utils/shanten.py
@@ -121,6 +121,8 @@ class ShantenSolver:
             self.solve_normal(idx)
             self.remove_toitsu(idx)
 
+            process_shuntsu(idx)
+
         elif self.hand_tensor[idx] == 2:
             self.add_toitsu(idx)
             self.solve_normal(idx + 1)
-- 
2.43.0

