From 2b0b5247c4b3fe2b3113ee67392d9f37ca6f1b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:40 +0000
Subject: [PATCH 1/5] fix: Evaluator::default builds its lookup tables

The derived Default left the tables empty, so evaluating any hand on a
default-constructed Evaluator panicked.
---
 src/evaluate/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/evaluate/mod.rs b/src/evaluate/mod.rs
index cffc1bd..ba7027e 100644
--- a/src/evaluate/mod.rs
+++ b/src/evaluate/mod.rs
@@ -73,9 +73,13 @@ use crate::{card::Card, error::EvalError, evaluate::lookup_table::LookupTable};
 ///     "Full house, jacks over fours"
 /// );
 /// ```
-#[derive(Clone, Debug, PartialEq, Eq, Default)]
+#[derive(Clone, Debug, PartialEq, Eq)]
 pub struct Evaluator(LookupTable);
 
+impl Default for Evaluator {
+    fn default() -> Self { Self::new() }
+}
+
 impl Evaluator {
     /// Create a new [`Evaluator`]. Try to call this method only once and share
     /// the instance as much as possible.
-- 
2.43.0


From 9b48c3a86b3521c30506a67ab760e0c3986e271b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:49 +0000
Subject: [PATCH 2/5] fix: list duplicate cards in a fixed order

The order came from iterating a HashMap with a random hash seed, so the
same error printed different texts from one call to the next.
---
 src/error.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 4d8f05c..dc2accf 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -7,8 +7,6 @@
 
 use std::{error::Error, fmt};
 
-use itertools::Itertools;
-
 use crate::card::Card;
 
 /// An error than can be thrown when parsing [`Card`] types from strings.
@@ -188,17 +186,14 @@ impl fmt::Display for EvalError {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match *self {
             Self::CardsNotUnique(ref cards) => {
-                let dups: String = cards
+                // Each repeated card once, in order of first appearance
+                let dups = cards
                     .iter()
-                    .counts()
-                    .into_iter()
-                    .filter_map(|(card, count)| {
-                        if count > 1 {
-                            Some(card.rank_suit_string())
-                        } else {
-                            None
-                        }
+                    .enumerate()
+                    .filter(|&(i, card)| {
+                        !cards[..i].contains(card) && cards[i + 1..].contains(card)
                     })
+                    .map(|(_, card)| card.rank_suit_string())
                     .collect::<Vec<_>>()
                     .join(" ");
                 write!(
-- 
2.43.0


From ef972bbb859249deec3d35fa3ec036b04bc7e03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:49 +0000
Subject: [PATCH 3/5] fix: report the length of a card string in characters

InvalidLength is raised by counting characters, but its message gave the
length in bytes, so a two-byte single character was 'length 2, expected 2'.
---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index dc2accf..693ac92 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -102,7 +102,7 @@ impl fmt::Display for ParseCardError {
                 f,
                 "Error parsing input '{}' as a Card: Found input of length {}, expected 2",
                 original_input,
-                original_input.len()
+                original_input.chars().count()
             ),
             Self::InvalidRank {
                 ref original_input,
-- 
2.43.0


From b37e515798d5c2f7907c3614f6353014b7a41075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:40 +0000
Subject: [PATCH 4/5] fix: payout chart in the README states what the game pays

A royal flush pays 250 times the wager (4000 credits at the maximum wager
of 5) and a straight flush 50 times.
---
 README.md | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/README.md b/README.md
index b037ce3..2897015 100644
--- a/README.md
+++ b/README.md
@@ -69,8 +69,8 @@ following payout chart:
 
 | 5-card hand     | Payout (bet multiple) |
 | --------------- | --------------------- |
-| Royal Flush     | 4000                  |
-| Straight Flush  | 250                   |
+| Royal Flush     | 250 (800 at max bet)  |
+| Straight Flush  | 50                    |
 | Four of a Kind  | 25                    |
 | Full House      | 9                     |
 | Flush           | 6                     |
-- 
2.43.0


From 58d49039351711207ebcba32f5b062c8a27f0908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:52 +0000
Subject: [PATCH 5/5] fix: forked processes may be dealt the same shuffled deck

thread_rng() notices a fork only when its buffer of random values runs
out, so parent and child could go on to deal the same next deck. Seed a
generator from the system for each deck instead.
---
 src/deck.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/deck.rs b/src/deck.rs
index de604a7..6d0dbcf 100644
--- a/src/deck.rs
+++ b/src/deck.rs
@@ -33,7 +33,11 @@ pub fn generate() -> impl Iterator<Item = Card> {
 /// Like [`generate`], but generate a shuffled deck using
 /// [`rand`] and returned a [`Vec`] of [`Card`]s.
 #[cfg(feature = "rand")]
-pub fn shuffled() -> Vec<Card> { shuffled_with(&mut rand::thread_rng()) }
+pub fn shuffled() -> Vec<Card> {
+    use rand::{rngs::StdRng, SeedableRng};
+    // `thread_rng()` keeps random values in a buffer that a fork duplicates
+    shuffled_with(&mut StdRng::from_entropy())
+}
 
 /// Like [`shuffled`], but generate a shuffled deck
 /// using anything that implements [`rand::Rng`].
-- 
2.43.0

