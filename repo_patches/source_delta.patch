From bb73ce02d6affe322de8b4151d6f106388f48176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:32 +0000
Subject: [PATCH 1/2] fix: C hasher asserts on a full subtree stack before
 merging it

After 2^52 chunks the stack can legitimately hold 53 entries (including an
unmerged pair), and the next push merges before it needs a free slot. Check
for the free slot after the merges.
---
 c/baokeshed.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/baokeshed.c b/c/baokeshed.c
index 771a9f1..bb9a01e 100644
--- a/c/baokeshed.c
+++ b/c/baokeshed.c
@@ -157,10 +157,10 @@ INLINE void hasher_merge_parent(hasher *self) {
 
 INLINE void hasher_push_chunk_hash(hasher *self, uint8_t hash[OUT_LEN],
                                    uint64_t offset) {
-  assert(self->subtree_hashes_len < MAX_DEPTH);
   while (hasher_needs_merge(self, offset)) {
     hasher_merge_parent(self);
   }
+  assert(self->subtree_hashes_len < MAX_DEPTH);
   memcpy(&self->subtree_hashes[self->subtree_hashes_len * OUT_LEN], hash,
          OUT_LEN);
   self->subtree_hashes_len += 1;
-- 
2.43.0


From 51b6a996d97708bc6aba0b40182255dfd90f10e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:40 +0000
Subject: [PATCH 2/2] fix: CLI --length of 2^63 bytes or more overflows the
 digit count

2 * byte_length was computed in u64, so such a length panicked in debug
builds and printed too little (nothing at all for 2^63) in release builds.
---
 baokeshed_bin/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/baokeshed_bin/src/main.rs b/baokeshed_bin/src/main.rs
index d88b0f7..f90f414 100644
--- a/baokeshed_bin/src/main.rs
+++ b/baokeshed_bin/src/main.rs
@@ -71,16 +71,16 @@ fn hash_one(
 }
 
 fn print_hex(output: &mut baokeshed::Output, byte_length: u64) {
-    let mut hex_bytes_remaining = 2 * byte_length;
+    let mut hex_bytes_remaining = 2 * u128::from(byte_length);
     while hex_bytes_remaining > 0 {
         let bytes = output.read();
         let (hash1, hash2) = arrayref::array_refs!(&bytes, baokeshed::OUT_LEN, baokeshed::OUT_LEN);
         let hex1 = baokeshed::Hash::from(*hash1).to_hex();
-        let take = cmp::min(hex_bytes_remaining, hex1.len() as u64);
+        let take = cmp::min(hex_bytes_remaining, hex1.len() as u128);
         print!("{}", &hex1[..take as usize]);
         hex_bytes_remaining -= take;
         let hex2 = baokeshed::Hash::from(*hash2).to_hex();
-        let take = cmp::min(hex_bytes_remaining, hex2.len() as u64);
+        let take = cmp::min(hex_bytes_remaining, hex2.len() as u128);
         print!("{}", &hex2[..take as usize]);
         hex_bytes_remaining -= take;
     }
-- 
2.43.0

