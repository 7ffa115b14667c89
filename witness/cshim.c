// compiled together with the repository's c/baokeshed.c (same translation unit)
#include "../repo/c/baokeshed.c"
size_t vxc_hasher_size(void) { return sizeof(hasher); }
size_t vxc_chunk_size(void) { return sizeof(chunk_state); }
#ifdef VXC_PUT
void vxc_put(hasher *h, uint64_t offset, const uint8_t *cvs, size_t n) {
  h->chunk.offset = offset;
  h->subtree_hashes_len = (uint8_t)n;
  memcpy(h->subtree_hashes, cvs, n * OUT_LEN);
}
#endif
