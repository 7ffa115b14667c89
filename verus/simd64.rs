// ---------------------------------------------------------------------------
// simd64.rs: vectors of 64-bit lanes, and the 64-bit compression function over them.
// ---------------------------------------------------------------------------
verus! {
// an array of words seen as bytes, little-endian
pub open spec fn words_of(b: Seq<u8>) -> Seq<u64> { Seq::new((b.len() / 8) as nat, |i: int| of_le8(b.subrange(8 * i, 8 * i + 8))) }
#[verifier::external_body]
pub fn vx_bytes64(x: &[u64]) -> (r: &[u8])
    ensures r@ == lebytes(x@),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_bytes64_mut(x: &mut [u64]) -> (r: &mut [u8])
    ensures r@ == lebytes(old(x)@), final(r)@.len() == r@.len() ==> final(x)@ == words_of(final(r)@),
{ unimplemented!() }

pub open spec fn vadd(a: Seq<u64>, b: Seq<u64>) -> Seq<u64> { Seq::new(a.len(), |i: int| addw(a[i], b[i])) }
pub open spec fn vxor(a: Seq<u64>, b: Seq<u64>) -> Seq<u64> { Seq::new(a.len(), |i: int| a[i] ^ b[i]) }
pub open spec fn vor(a: Seq<u64>, b: Seq<u64>) -> Seq<u64> { Seq::new(a.len(), |i: int| a[i] | b[i]) }
pub open spec fn vshr(a: Seq<u64>, n: u64) -> Seq<u64> { Seq::new(a.len(), |i: int| a[i] >> n) }
pub open spec fn vshl(a: Seq<u64>, n: u64) -> Seq<u64> { Seq::new(a.len(), |i: int| a[i] << n) }
pub open spec fn vrot(a: Seq<u64>, n: u64) -> Seq<u64> { Seq::new(a.len(), |i: int| rr64(a[i], n)) }
pub open spec fn vset1(n: nat, x: u64) -> Seq<u64> { Seq::new(n, |i: int| x) }

// the mixing function on whole vectors, adding in the order the kernels do
pub open spec fn vg(s: Seq<Seq<u64>>, a: int, b: int, c: int, d: int, x: Seq<u64>, y: Seq<u64>) -> Seq<Seq<u64>> {
    let a1 = vadd(vadd(s[a], x), s[b]);
    let d1 = vrot(vxor(s[d], a1), 32);
    let c1 = vadd(s[c], d1);
    let b1 = vrot(vxor(s[b], c1), 24);
    let a2 = vadd(vadd(a1, y), b1);
    let d2 = vrot(vxor(d1, a2), 16);
    let c2 = vadd(c1, d2);
    let b2 = vrot(vxor(b1, c2), 63);
    s.update(a, a2).update(b, b2).update(c, c2).update(d, d2)
}
pub open spec fn vm(m: Seq<Seq<u64>>, r: int, i: int) -> Seq<u64> { m[sched(r)[i]] }
pub open spec fn vcols(s: Seq<Seq<u64>>, m: Seq<Seq<u64>>, r: int) -> Seq<Seq<u64>> {
    let s = vg(s, 0, 4, 8, 12, vm(m, r, 0), vm(m, r, 1));
    let s = vg(s, 1, 5, 9, 13, vm(m, r, 2), vm(m, r, 3));
    let s = vg(s, 2, 6, 10, 14, vm(m, r, 4), vm(m, r, 5));
    vg(s, 3, 7, 11, 15, vm(m, r, 6), vm(m, r, 7))
}
pub open spec fn vdiags(s: Seq<Seq<u64>>, m: Seq<Seq<u64>>, r: int) -> Seq<Seq<u64>> {
    let s = vg(s, 0, 5, 10, 15, vm(m, r, 8), vm(m, r, 9));
    let s = vg(s, 1, 6, 11, 12, vm(m, r, 10), vm(m, r, 11));
    let s = vg(s, 2, 7, 8, 13, vm(m, r, 12), vm(m, r, 13));
    vg(s, 3, 4, 9, 14, vm(m, r, 14), vm(m, r, 15))
}
pub open spec fn vround(s: Seq<Seq<u64>>, m: Seq<Seq<u64>>, r: int) -> Seq<Seq<u64>> { vdiags(vcols(s, m, r), m, r) }
// lane j of a list of vectors
pub open spec fn lane(s: Seq<Seq<u64>>, j: int) -> Seq<u64> { Seq::new(s.len(), |i: int| s[i][j]) }
pub open spec fn wide(s: Seq<Seq<u64>>, n: nat) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len() == n }

pub proof fn lemma_addw(a: u64, x: u64, b: u64)
    ensures addw(addw(a, x), b) == addw(addw(a, b), x)
{ }
pub proof fn lemma_vg(s: Seq<Seq<u64>>, a: int, b: int, c: int, d: int, x: Seq<u64>, y: Seq<u64>, n: nat, j: int)
    requires s.len() == 16, wide(s, n), x.len() == n, y.len() == n, 0 <= j < n,
        0 <= a < 16, 0 <= b < 16, 0 <= c < 16, 0 <= d < 16, a != b, a != c, a != d, b != c, b != d, c != d,
    ensures vg(s, a, b, c, d, x, y).len() == 16, wide(vg(s, a, b, c, d, x, y), n),
        lane(vg(s, a, b, c, d, x, y), j) == g_spec(lane(s, j), a, b, c, d, x[j], y[j]),
{
    hide(rr64); hide(addw);
    let a1 = vadd(vadd(s[a], x), s[b]);
    let d1 = vrot(vxor(s[d], a1), 32);
    let c1 = vadd(s[c], d1);
    let b1 = vrot(vxor(s[b], c1), 24);
    lemma_addw(s[a][j], x[j], s[b][j]);
    lemma_addw(a1[j], y[j], b1[j]);
    let l = lane(vg(s, a, b, c, d, x, y), j);
    let e = g_spec(lane(s, j), a, b, c, d, x[j], y[j]);
    assert forall|k: int| 0 <= k < 16 implies l[k] == e[k] by { if k != a && k != b && k != c && k != d { } }
    assert(l =~= e);
}
pub proof fn lemma_sched_bound(r: int)
    requires 0 <= r < 8
    ensures forall|i: int| 0 <= i < 16 ==> 0 <= #[trigger] sched(r)[i] < 16
{ }
pub proof fn lemma_vround(s: Seq<Seq<u64>>, m: Seq<Seq<u64>>, r: int, n: nat, j: int)
    requires s.len() == 16, m.len() == 16, wide(s, n), wide(m, n), 0 <= r < 8, 0 <= j < n,
    ensures vround(s, m, r).len() == 16, wide(vround(s, m, r), n), lane(vround(s, m, r), j) == round_spec(lane(s, j), lane(m, j), r),
{
    hide(vg); hide(g_spec); hide(sched);
    lemma_sched_bound(r);
    let k = |i: int| vm(m, r, i);
    assert forall|i: int| 0 <= i < 16 implies (#[trigger] vm(m, r, i)).len() == n && vm(m, r, i)[j] == mw(lane(m, j), r, i) by { assert(0 <= sched(r)[i] < 16); }
    let s1 = vg(s, 0, 4, 8, 12, vm(m, r, 0), vm(m, r, 1)); lemma_vg(s, 0, 4, 8, 12, vm(m, r, 0), vm(m, r, 1), n, j);
    let s2 = vg(s1, 1, 5, 9, 13, vm(m, r, 2), vm(m, r, 3)); lemma_vg(s1, 1, 5, 9, 13, vm(m, r, 2), vm(m, r, 3), n, j);
    let s3 = vg(s2, 2, 6, 10, 14, vm(m, r, 4), vm(m, r, 5)); lemma_vg(s2, 2, 6, 10, 14, vm(m, r, 4), vm(m, r, 5), n, j);
    let s4 = vg(s3, 3, 7, 11, 15, vm(m, r, 6), vm(m, r, 7)); lemma_vg(s3, 3, 7, 11, 15, vm(m, r, 6), vm(m, r, 7), n, j);
    let t1 = vg(s4, 0, 5, 10, 15, vm(m, r, 8), vm(m, r, 9)); lemma_vg(s4, 0, 5, 10, 15, vm(m, r, 8), vm(m, r, 9), n, j);
    let t2 = vg(t1, 1, 6, 11, 12, vm(m, r, 10), vm(m, r, 11)); lemma_vg(t1, 1, 6, 11, 12, vm(m, r, 10), vm(m, r, 11), n, j);
    let t3 = vg(t2, 2, 7, 8, 13, vm(m, r, 12), vm(m, r, 13)); lemma_vg(t2, 2, 7, 8, 13, vm(m, r, 12), vm(m, r, 13), n, j);
    lemma_vg(t3, 3, 4, 9, 14, vm(m, r, 14), vm(m, r, 15), n, j);
}
pub proof fn lemma_i64(x: u64)
    ensures (x as i64) as u64 == x
{ assert((x as i64) as u64 == x) by (bit_vector); }
pub proof fn lemma_of_le8(w: u64)
    ensures of_le8(le8(w)) == w
{
    assert(((w as u8) as u64) | ((((w >> 8u64) as u8) as u64) << 8u64) | ((((w >> 16u64) as u8) as u64) << 16u64) | ((((w >> 24u64) as u8) as u64) << 24u64) | ((((w >> 32u64) as u8) as u64) << 32u64) | ((((w >> 40u64) as u8) as u64) << 40u64) | ((((w >> 48u64) as u8) as u64) << 48u64) | ((((w >> 56u64) as u8) as u64) << 56u64) == w) by (bit_vector);
}
pub proof fn lemma_lebytes_at(w: Seq<u64>, i: int)
    requires 0 <= i < w.len()
    ensures lebytes(w).subrange(8 * i, 8 * i + 8) == le8(w[i]), of_le8(lebytes(w).subrange(8 * i, 8 * i + 8)) == w[i]
{
    lemma_of_le8(w[i]);
    assert(lebytes(w).subrange(8 * i, 8 * i + 8) =~= le8(w[i])) by {
        assert forall|j: int| 0 <= j < 8 implies lebytes(w)[8 * i + j] == le8(w[i])[j] by { assert((8 * i + j) / 8 == i && (8 * i + j) % 8 == j); }
    }
}
pub proof fn lemma_words_of(w: Seq<u64>)
    ensures words_of(lebytes(w)) == w, lebytes(w).len() == 8 * w.len()
{
    assert forall|i: int| 0 <= i < w.len() implies words_of(lebytes(w))[i] == w[i] by { lemma_lebytes_at(w, i); }
    assert(words_of(lebytes(w)) =~= w);
}
pub proof fn lemma_bytes4_lebytes(w: Seq<u64>)
    requires w.len() == 4
    ensures bytes4(w) == lebytes(w)
{
    lemma_lebytes_at(w, 0); lemma_lebytes_at(w, 1); lemma_lebytes_at(w, 2); lemma_lebytes_at(w, 3);
    let e = lebytes(w);
    assert(e =~= e.subrange(0, 8) + e.subrange(8, 16) + e.subrange(16, 24) + e.subrange(24, 32));
}
pub proof fn lemma_bytes4_halves(w: Seq<u64>)
    requires w.len() == 4
    ensures bytes4(w) == lebytes(w.subrange(0, 2)) + lebytes(w.subrange(2, 4)), lebytes(w.subrange(0, 2)).len() == 16, lebytes(w.subrange(2, 4)).len() == 16
{
    lemma_bytes4_lebytes(w);
    assert(lebytes(w) =~= lebytes(w.subrange(0, 2)) + lebytes(w.subrange(2, 4)));
}
// rotations: by 63 as the kernels write it, and by whole bytes as shuffles within each 16 bytes
pub proof fn lemma_rot63(x: u64)
    ensures (x >> 63u64) | addw(x, x) == rr64(x, 63)
{
    if x < 0x8000_0000_0000_0000u64 { assert(x << 1u64 == x + x) by (bit_vector) requires x < 0x8000_0000_0000_0000u64; }
    else { assert(x << 1u64 == x + x - 0x1_0000_0000_0000_0000) by (bit_vector) requires x >= 0x8000_0000_0000_0000u64; }
    assert(addw(x, x) == x << 1u64);
}
pub proof fn lemma_rot32(x: u64)
    ensures (x >> 32u64) | (x << 32u64) == rr64(x, 32)
{ }
pub proof fn lemma_rotx(x: u64, n: u64)
    requires 0 < n < 64
    ensures (x >> n) | (x << ((64 - n) as u64)) == rr64(x, n)
{ }
pub open spec fn shuf(a: Seq<u8>, c: Seq<u8>) -> Seq<u8> { Seq::new(a.len(), |i: int| if c[i] >= 128 { 0u8 } else { a[16 * (i / 16) + c[i] % 16] }) }
pub open spec fn rotmask(lanes: nat, n: int) -> Seq<u8> { Seq::new(8 * lanes, |i: int| (8 * ((i % 16) / 8) + (i % 8 + n / 8) % 8) as u8) }
pub proof fn lemma_shuf_byte(a: Seq<u64>, c: Seq<u8>, n: u64, k: int, i: int)
    requires n == 24 || n == 16, c == rotmask(a.len(), n as int), 0 <= k < a.len(), a.len() % 2 == 0, 0 <= i < 8,
    ensures shuf(lebytes(a), c).subrange(8 * k, 8 * k + 8)[i] == le8(a[k])[(i + n as int / 8) % 8]
{
    hide(le8);
    let p = 8 * k + i;
    let e = (i + n as int / 8) % 8;
    assert(p / 8 == k && p % 8 == i && (p % 16) / 8 == k % 2 && p / 16 == k / 2);
    assert(16 * (k / 2) + 8 * (k % 2) == 8 * k);
    assert(c[p] as int == 8 * (k % 2) + e);
    assert(shuf(lebytes(a), c)[p] == lebytes(a)[16 * (p / 16) + c[p] % 16]);
    assert((8 * k + e) / 8 == k && (8 * k + e) % 8 == e);
    assert(lebytes(a)[8 * k + e] == le8(a[k])[e]);
}
pub proof fn lemma_shuf(a: Seq<u64>, c: Seq<u8>, n: u64, k: int)
    requires n == 24 || n == 16, c == rotmask(a.len(), n as int), 0 <= k < a.len(), a.len() % 2 == 0,
    ensures of_le8(shuf(lebytes(a), c).subrange(8 * k, 8 * k + 8)) == rr64(a[k], n)
{
    hide(shuf); hide(rotmask); hide(lebytes);
    let b = shuf(lebytes(a), c).subrange(8 * k, 8 * k + 8);
    let w = a[k];
    lemma_shuf_byte(a, c, n, k, 0); lemma_shuf_byte(a, c, n, k, 1); lemma_shuf_byte(a, c, n, k, 2); lemma_shuf_byte(a, c, n, k, 3);
    lemma_shuf_byte(a, c, n, k, 4); lemma_shuf_byte(a, c, n, k, 5); lemma_shuf_byte(a, c, n, k, 6); lemma_shuf_byte(a, c, n, k, 7);
    if n == 24 {
        assert(b[0] == le8(w)[3] && b[1] == le8(w)[4] && b[2] == le8(w)[5] && b[3] == le8(w)[6] && b[4] == le8(w)[7] && b[5] == le8(w)[0] && b[6] == le8(w)[1] && b[7] == le8(w)[2]);
        assert((((w >> 24u64) as u8) as u64) | (((w >> 32u64) as u8) as u64) << 8u64 | (((w >> 40u64) as u8) as u64) << 16u64 | (((w >> 48u64) as u8) as u64) << 24u64 | (((w >> 56u64) as u8) as u64) << 32u64 | ((w as u8) as u64) << 40u64 | (((w >> 8u64) as u8) as u64) << 48u64 | (((w >> 16u64) as u8) as u64) << 56u64 == (w >> 24u64) | (w << 40u64)) by (bit_vector);
    } else {
        assert(b[0] == le8(w)[2] && b[1] == le8(w)[3] && b[2] == le8(w)[4] && b[3] == le8(w)[5] && b[4] == le8(w)[6] && b[5] == le8(w)[7] && b[6] == le8(w)[0] && b[7] == le8(w)[1]);
        assert((((w >> 16u64) as u8) as u64) | (((w >> 24u64) as u8) as u64) << 8u64 | (((w >> 32u64) as u8) as u64) << 16u64 | (((w >> 40u64) as u8) as u64) << 24u64 | (((w >> 48u64) as u8) as u64) << 32u64 | (((w >> 56u64) as u8) as u64) << 40u64 | ((w as u8) as u64) << 48u64 | (((w >> 8u64) as u8) as u64) << 56u64 == (w >> 16u64) | (w << 48u64)) by (bit_vector);
    }
}
}
