// ---------------------------------------------------------------------------
// simd.rs: vectors of 32-bit lanes, and the compression function over them.
// ---------------------------------------------------------------------------
verus! {
// raw pointers: the slice from the pointer to the end of its object
#[verifier::external_body]
pub fn vx_tail(s: &[u8], n: usize) -> (r: &[u8])
    requires n <= s.len(),
    ensures r@ == s@.subrange(n as int, s.len() as int),
{ &s[n..] }
// *(inputs.as_ptr() as *const [*const u8; N]): the first N references, as pointers
#[verifier::external_body]
pub fn vx_input_ptrs<'a, const N: usize, A: VxArray>(s: &[&'a A]) -> (r: [&'a [u8]; N])
    requires N <= s.len(),
    ensures forall|i: int| 0 <= i < N ==> (#[trigger] r[i])@ == s[i].ab(),
{ unimplemented!() }
// core::mem::transmute on a little-endian machine
pub trait VxTransmute<T> { spec fn tr(self, t: T) -> bool; }
impl VxTransmute<[u8; 32]> for [u32; 8] { open spec fn tr(self, t: [u8; 32]) -> bool { t@ == bytes8(self@) } }
#[verifier::external_body]
pub fn vx_transmute<S: VxTransmute<T>, T>(s: S) -> (r: T)
    ensures s.tr(r)
{ unimplemented!() }

pub open spec fn vadd(a: Seq<u32>, b: Seq<u32>) -> Seq<u32> { Seq::new(a.len(), |i: int| addw(a[i], b[i])) }
pub open spec fn vxor(a: Seq<u32>, b: Seq<u32>) -> Seq<u32> { Seq::new(a.len(), |i: int| a[i] ^ b[i]) }
pub open spec fn vor(a: Seq<u32>, b: Seq<u32>) -> Seq<u32> { Seq::new(a.len(), |i: int| a[i] | b[i]) }
pub open spec fn vshr(a: Seq<u32>, n: u32) -> Seq<u32> { Seq::new(a.len(), |i: int| a[i] >> n) }
pub open spec fn vshl(a: Seq<u32>, n: u32) -> Seq<u32> { Seq::new(a.len(), |i: int| a[i] << n) }
pub open spec fn vrot(a: Seq<u32>, n: u32) -> Seq<u32> { Seq::new(a.len(), |i: int| rotr(a[i], n)) }
pub open spec fn vset1(n: nat, x: u32) -> Seq<u32> { Seq::new(n, |i: int| x) }

// the mixing function on whole vectors, adding in the order the kernels do
pub open spec fn vg(s: Seq<Seq<u32>>, a: int, b: int, c: int, d: int, x: Seq<u32>, y: Seq<u32>) -> Seq<Seq<u32>> {
    let a1 = vadd(vadd(s[a], x), s[b]);
    let d1 = vrot(vxor(s[d], a1), 16);
    let c1 = vadd(s[c], d1);
    let b1 = vrot(vxor(s[b], c1), 12);
    let a2 = vadd(vadd(a1, y), b1);
    let d2 = vrot(vxor(d1, a2), 8);
    let c2 = vadd(c1, d2);
    let b2 = vrot(vxor(b1, c2), 7);
    s.update(a, a2).update(b, b2).update(c, c2).update(d, d2)
}
pub open spec fn vm(m: Seq<Seq<u32>>, r: int, i: int) -> Seq<u32> { m[sched(r)[i]] }
pub open spec fn vcols(s: Seq<Seq<u32>>, m: Seq<Seq<u32>>, r: int) -> Seq<Seq<u32>> {
    let s = vg(s, 0, 4, 8, 12, vm(m, r, 0), vm(m, r, 1));
    let s = vg(s, 1, 5, 9, 13, vm(m, r, 2), vm(m, r, 3));
    let s = vg(s, 2, 6, 10, 14, vm(m, r, 4), vm(m, r, 5));
    vg(s, 3, 7, 11, 15, vm(m, r, 6), vm(m, r, 7))
}
pub open spec fn vdiags(s: Seq<Seq<u32>>, m: Seq<Seq<u32>>, r: int) -> Seq<Seq<u32>> {
    let s = vg(s, 0, 5, 10, 15, vm(m, r, 8), vm(m, r, 9));
    let s = vg(s, 1, 6, 11, 12, vm(m, r, 10), vm(m, r, 11));
    let s = vg(s, 2, 7, 8, 13, vm(m, r, 12), vm(m, r, 13));
    vg(s, 3, 4, 9, 14, vm(m, r, 14), vm(m, r, 15))
}
pub open spec fn vround(s: Seq<Seq<u32>>, m: Seq<Seq<u32>>, r: int) -> Seq<Seq<u32>> { vdiags(vcols(s, m, r), m, r) }
// lane j of a list of vectors
pub open spec fn lane(s: Seq<Seq<u32>>, j: int) -> Seq<u32> { Seq::new(s.len(), |i: int| s[i][j]) }
pub open spec fn wide(s: Seq<Seq<u32>>, n: nat) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len() == n }

pub proof fn lemma_addw(a: u32, x: u32, b: u32)
    ensures addw(addw(a, x), b) == addw(addw(a, b), x)
{ }
pub proof fn lemma_vg(s: Seq<Seq<u32>>, a: int, b: int, c: int, d: int, x: Seq<u32>, y: Seq<u32>, n: nat, j: int)
    requires s.len() == 16, wide(s, n), x.len() == n, y.len() == n, 0 <= j < n,
        0 <= a < 16, 0 <= b < 16, 0 <= c < 16, 0 <= d < 16, a != b, a != c, a != d, b != c, b != d, c != d,
    ensures vg(s, a, b, c, d, x, y).len() == 16, wide(vg(s, a, b, c, d, x, y), n),
        lane(vg(s, a, b, c, d, x, y), j) == g_spec(lane(s, j), a, b, c, d, x[j], y[j]),
{
    hide(rotr); hide(addw);
    let a1 = vadd(vadd(s[a], x), s[b]);
    let d1 = vrot(vxor(s[d], a1), 16);
    let c1 = vadd(s[c], d1);
    let b1 = vrot(vxor(s[b], c1), 12);
    lemma_addw(s[a][j], x[j], s[b][j]);
    lemma_addw(a1[j], y[j], b1[j]);
    let l = lane(vg(s, a, b, c, d, x, y), j);
    let e = g_spec(lane(s, j), a, b, c, d, x[j], y[j]);
    assert forall|k: int| 0 <= k < 16 implies l[k] == e[k] by { if k != a && k != b && k != c && k != d { } }
    assert(l =~= e);
}
pub proof fn lemma_sched_bound(r: int)
    requires 0 <= r < 7
    ensures forall|i: int| 0 <= i < 16 ==> 0 <= #[trigger] sched(r)[i] < 16
{ }
pub proof fn lemma_vround(s: Seq<Seq<u32>>, m: Seq<Seq<u32>>, r: int, n: nat, j: int)
    requires s.len() == 16, m.len() == 16, wide(s, n), wide(m, n), 0 <= r < 7, 0 <= j < n,
    ensures vround(s, m, r).len() == 16, wide(vround(s, m, r), n), lane(vround(s, m, r), j) == round_spec(lane(s, j), lane(m, j), r),
{
    hide(vg); hide(g_spec); hide(sched);
    lemma_sched_bound(r);
    let k = |i: int| vm(m, r, i);
    assert forall|i: int| 0 <= i < 16 implies (#[trigger] vm(m, r, i)).len() == n && vm(m, r, i)[j] == mw(lane(m, j), r, i) by { assert(0 <= sched(r)[i] < 16); }
    let s1 = vg(s, 0, 4, 8, 12, vm(m, r, 0), vm(m, r, 1)); lemma_vg(s, 0, 4, 8, 12, vm(m, r, 0), vm(m, r, 1), n, j);
    let s2 = vg(s1, 1, 5, 9, 13, vm(m, r, 2), vm(m, r, 3)); lemma_vg(s1, 1, 5, 9, 13, vm(m, r, 2), vm(m, r, 3), n, j);
    let s3 = vg(s2, 2, 6, 10, 14, vm(m, r, 4), vm(m, r, 5)); lemma_vg(s2, 2, 6, 10, 14, vm(m, r, 4), vm(m, r, 5), n, j);
    let s4 = vg(s3, 3, 7, 11, 15, vm(m, r, 6), vm(m, r, 7)); lemma_vg(s3, 3, 7, 11, 15, vm(m, r, 6), vm(m, r, 7), n, j);
    let t1 = vg(s4, 0, 5, 10, 15, vm(m, r, 8), vm(m, r, 9)); lemma_vg(s4, 0, 5, 10, 15, vm(m, r, 8), vm(m, r, 9), n, j);
    let t2 = vg(t1, 1, 6, 11, 12, vm(m, r, 10), vm(m, r, 11)); lemma_vg(t1, 1, 6, 11, 12, vm(m, r, 10), vm(m, r, 11), n, j);
    let t3 = vg(t2, 2, 7, 8, 13, vm(m, r, 12), vm(m, r, 13)); lemma_vg(t2, 2, 7, 8, 13, vm(m, r, 12), vm(m, r, 13), n, j);
    lemma_vg(t3, 3, 4, 9, 14, vm(m, r, 14), vm(m, r, 15), n, j);
}
pub proof fn lemma_i32(x: u32)
    ensures (x as i32) as u32 == x
{ assert((x as i32) as u32 == x) by (bit_vector); }
pub proof fn lemma_rotx(x: u32, n: u32)
    requires n == 16 || n == 12 || n == 8 || n == 7
    ensures (x >> n) ^ (x << ((32 - n) as u32)) == rotr(x, n), (x >> n) | (x << ((32 - n) as u32)) == rotr(x, n)
{
    if n == 12 { assert((x >> 12u32) ^ (x << 20u32) == (x >> 12u32) | (x << 20u32)) by (bit_vector); }
    else if n == 16 { assert((x >> 16u32) ^ (x << 16u32) == (x >> 16u32) | (x << 16u32)) by (bit_vector); }
    else if n == 8 { assert((x >> 8u32) ^ (x << 24u32) == (x >> 8u32) | (x << 24u32)) by (bit_vector); }
    else { assert((x >> 7u32) ^ (x << 25u32) == (x >> 7u32) | (x << 25u32)) by (bit_vector); }
}
pub proof fn lemma_bytes8_halves(w: Seq<u32>)
    requires w.len() == 8
    ensures bytes8(w) == lebytes(w.subrange(0, 4)) + lebytes(w.subrange(4, 8)), lebytes(w.subrange(0, 4)).len() == 16, lebytes(w.subrange(4, 8)).len() == 16
{
    let (a, b) = (w.subrange(0, 4), w.subrange(4, 8));
    let e = lebytes(a) + lebytes(b);
    assert forall|i: int| 0 <= i < 32 implies bytes8(w)[i] == e[i] by {
        lemma_bytes8_at(w, i / 4);
        assert(bytes8(w)[i] == bytes8(w).subrange(4 * (i / 4), 4 * (i / 4) + 4)[i % 4]);
        if i < 16 { assert(a[i / 4] == w[i / 4]); } else { assert(b[(i - 16) / 4] == w[i / 4]); assert((i - 16) % 4 == i % 4); }
    }
    assert(bytes8(w) =~= e);
}
// the first k inputs have been hashed
pub open spec fn hm_part<A: VxArray>(inputs: Seq<&A>, key: Seq<u32>, offset: int, delta: int, flags: u8, fs: u8, fe: u8, out0: Seq<u8>, out1: Seq<u8>, k: int) -> bool {
    &&& out1.len() == out0.len()
    &&& forall|i: int| 0 <= i < k ==> #[trigger] out1.subrange(32 * i, 32 * i + 32) == hm(key, inputs[i].ab(), (offset + i * delta) as u64, flags, fs, fe)
    &&& out1.subrange(32 * k, out1.len() as int) == out0.subrange(32 * k, out0.len() as int)
}
pub proof fn lemma_hm_step<A: VxArray>(inputs: Seq<&A>, key: Seq<u32>, offset: int, delta: int, flags: u8, fs: u8, fe: u8, out0: Seq<u8>, out1: Seq<u8>, k: int, out2: Seq<u8>, w: int)
    requires
        hm_part(inputs, key, offset, delta, flags, fs, fe, out0, out1, k), 0 <= k, 0 <= w, out2.len() == out1.len(), 32 * (k + w) <= out1.len(),
        out2 == out1.subrange(0, 32 * k) + out2.subrange(32 * k, 32 * (k + w)) + out1.subrange(32 * (k + w), out1.len() as int),
        forall|j: int| 0 <= j < w ==> #[trigger] out2.subrange(32 * (k + j), 32 * (k + j) + 32) == hm(key, inputs[k + j].ab(), (offset + (k + j) * delta) as u64, flags, fs, fe),
    ensures hm_part(inputs, key, offset, delta, flags, fs, fe, out0, out2, k + w),
{
    hide(hm);
    let n = out1.len() as int;
    assert(out2.len() == n);
    assert forall|i: int| 0 <= i < k + w implies #[trigger] out2.subrange(32 * i, 32 * i + 32) == hm(key, inputs[i].ab(), (offset + i * delta) as u64, flags, fs, fe) by {
        if i < k { assert(out2.subrange(32 * i, 32 * i + 32) =~= out1.subrange(32 * i, 32 * i + 32)); }
        else { assert(out2.subrange(32 * (k + (i - k)), 32 * (k + (i - k)) + 32) == hm(key, inputs[k + (i - k)].ab(), (offset + (k + (i - k)) * delta) as u64, flags, fs, fe)); }
    }
    assert(out2.subrange(32 * (k + w), n) =~= out1.subrange(32 * k, n).subrange(32 * w, n - 32 * k));
    assert(out0.subrange(32 * (k + w), n) =~= out0.subrange(32 * k, n).subrange(32 * w, n - 32 * k));
}
pub proof fn lemma_mul_le(a: int, b: int, d: int)
    requires a <= b, 0 <= d
    ensures a * d <= b * d, (a + 1) * d == a * d + d, (a + 2) * d == a * d + 2 * d, (a + 3) * d == a * d + 3 * d, (a + 4) * d == a * d + 4 * d,
        (a + 5) * d == a * d + 5 * d, (a + 6) * d == a * d + 6 * d, (a + 7) * d == a * d + 7 * d, (a + 8) * d == a * d + 8 * d,
{
    assert(a * d <= b * d) by (nonlinear_arith) requires a <= b, 0 <= d;
    assert((a + 1) * d == a * d + d && (a + 2) * d == a * d + 2 * d && (a + 3) * d == a * d + 3 * d && (a + 4) * d == a * d + 4 * d) by (nonlinear_arith);
    assert((a + 5) * d == a * d + 5 * d && (a + 6) * d == a * d + 6 * d && (a + 7) * d == a * d + 7 * d && (a + 8) * d == a * d + 8 * d) by (nonlinear_arith);
}
// byte shuffles within each 16 bytes, and rotations by 16 and 8 as such
pub open spec fn shuf(a: Seq<u8>, c: Seq<u8>) -> Seq<u8> { Seq::new(a.len(), |i: int| if c[i] >= 128 { 0u8 } else { a[16 * (i / 16) + c[i] % 16] }) }
pub open spec fn rotmask(lanes: nat, n: int) -> Seq<u8> {
    Seq::new(4 * lanes, |i: int| (if n == 16 { 4 * ((i % 16) / 4) + (i % 4 + 2) % 4 } else { 4 * ((i % 16) / 4) + (i % 4 + 1) % 4 }) as u8)
}
pub proof fn lemma_shuf_idx(k: int, i: int, d: int)
    requires 0 <= k, 0 <= i < 4, d == 1 || d == 2,
    ensures (4 * k + i) / 4 == k, (4 * k + i) % 4 == i, ((4 * k + i) % 16) / 4 == k % 4, (4 * k + i) / 16 == k / 4, 0 <= (i + d) % 4 < 4,
        (4 * (k % 4) + (i + d) % 4) % 16 == 4 * (k % 4) + (i + d) % 4, 16 * (k / 4) + 4 * (k % 4) == 4 * k,
{ }
pub proof fn lemma_shuf_byte(a: Seq<u32>, c: Seq<u8>, n: u32, k: int, i: int)
    requires n == 16 || n == 8, c == rotmask(a.len(), n as int), 0 <= k < a.len(), a.len() % 4 == 0, 0 <= i < 4,
    ensures shuf(lebytes(a), c).subrange(4 * k, 4 * k + 4)[i] == le4(a[k])[(i + (if n == 16 { 2int } else { 1int })) % 4]
{
    hide(le4);
    let d = (if n == 16 { 2int } else { 1int });
    let p = 4 * k + i;
    let e = (i + d) % 4;
    lemma_shuf_idx(k, i, d);
    lemma_shuf_idx(k, e, d);
    assert(c[p] as int == 4 * (k % 4) + e);
    assert(shuf(lebytes(a), c)[p] == lebytes(a)[16 * (p / 16) + c[p] % 16]);
    assert(lebytes(a)[4 * k + e] == le4(a[k])[e]);
}
pub proof fn lemma_shuf(a: Seq<u32>, c: Seq<u8>, n: u32, k: int)
    requires n == 16 || n == 8, c == rotmask(a.len(), n as int), 0 <= k < a.len(), a.len() % 4 == 0,
    ensures of_le4(shuf(lebytes(a), c).subrange(4 * k, 4 * k + 4)) == rotr(a[k], n)
{
    hide(shuf); hide(rotmask); hide(lebytes);
    let b = shuf(lebytes(a), c).subrange(4 * k, 4 * k + 4);
    let w = a[k];
    lemma_shuf_byte(a, c, n, k, 0); lemma_shuf_byte(a, c, n, k, 1); lemma_shuf_byte(a, c, n, k, 2); lemma_shuf_byte(a, c, n, k, 3);
    if n == 16 {
        assert(b[0] == le4(w)[2] && b[1] == le4(w)[3] && b[2] == le4(w)[0] && b[3] == le4(w)[1]);
        assert((((w >> 16u32) as u8) as u32) | (((w >> 24u32) as u8) as u32) << 8u32 | ((w as u8) as u32) << 16u32 | (((w >> 8u32) as u8) as u32) << 24u32 == (w >> 16u32) | (w << 16u32)) by (bit_vector);
    } else {
        assert(b[0] == le4(w)[1] && b[1] == le4(w)[2] && b[2] == le4(w)[3] && b[3] == le4(w)[0]);
        assert((((w >> 8u32) as u8) as u32) | (((w >> 16u32) as u8) as u32) << 8u32 | (((w >> 24u32) as u8) as u32) << 16u32 | ((w as u8) as u32) << 24u32 == (w >> 8u32) | (w << 24u32)) by (bit_vector);
    }
}
pub proof fn lemma_bytes8_lebytes(w: Seq<u32>)
    requires w.len() == 8
    ensures bytes8(w) == lebytes(w)
{
    lemma_bytes8_halves(w);
    assert(lebytes(w) =~= lebytes(w.subrange(0, 4)) + lebytes(w.subrange(4, 8)));
}
}
