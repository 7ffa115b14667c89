// ---------------------------------------------------------------------------
// pyshim.rs: Python values as used by python/baokeshed.py.  Every contract in
// this file is assumed: it states the meaning of a Python built-in operation.
// ---------------------------------------------------------------------------
verus! {

#[verifier::external_body]
pub struct PyInt { x: i128 }
impl PyInt {
    pub uninterp spec fn view(&self) -> int;
    #[verifier::external_body]
    pub fn clone(&self) -> (r: PyInt) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub fn py(v: u64) -> (r: PyInt) ensures r@ == v { unimplemented!() }
pub open spec fn u64ok(a: int) -> bool { 0 <= a < 0x1_0000_0000_0000_0000 }

#[verifier::external_body]
pub fn py_lt(a: &PyInt, b: &PyInt) -> (r: bool) ensures r == (a@ < b@) { unimplemented!() }
#[verifier::external_body]
pub fn py_le(a: &PyInt, b: &PyInt) -> (r: bool) ensures r == (a@ <= b@) { unimplemented!() }
#[verifier::external_body]
pub fn py_gt(a: &PyInt, b: &PyInt) -> (r: bool) ensures r == (a@ > b@) { unimplemented!() }
#[verifier::external_body]
pub fn py_ge(a: &PyInt, b: &PyInt) -> (r: bool) ensures r == (a@ >= b@) { unimplemented!() }
#[verifier::external_body]
pub fn py_eq(a: &PyInt, b: &PyInt) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn py_ne(a: &PyInt, b: &PyInt) -> (r: bool) ensures r == (a@ != b@) { unimplemented!() }

#[verifier::external_body]
pub fn py_add(a: &PyInt, b: &PyInt) -> (r: PyInt) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn py_sub(a: &PyInt, b: &PyInt) -> (r: PyInt) ensures r@ == a@ - b@ { unimplemented!() }
#[verifier::external_body]
pub fn py_mul(a: &PyInt, b: &PyInt) -> (r: PyInt) ensures r@ == a@ * b@ { unimplemented!() }
#[verifier::external_body]
pub fn py_floordiv(a: &PyInt, b: &PyInt) -> (r: PyInt) requires b@ > 0 ensures r@ == a@ / b@ { unimplemented!() }
#[verifier::external_body]
pub fn py_mod(a: &PyInt, b: &PyInt) -> (r: PyInt) requires b@ > 0 ensures r@ == a@ % b@ { unimplemented!() }
#[verifier::external_body]
pub fn py_and(a: &PyInt, b: &PyInt) -> (r: PyInt)
    requires a@ >= 0, u64ok(b@)
    ensures 0 <= r@ <= b@, u64ok(a@) ==> r@ == (a@ as u64) & (b@ as u64), b@ == 0xffff_ffff ==> r@ == a@ % 0x1_0000_0000 { unimplemented!() }
#[verifier::external_body]
pub fn py_or(a: &PyInt, b: &PyInt) -> (r: PyInt)
    requires u64ok(a@), u64ok(b@)
    ensures r@ == (a@ as u64) | (b@ as u64) { unimplemented!() }
#[verifier::external_body]
pub fn py_xor(a: &PyInt, b: &PyInt) -> (r: PyInt)
    requires u64ok(a@), u64ok(b@)
    ensures r@ == (a@ as u64) ^ (b@ as u64) { unimplemented!() }
#[verifier::external_body]
pub fn py_shl(a: &PyInt, b: &PyInt) -> (r: PyInt)
    requires a@ >= 0, b@ >= 0
    ensures r@ >= 0, a@ == 1 ==> r@ == p2(b@ as nat), b@ == 1 ==> r@ == 2 * a@, b@ == 10 ==> r@ == 1024 * a@, a@ < 0x1_0000_0000 && b@ <= 32 ==> r@ == (a@ as u64) << (b@ as u64) { unimplemented!() }
#[verifier::external_body]
pub fn py_shr(a: &PyInt, b: &PyInt) -> (r: PyInt)
    requires a@ >= 0, b@ >= 0
    ensures 0 <= r@ <= a@, b@ == 1 ==> r@ == a@ / 2, b@ == 6 ==> r@ == a@ / 64, b@ == 10 ==> r@ == a@ / 1024, u64ok(a@) && b@ < 64 ==> r@ == (a@ as u64) >> (b@ as u64) { unimplemented!() }
// only integers to a non-negative power (a negative one gives a float)
#[verifier::external_body]
pub fn py_pow(a: &PyInt, b: &PyInt) -> (r: PyInt)
    requires b@ >= 0
    ensures a@ == 2 ==> r@ == p2(b@ as nat) { unimplemented!() }
#[verifier::external_body]
pub fn py_min(a: &PyInt, b: &PyInt) -> (r: PyInt) ensures r@ == (if b@ < a@ { b@ } else { a@ }) { unimplemented!() }
#[verifier::external_body]
pub fn py_max(a: &PyInt, b: &PyInt) -> (r: PyInt) ensures r@ == (if b@ > a@ { b@ } else { a@ }) { unimplemented!() }
#[verifier::external_body]
pub fn py_bit_length(a: &PyInt) -> (r: PyInt)
    ensures r@ >= 0, a@ > 0 ==> r@ >= 1 && p2((r@ - 1) as nat) <= a@ < p2(r@ as nat), a@ == 0 ==> r@ == 0 { unimplemented!() }
#[verifier::external_body]
pub fn py_step(a: &PyInt) requires a@ > 0 { unimplemented!() }
#[verifier::external_body]
pub fn py_assert(b: bool) requires b { unimplemented!() }
#[verifier::external_body]
pub fn py_raise() -> ! requires false { unimplemented!() }

// indices: negative ones count from the end; slices are clamped
pub open spec fn py_ix(i: int, n: int) -> int { if i < 0 { i + n } else { i } }
pub open spec fn py_lo(i: int, n: int) -> int { let j = py_ix(i, n); if j < 0 { 0 } else if j > n { n } else { j } }
pub open spec fn py_hi(lo: int, i: int, n: int) -> int { let j = py_lo(i, n); if j < lo { lo } else { j } }
pub open spec fn py_slice<T>(s: Seq<T>, lo: int, hi: int) -> Seq<T> {
    let l = py_lo(lo, s.len() as int);
    s.subrange(l, py_hi(l, hi, s.len() as int))
}
pub open spec fn py_splice<T>(s: Seq<T>, lo: int, hi: int, v: Seq<T>) -> Seq<T> {
    let l = py_lo(lo, s.len() as int);
    s.subrange(0, l) + v + s.subrange(py_hi(l, hi, s.len() as int), s.len() as int)
}

#[verifier::external_body]
pub struct PyBytes { x: Vec<u8> }
impl PyBytes {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn clone(&self) -> (r: PyBytes) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn length(&self) -> (r: PyInt) ensures r@ == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn at(&self, i: &PyInt) -> (r: PyInt)
        requires 0 <= py_ix(i@, self@.len() as int) < self@.len() ensures r@ == self@[py_ix(i@, self@.len() as int)] { unimplemented!() }
    #[verifier::external_body]
    pub fn slice(&self, lo: &PyInt, hi: &PyInt) -> (r: PyBytes) ensures r@ == py_slice(self@, lo@, hi@) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_slice(&mut self, lo: &PyInt, hi: &PyInt, v: &PyBytes) ensures final(self)@ == py_splice(old(self)@, lo@, hi@, v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&mut self, i: &PyInt, v: PyInt)
        requires 0 <= py_ix(i@, old(self)@.len() as int) < old(self)@.len(), 0 <= v@ < 256
        ensures final(self)@ == old(self)@.update(py_ix(i@, old(self)@.len() as int), v@ as u8) { unimplemented!() }
    #[verifier::external_body]
    pub fn concat(&self, o: &PyBytes) -> (r: PyBytes) ensures r@ == self@ + o@ { unimplemented!() }
}
#[verifier::external_body]
pub fn py_bytearray(n: &PyInt) -> (r: PyBytes) requires n@ >= 0 ensures r@ == Seq::new(n@ as nat, |i: int| 0u8) { unimplemented!() }
// int.from_bytes(b, "little"), n.to_bytes(k, "little")
#[verifier::external_body]
pub fn py_from_bytes(b: &PyBytes) -> (r: PyInt) ensures r@ >= 0, b@.len() == 4 ==> r@ == of_le4(b@) { unimplemented!() }
#[verifier::external_body]
pub fn py_to_bytes(a: &PyInt, n: &PyInt) -> (r: PyBytes)
    requires n@ == 4, 0 <= a@ < 0x1_0000_0000
    ensures r@ == le4(a@ as u32) { unimplemented!() }

#[verifier::external_body]
pub struct PyInts { x: Vec<PyInt> }
impl PyInts {
    pub uninterp spec fn view(&self) -> Seq<int>;
    #[verifier::external_body]
    pub fn clone(&self) -> (r: PyInts) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn length(&self) -> (r: PyInt) ensures r@ == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn at(&self, i: &PyInt) -> (r: PyInt)
        requires 0 <= py_ix(i@, self@.len() as int) < self@.len() ensures r@ == self@[py_ix(i@, self@.len() as int)] { unimplemented!() }
    #[verifier::external_body]
    pub fn slice(&self, lo: &PyInt, hi: &PyInt) -> (r: PyInts) ensures r@ == py_slice(self@, lo@, hi@) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_slice(&mut self, lo: &PyInt, hi: &PyInt, v: &PyInts) ensures final(self)@ == py_splice(old(self)@, lo@, hi@, v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&mut self, i: &PyInt, v: PyInt)
        requires 0 <= py_ix(i@, old(self)@.len() as int) < old(self)@.len()
        ensures final(self)@ == old(self)@.update(py_ix(i@, old(self)@.len() as int), v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn concat(&self, o: &PyInts) -> (r: PyInts) ensures r@ == self@ + o@ { unimplemented!() }
    #[verifier::external_body]
    pub fn repeat(&self, n: &PyInt) -> (r: PyInts)
        ensures n@ <= 0 ==> r@.len() == 0, n@ > 0 && self@.len() == 1 ==> r@ == Seq::new(n@ as nat, |i: int| self@[0]) { unimplemented!() }
}
#[verifier::external_body]
pub fn py_list<const N: usize>(v: [PyInt; N]) -> (r: PyInts) ensures r@ == Seq::new(N as nat, |i: int| v[i]@) { unimplemented!() }

// a constant list of lists
#[verifier::external_body]
pub struct PyTable { x: Vec<PyInts> }
impl PyTable {
    pub uninterp spec fn view(&self) -> Seq<Seq<int>>;
    #[verifier::external_body]
    pub fn clone(&self) -> (r: PyTable) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn length(&self) -> (r: PyInt) ensures r@ == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn at(&self, i: &PyInt) -> (r: PyInts)
        requires 0 <= py_ix(i@, self@.len() as int) < self@.len() ensures r@ == self@[py_ix(i@, self@.len() as int)] { unimplemented!() }
}
#[verifier::external_body]
pub fn py_table<const N: usize>(v: [PyInts; N]) -> (r: PyTable) ensures r@ == Seq::new(N as nat, |i: int| v[i]@) { unimplemented!() }

} // verus!
