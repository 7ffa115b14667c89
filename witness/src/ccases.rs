use crate::cases::*;
use crate::spec::{self, Cv};
use crate::util::*;
use baokeshed as _;

type Comp = unsafe extern "C" fn(*mut u32, *const u8, u8, u64, u8);
type Comp64 = unsafe extern "C" fn(*mut u64, *const u8, u8, u64, u8);
type HN = unsafe extern "C" fn(*const *const u8, usize, *const u32, u64, *const u64, u8, u8, u8, *mut u8);
type HM = unsafe extern "C" fn(*const *const u8, usize, usize, *const u32, u64, *const u64, u8, u8, u8, *mut u8);
type HN64 = unsafe extern "C" fn(*const *const u8, usize, *const u64, u64, *const u64, u8, u8, u8, *mut u8);
type HM64 = unsafe extern "C" fn(*const *const u8, usize, usize, *const u64, u64, *const u64, u8, u8, u8, *mut u8);
macro_rules! decl {
    ($($n:ident: $a:ty, ($($p:ty),*);)*) => { extern "C" { $(fn $n(_: $a, $(_: $p),*);)* } };
}
decl! {
    compress_portable: *mut u32, (*const u8, u8, u64, u8);
    compress_sse41: *mut u32, (*const u8, u8, u64, u8);
    compress_avx512: *mut u32, (*const u8, u8, u64, u8);
    baokeshed64_compress_portable: *mut u64, (*const u8, u8, u64, u8);
    baokeshed64_compress_avx2: *mut u64, (*const u8, u8, u64, u8);
    baokeshed64_compress_avx512: *mut u64, (*const u8, u8, u64, u8);
    hash4_sse41: *const *const u8, (usize, *const u32, u64, *const u64, u8, u8, u8, *mut u8);
    hash4_avx512: *const *const u8, (usize, *const u32, u64, *const u64, u8, u8, u8, *mut u8);
    hash8_avx2: *const *const u8, (usize, *const u32, u64, *const u64, u8, u8, u8, *mut u8);
    hash8_avx512: *const *const u8, (usize, *const u32, u64, *const u64, u8, u8, u8, *mut u8);
    hash16_avx512: *const *const u8, (usize, *const u32, u64, *const u64, u8, u8, u8, *mut u8);
    hash_many_portable: *const *const u8, (usize, usize, *const u32, u64, *const u64, u8, u8, u8, *mut u8);
    hash_many_sse41: *const *const u8, (usize, usize, *const u32, u64, *const u64, u8, u8, u8, *mut u8);
    hash_many_avx2: *const *const u8, (usize, usize, *const u32, u64, *const u64, u8, u8, u8, *mut u8);
    hash_many_avx512: *const *const u8, (usize, usize, *const u32, u64, *const u64, u8, u8, u8, *mut u8);
    baokeshed64_hash2_sse41: *const *const u8, (usize, *const u64, u64, *const u64, u8, u8, u8, *mut u8);
    baokeshed64_hash2_avx512: *const *const u8, (usize, *const u64, u64, *const u64, u8, u8, u8, *mut u8);
    baokeshed64_hash4_avx2: *const *const u8, (usize, *const u64, u64, *const u64, u8, u8, u8, *mut u8);
    baokeshed64_hash4_avx512: *const *const u8, (usize, *const u64, u64, *const u64, u8, u8, u8, *mut u8);
    baokeshed64_hash8_avx512: *const *const u8, (usize, *const u64, u64, *const u64, u8, u8, u8, *mut u8);
    baokeshed64_hash_many_portable: *const *const u8, (usize, usize, *const u64, u64, *const u64, u8, u8, u8, *mut u8);
    baokeshed64_hash_many_sse41: *const *const u8, (usize, usize, *const u64, u64, *const u64, u8, u8, u8, *mut u8);
    baokeshed64_hash_many_avx2: *const *const u8, (usize, usize, *const u64, u64, *const u64, u8, u8, u8, *mut u8);
    baokeshed64_hash_many_avx512: *const *const u8, (usize, usize, *const u64, u64, *const u64, u8, u8, u8, *mut u8);
}
macro_rules! hashers {
    ($($v:literal $i:ident $u:ident $f:ident $hs:ident $cs:ident $put:ident $ci:ident $cu:ident $cf:ident;)*) => {
        extern "C" { $(
            fn $i(h: *mut u64, key: *const u8, flags: u8);
            fn $u(h: *mut u64, p: *const u8, n: usize);
            fn $f(h: *const u64, out: *mut u8);
            fn $hs() -> usize;
            fn $cs() -> usize;
            #[cfg(vxc_put)] fn $put(h: *mut u64, off: u64, cvs: *const u8, n: usize);
            fn $ci(h: *mut u64, key: *const u32, flags: u8);
            fn $cu(h: *mut u64, p: *const u8, n: usize);
            fn $cf(h: *const u64, root: bool, out: *mut u8);
        )* }
        fn api(v: &str) -> Api { match v { $($v => Api { init: $i, update: $u, finalize: $f, hs: $hs, cs: $cs, #[cfg(vxc_put)] put: $put, ci: $ci, cu: $cu, cf: $cf },)* _ => panic!("variant") } }
    };
}
struct Api {
    init: unsafe extern "C" fn(*mut u64, *const u8, u8), update: unsafe extern "C" fn(*mut u64, *const u8, usize), finalize: unsafe extern "C" fn(*const u64, *mut u8),
    hs: unsafe extern "C" fn() -> usize, cs: unsafe extern "C" fn() -> usize,
    #[cfg(vxc_put)] put: unsafe extern "C" fn(*mut u64, u64, *const u8, usize),
    ci: unsafe extern "C" fn(*mut u64, *const u32, u8), cu: unsafe extern "C" fn(*mut u64, *const u8, usize), cf: unsafe extern "C" fn(*const u64, bool, *mut u8),
}
hashers! {
    "portable" hasher_init_portable hasher_update_portable hasher_finalize_portable vxc_hasher_size_portable vxc_chunk_size_portable vxc_put_portable chunk_state_init_portable chunk_state_update_portable chunk_state_finalize_portable;
    "sse41" hasher_init_sse41 hasher_update_sse41 hasher_finalize_sse41 vxc_hasher_size_sse41 vxc_chunk_size_sse41 vxc_put_sse41 chunk_state_init_sse41 chunk_state_update_sse41 chunk_state_finalize_sse41;
    "avx2" hasher_init_avx2 hasher_update_avx2 hasher_finalize_avx2 vxc_hasher_size_avx2 vxc_chunk_size_avx2 vxc_put_avx2 chunk_state_init_avx2 chunk_state_update_avx2 chunk_state_finalize_avx2;
    "avx512" hasher_init_avx512 hasher_update_avx512 hasher_finalize_avx512 vxc_hasher_size_avx512 vxc_chunk_size_avx512 vxc_put_avx512 chunk_state_init_avx512 chunk_state_update_avx512 chunk_state_finalize_avx512;
}
/// can this machine run the variant?
pub fn have(v: &str) -> bool {
    if v.contains("avx512") { std::is_x86_feature_detected!("avx512f") && std::is_x86_feature_detected!("avx512vl") }
    else if v.contains("avx2") { std::is_x86_feature_detected!("avx2") }
    else if v.contains("sse41") { std::is_x86_feature_detected!("sse4.1") } else { true }
}
pub const COMP: [&str; 3] = ["portable", "sse41", "avx512"];
pub const MANY: [&str; 9] = ["portable", "sse41", "avx2", "avx512", "4sse41", "8avx2", "4avx512", "8avx512", "16avx512"];
pub const COMP64: [&str; 3] = ["portable", "avx2", "avx512"];
pub const MANY64: [&str; 9] = ["portable", "sse41", "avx2", "avx512", "2sse41", "4avx2", "2avx512", "4avx512", "8avx512"];

pub fn run(c: &Case) -> Result<(), String> {
    if !have(st(c, "impl")) { return Ok(()); }
    match st(c, "kind") {
        "ccomp" => ccomp(c),
        "ccomp64" => ccomp64(c),
        "cmany" => cmany(c),
        "cmany64" => cmany64(c),
        "cinc" => cinc(c),
        "cchunk" => cchunk(c),
        _ => cincdeep(c),
    }
}
fn ccomp(c: &Case) -> Result<(), String> {
    let k = kin(c);
    let f: Comp = match st(c, "impl") { "sse41" => compress_sse41, "avx512" => compress_avx512, _ => compress_portable };
    for at_end in [false, true] {
        let cvb: Vec<u8> = k.cv.iter().flat_map(|w| w.to_ne_bytes()).collect();
        let (gcv, gbl) = (Guard::of(&cvb, at_end), Guard::of(&k.block, at_end));
        unsafe { f(gcv.ptr as *mut u32, gbl.ptr, k.len, k.off, k.flags); }
        check_eq("C compress", gcv.get(), spec::bytes(&spec::compress(&k.cv, &k.block, k.len, k.off, k.flags)))?;
        check_eq("FRAME block after C compress", gbl.get(), k.block)?;
    }
    Ok(())
}
fn ccomp64(c: &Case) -> Result<(), String> {
    let k = kin64(c);
    let f: Comp64 = match st(c, "impl") { "avx2" => baokeshed64_compress_avx2, "avx512" => baokeshed64_compress_avx512, _ => baokeshed64_compress_portable };
    for at_end in [false, true] {
        let cvb: Vec<u8> = k.cv.iter().flat_map(|w| w.to_ne_bytes()).collect();
        let (gcv, gbl) = (Guard::of(&cvb, at_end), Guard::of(&k.block, at_end));
        unsafe { f(gcv.ptr as *mut u64, gbl.ptr, k.len, k.off, k.flags); }
        check_eq("C 64-bit compress", gcv.get(), cv64(&k))?;
        check_eq("FRAME block after C 64-bit compress", gbl.get(), k.block)?;
    }
    Ok(())
}
fn guards(m: &MIn, at_end: bool) -> (Vec<Guard>, Vec<*const u8>) {
    let gs: Vec<Guard> = (0..m.n).map(|i| Guard::of(&m.data[i * m.size..(i + 1) * m.size], at_end)).collect();
    let ps = gs.iter().map(|g| g.ptr as *const u8).collect();
    (gs, ps)
}
fn deltas(m: &MIn) -> [u64; 17] { let mut d = [0u64; 17]; for i in 0..17 { d[i] = m.delta.wrapping_mul(i as u64); } d }
fn fixed(imp: &str) -> Option<(usize, &str)> {
    let d: String = imp.chars().take_while(|c| c.is_ascii_digit()).collect();
    if d.is_empty() { None } else { Some((d.parse().unwrap(), &imp[d.len()..])) }
}
fn after(m: &MIn, gs: &[Guard]) -> Result<(), String> {
    for i in 0..m.n { check_eq("input after the call, FRAME", gs[i].get(), &m.data[i * m.size..(i + 1) * m.size])?; }
    Ok(())
}
// the delta table has 17 entries, and hash_many never steps past n inputs' worth of it
fn cmany(c: &Case) -> Result<(), String> {
    let mut m = min(c);
    let imp = st(c, "impl");
    if let Some((n, _)) = fixed(imp) { m.n = n; if given(c, "data").is_none() { m.data = Rng::new(num(c, "dseed")).bytes(n * m.size); } }
    let want = many_want(&m);
    let key: Vec<u8> = m.key.iter().flat_map(|w| w.to_ne_bytes()).collect();
    let d: Vec<u8> = deltas(&m).iter().flat_map(|w| w.to_ne_bytes()).collect();
    for at_end in [false, true] {
        let (gs, ps) = guards(&m, at_end);
        let pb: Vec<u8> = ps.iter().flat_map(|p| (*p as usize).to_ne_bytes()).collect();
        let (gk, gd, gp) = (Guard::of(&key, at_end), Guard::of(&d, at_end), Guard::of(&pb, at_end));
        let go = Guard::of(&vec![0xa5; 32 * m.n + m.extra], at_end);
        let (ins, kw, dl) = (gp.ptr as *const *const u8, gk.ptr as *const u32, gd.ptr as *const u64);
        unsafe {
            match fixed(imp) {
                Some(_) => {
                    let f: HN = match imp { "4sse41" => hash4_sse41, "8avx2" => hash8_avx2, "4avx512" => hash4_avx512, "8avx512" => hash8_avx512, _ => hash16_avx512 };
                    f(ins, m.size / 64, kw, m.off, dl, m.fl[0], m.fl[1], m.fl[2], go.ptr)
                }
                None => {
                    let f: HM = match imp { "sse41" => hash_many_sse41, "avx2" => hash_many_avx2, "avx512" => hash_many_avx512, _ => hash_many_portable };
                    f(ins, m.n, m.size / 64, kw, m.off, dl, m.fl[0], m.fl[1], m.fl[2], go.ptr)
                }
            }
        }
        check_eq("C hash_many output", &go.get()[..32 * m.n], &want[..32 * m.n])?;
        check_eq("bytes beyond the output, FRAME", &go.get()[32 * m.n..], &want[32 * m.n..])?;
        after(&m, &gs)?;
        check_eq("key after the call, FRAME", gk.get(), &key)?;
        check_eq("deltas after the call, FRAME", gd.get(), &d)?;
        check_eq("input pointers after the call, FRAME", gp.get(), &pb)?;
    }
    Ok(())
}
fn cmany64(c: &Case) -> Result<(), String> {
    let mut m = min(c);
    let imp = st(c, "impl");
    if let Some((n, _)) = fixed(imp) { m.n = n; if given(c, "data").is_none() { m.data = Rng::new(num(c, "dseed")).bytes(n * m.size); } }
    let want = many_want64(&m);
    let key: Vec<u8> = key64(&m).iter().flat_map(|w| w.to_ne_bytes()).collect();
    let d: Vec<u8> = deltas(&m).iter().flat_map(|w| w.to_ne_bytes()).collect();
    for at_end in [false, true] {
        let (gs, ps) = guards(&m, at_end);
        let pb: Vec<u8> = ps.iter().flat_map(|p| (*p as usize).to_ne_bytes()).collect();
        let (gk, gd, gp) = (Guard::of(&key, at_end), Guard::of(&d, at_end), Guard::of(&pb, at_end));
        let go = Guard::of(&vec![0xa5; 32 * m.n + m.extra], at_end);
        let (ins, kw, dl) = (gp.ptr as *const *const u8, gk.ptr as *const u64, gd.ptr as *const u64);
        unsafe {
            match fixed(imp) {
                Some(_) => {
                    let f: HN64 = match imp { "2sse41" => baokeshed64_hash2_sse41, "4avx2" => baokeshed64_hash4_avx2, "2avx512" => baokeshed64_hash2_avx512, "4avx512" => baokeshed64_hash4_avx512, _ => baokeshed64_hash8_avx512 };
                    f(ins, m.size / 128, kw, m.off, dl, m.fl[0], m.fl[1], m.fl[2], go.ptr)
                }
                None => {
                    let f: HM64 = match imp { "sse41" => baokeshed64_hash_many_sse41, "avx2" => baokeshed64_hash_many_avx2, "avx512" => baokeshed64_hash_many_avx512, _ => baokeshed64_hash_many_portable };
                    f(ins, m.n, m.size / 128, kw, m.off, dl, m.fl[0], m.fl[1], m.fl[2], go.ptr)
                }
            }
        }
        check_eq("C 64-bit hash_many output", &go.get()[..32 * m.n], &want[..32 * m.n])?;
        check_eq("bytes beyond the output, FRAME", &go.get()[32 * m.n..], &want[32 * m.n..])?;
        after(&m, &gs)?;
        check_eq("key after the call, FRAME", gk.get(), &key)?;
        check_eq("deltas after the call, FRAME", gd.get(), &d)?;
    }
    Ok(())
}
struct H { g: Guard, a: Api, n: usize }
impl H {
    fn new(v: &str) -> H { let a = api(v); let n = unsafe { (a.hs)() }; H { g: Guard::new((n + 7) / 8 * 8, true), a, n } }
    fn p(&self) -> *mut u64 { self.g.ptr as *mut u64 }
    fn update(&self, d: &[u8]) {
        // small inputs sit against an unreadable page
        if d.len() <= 70_000 { let g = Guard::of(d, d.len() % 2 == 0); unsafe { (self.a.update)(self.p(), g.ptr, d.len()) } }
        else { unsafe { (self.a.update)(self.p(), d.as_ptr(), d.len()) } }
    }
    fn finalize(&self) -> Result<Vec<u8>, String> {
        let before = self.g.get().to_vec();
        let o = Guard::new(32, true);
        unsafe { (self.a.finalize)(self.p(), o.ptr) }
        check_eq("hasher after finalize", self.g.get(), &before)?;
        Ok(o.get().to_vec())
    }
}
fn ops(c: &Case) -> Vec<(char, usize)> { st(c, "ops").split(',').filter(|s| !s.is_empty()).map(|s| (s.chars().next().unwrap(), s[1..].parse().unwrap_or(0))).collect() }
fn cinc(c: &Case) -> Result<(), String> {
    let ops = ops(c);
    let total: usize = ops.iter().filter(|o| o.0 == 'u').map(|o| o.1).sum();
    let data = Data::make(st(c, "pat"), num(c, "dseed"), total);
    let d = data.get(total);
    let (k, kw, fl) = mode(st(c, "mode"), num(c, "dseed"));
    let kb = if fl == 0 { spec::bytes(&kw) } else { k };
    let h = H::new(st(c, "impl"));
    Rng::new(num(c, "dseed") ^ 3).fill(h.g.get_mut()); // hasher_init gets uninitialised memory
    unsafe { (h.a.init)(h.p(), kb.as_ptr(), fl); }
    let mut p = 0;
    for (i, (op, n)) in ops.iter().enumerate() {
        match op {
            'u' => { h.update(&d[p..p + n]); p += n; }
            _ => check_eq(&format!("C finalize at op {} after {} bytes", i, p), h.finalize()?, spec::root(&kw, fl, &d[..p]).cv())?,
        }
    }
    check_eq("C final hash", h.finalize()?, spec::root(&kw, fl, d).cv())?;
    let _ = h.n;
    Ok(())
}
fn cchunk(c: &Case) -> Result<(), String> {
    let ops = ops(c);
    let total: usize = ops.iter().map(|o| o.1).sum();
    let d = Rng::new(num(c, "dseed")).bytes(total);
    let (_, kw, fl) = mode(st(c, "mode"), num(c, "dseed"));
    let a = api(st(c, "impl"));
    let n = (unsafe { (a.cs)() } + 7) / 8 * 8;
    let g = Guard::new(n, true);
    Rng::new(9).fill(g.get_mut());
    unsafe { (a.ci)(g.ptr as *mut u64, kw.as_ptr(), fl); }
    let mut p = 0;
    for (_, n) in ops { unsafe { (a.cu)(g.ptr as *mut u64, d[p..].as_ptr(), n); } p += n; }
    for root in [false, true] {
        let o = Guard::new(32, true);
        unsafe { (a.cf)(g.ptr as *const u64, root, o.ptr); }
        check_eq("chunk state", o.get(), spec::chunk(&kw, &d, 0, fl, if root { spec::ROOT } else { 0 }).cv())?;
    }
    Ok(())
}
#[cfg(not(vxc_put))]
fn cincdeep(_: &Case) -> Result<(), String> { Ok(()) }
#[cfg(vxc_put)]
fn cincdeep(c: &Case) -> Result<(), String> {
    let n = num(c, "n");
    let deep = Deep::new(n, num(c, "unmerged") == 1, num(c, "dseed"));
    let (k, kw, fl) = mode(st(c, "mode"), num(c, "dseed"));
    let kb = if fl == 0 { spec::bytes(&kw) } else { k };
    let h = H::new(st(c, "impl"));
    unsafe { (h.a.init)(h.p(), kb.as_ptr(), fl); }
    let cvs: Vec<Cv> = deep.parts.iter().map(|p| p.2).collect();
    unsafe { (h.a.put)(h.p(), n.wrapping_mul(2048), cvs.concat().as_ptr(), cvs.len()); }
    let ops = ops(c);
    let total: usize = ops.iter().map(|o| o.1).sum();
    let d = Rng::new(num(c, "dseed")).bytes(total);
    let mut p = 0;
    for (op, m) in ops {
        if op == 'u' { h.update(&d[p..p + m]); p += m; }
        if p > 0 || num(c, "unmerged") == 1 {
            check_eq(&format!("C finalize after {} chunks and {} bytes", n, p), h.finalize()?, deep.root(&kw, fl, &d[..p]).cv())?;
        }
    }
    Ok(())
}
