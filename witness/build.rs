fn main() {
    println!("cargo:rustc-check-cfg=cfg(vxc_put)");
    if std::env::var_os("CARGO_FEATURE_C").is_none() { return; }
    let variants: &[(&str, &[&str])] = &[
        ("portable", &[]),
        ("sse41", &["BAOKESHED_USE_SSE41"]),
        ("avx2", &["BAOKESHED_USE_SSE41", "BAOKESHED_USE_AVX2"]),
        ("avx512", &["BAOKESHED_USE_SSE41", "BAOKESHED_USE_AVX2", "BAOKESHED_USE_AVX512"]),
    ];
    let mk = |v: &str, defs: &[&str], put: bool| {
        let mut b = cc::Build::new();
        b.file("cshim.c").flag("-std=c11").flag("-UNDEBUG").warnings(false).cargo_warnings(false);
        for f in ["hasher_init", "hasher_update", "hasher_finalize", "chunk_state_init", "chunk_state_reset", "chunk_state_update", "chunk_state_finalize", "vxc_hasher_size", "vxc_chunk_size", "vxc_put"] {
            b.define(f, Some(format!("{}_{}", f, v).as_str()));
        }
        for d in defs { b.define(d, "1"); }
        if put { b.define("VXC_PUT", "1"); }
        b.try_compile(&format!("vxc_{}", v))
    };
    let mut put = true;
    for (v, defs) in variants { if mk(v, defs, true).is_err() { put = false; } }
    if put { println!("cargo:rustc-cfg=vxc_put"); } else { for (v, defs) in variants { mk(v, defs, false).expect("C build"); } }
    println!("cargo:rerun-if-changed=../repo/c");
    println!("cargo:rerun-if-changed=cshim.c");
}
