// Verification root: compiled into the real crate under `--cfg vp_hooks`.
macro_rules! vp_run3 {
    ($hub:expr, $es:expr, |$i:ident, $e:ident| $body:expr) => {{
        let (l, r) = $es.split_at_mut(1);
        let (m, r) = r.split_at_mut(1);
        $crate::vp_hooks::net::join3(
            $hub,
            { let $i = 0usize; let $e = &mut l[0]; let _ = $i; $body },
            { let $i = 1usize; let $e = &mut m[0]; let _ = $i; $body },
            { let $i = 2usize; let $e = &mut r[0]; let _ = $i; $body },
        )
    }};
}
#[cfg(not(kani))]
#[allow(dead_code, unused_imports, clippy::all)]
pub mod sym { include!(concat!(env!("VP_HOOKS_DIR"), "/sym.rs")); }
#[cfg(not(kani))]
#[allow(dead_code, unused_imports, clippy::all)]
pub mod net { include!(concat!(env!("VP_HOOKS_DIR"), "/net.rs")); }
#[cfg(not(kani))]
#[allow(dead_code, unused_imports, clippy::all)]
pub mod ob { include!(concat!(env!("VP_HOOKS_DIR"), "/ob.rs")); }
#[cfg(not(kani))]
#[allow(dead_code, unused_imports, clippy::all)]
pub mod eng { include!(concat!(env!("VP_HOOKS_DIR"), "/eng.rs")); }
#[cfg(not(kani))]
#[allow(dead_code, unused_imports, clippy::all)]
pub mod obs_arith { include!(concat!(env!("VP_HOOKS_DIR"), "/obs_arith.rs")); }
#[cfg(any(vp_c05, vp_c06, vp_c07, vp_c14, vp_c15, vp_c16, vp_c17, vp_c18, vp_c19))]
#[allow(dead_code, unused_imports, clippy::all)]
pub mod obs_msb { include!(concat!(env!("VP_HOOKS_DIR"), "/obs_msb.rs")); }
#[cfg(any(vp_c07, vp_c14, vp_c15, vp_c16, vp_c17, vp_c18, vp_c19))]
#[allow(dead_code, unused_imports, clippy::all)]
pub mod obs_iris { include!(concat!(env!("VP_HOOKS_DIR"), "/obs_iris.rs")); }
#[cfg(any(vp_c18, vp_c19))]
#[allow(dead_code, unused_imports, clippy::all)]
pub mod obs_size { include!(concat!(env!("VP_HOOKS_DIR"), "/obs_size.rs")); }
#[cfg(vp_c17)]
#[allow(dead_code, unused_imports, clippy::all)]
pub mod obs_rand { include!(concat!(env!("VP_HOOKS_DIR"), "/obs_rand.rs")); }
#[cfg(vp_c16)]
#[allow(dead_code, unused_imports, clippy::all)]
pub mod obs_triples { include!(concat!(env!("VP_HOOKS_DIR"), "/obs_triples.rs")); }
#[cfg(not(kani))]
#[allow(dead_code, unused_imports, clippy::all)]
pub mod obs { include!(concat!(env!("VP_HOOKS_DIR"), "/obs.rs")); }
#[cfg(any(vp_c08, vp_c09, vp_c11))]
#[allow(dead_code, unused_imports, clippy::all)]
pub mod obs_types { include!(concat!(env!("VP_HOOKS_DIR"), "/obs_types.rs")); }
#[cfg(any(vp_c12, vp_c13, vp_c14))]
#[allow(dead_code, unused_imports, clippy::all)]
pub mod obs_dzkp { include!(concat!(env!("VP_HOOKS_DIR"), "/obs_dzkp.rs")); }
#[cfg(any(vp_c14, vp_c15, vp_c17))]
#[allow(dead_code, unused_imports, clippy::all)]
pub mod obs_active { include!(concat!(env!("VP_HOOKS_DIR"), "/obs_active.rs")); }
#[cfg(vp_kn)]
#[allow(dead_code, unused_imports, clippy::all)]
pub mod kn_shim { include!(concat!(env!("VP_HOOKS_DIR"), "/kn_shim.rs")); }
#[cfg(vp_kn)]
#[allow(dead_code, unused_imports, clippy::all)]
pub mod kn { include!(concat!(env!("VP_GEN_DIR"), "/kn.rs")); }
#[cfg(any(kani, vp_kn))]
#[allow(dead_code, unused_imports, clippy::all)]
pub mod k { include!(concat!(env!("VP_HOOKS_DIR"), "/kani_exports.rs")); }
