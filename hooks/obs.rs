use super::ob::Obs;
pub fn collect(obs: &mut Obs, only: &str) {
    #[cfg(vp_c01)]
    super::obs_arith::collect_c01(obs);
    #[cfg(vp_c02)]
    super::obs_arith::collect_c02(obs);
    #[cfg(vp_c03)]
    super::obs_arith::collect_c03(obs);
    #[cfg(vp_c04)]
    super::obs_arith::collect_c04(obs);
    #[cfg(vp_c05)]
    super::obs_msb::collect_c05(obs);
    #[cfg(vp_c06)]
    super::obs_msb::collect_c06(obs);
    #[cfg(vp_c07)]
    super::obs_iris::collect_c07(obs);
    #[cfg(vp_c16)]
    super::obs_triples::collect_c16(obs);
    #[cfg(vp_c09)]
    super::obs_types::collect_c09(obs);
    #[cfg(vp_c11)]
    super::obs_types::collect_c11(obs);
    #[cfg(vp_c08)]
    super::obs_types::collect_c08(obs);
    #[cfg(vp_c12)]
    super::obs_dzkp::collect_c12(obs);
    #[cfg(vp_c13)]
    super::obs_dzkp::collect_c13(obs);
    #[cfg(vp_c14)]
    super::obs_active::collect_c14(obs);
    #[cfg(vp_c15)]
    super::obs_active::collect_c15(obs);
    #[cfg(vp_c17)]
    super::obs_rand::collect_c17(obs);
    #[cfg(vp_c18)]
    super::obs_size::collect_c18(obs);
    #[cfg(vp_c19)]
    super::obs_size::collect_c19(obs);
    #[cfg(vp_kn)]
    super::kn::collect(obs);
    obs.v.retain(|o| only.is_empty() || only.split(',').any(|p| o.prop == p || o.name.contains(p)) || only.strip_prefix('=') == Some(o.name.as_str()));
}
/// entry point of the shared library: runs the obligations selected by VP_ONLY
#[no_mangle]
pub extern "C" fn vp_main() {
    let only = std::env::var("VP_ONLY").unwrap_or_default();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let mut obs = Obs { v: vec![], seed, thorough };
    collect(&mut obs, &only);
    super::ob::run_all(obs, 8);
}
