// private items of Aby3 that obligations look at (layer B)
#[cfg(vp_layer_b)]
pub fn prf<N: super::NetworkTrait>(e: &mut super::Aby3<N>) -> &mut super::Prf { &mut e.prf }
#[cfg(vp_layer_b)]
pub async fn reseed<N: super::NetworkTrait>(e: &mut super::Aby3<N>, s: [[u8; 32]; 3]) -> Result<(), crate::error::Error> { e.setup_prf_from_seed(s[0]).await }
