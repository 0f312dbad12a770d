// private items of MalAby3 that obligations look at (layer B)
#[cfg(vp_layer_b)]
pub fn prf<N: super::NetworkTrait>(e: &mut super::MalAby3<N>) -> &mut super::Prf { &mut e.prf }
#[cfg(vp_layer_b)]
pub async fn reseed<N: super::NetworkTrait>(e: &mut super::MalAby3<N>, s: [[u8; 32]; 3]) -> Result<(), crate::error::Error> { e.setup_prf_from_seed(s[0], s[1]).await }
#[cfg(vp_layer_b)]
pub async fn coin<N: super::NetworkTrait>(e: &mut super::MalAby3<N>) -> Result<[u8; 32], crate::error::Error> { e.coin::<rand_chacha::ChaCha12Rng>().await }
