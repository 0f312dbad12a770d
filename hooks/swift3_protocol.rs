// private items of Swift3 that obligations look at (layer B)
#[cfg(vp_layer_b)]
pub fn prf<N: super::NetworkTrait, U: super::Sharable>(e: &mut super::Swift3<N, U>) -> &mut super::Prf { &mut e.prf }
#[cfg(vp_layer_b)]
pub async fn reseed<N: super::NetworkTrait, U: super::Sharable>(e: &mut super::Swift3<N, U>, s: [[u8; 32]; 3]) -> Result<(), crate::error::Error>
where rand::distributions::Standard: rand::distributions::Distribution<U::Share> { e.setup_prf_from_seed(s).await }
#[cfg(vp_layer_b)]
pub async fn coin<N: super::NetworkTrait, U: super::Sharable>(e: &mut super::Swift3<N, U>, r: &mut rand_chacha::ChaCha12Rng) -> Result<[u8; 32], crate::error::Error>
where rand::distributions::Standard: rand::distributions::Distribution<U::Share> { e.coin::<rand_chacha::ChaCha12Rng>(r).await }
