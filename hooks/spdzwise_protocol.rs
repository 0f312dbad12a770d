// private items of SpdzWise that obligations look at (layer B)
#[cfg(vp_layer_b)]
pub fn pool<N: super::NetworkTrait, U: super::Sharable>(e: &super::SpdzWise<N, U>) -> super::Triples { e.prec_triples.clone() }
#[cfg(vp_layer_b)]
pub fn buffer<N: super::NetworkTrait, U: super::Sharable>(e: &super::SpdzWise<N, U>) -> super::Triples { e.triple_buffer.clone() }
#[cfg(vp_layer_b)]
pub type Tr = super::Triples;
#[cfg(vp_layer_b)]
pub fn aby<N: super::NetworkTrait, U: super::Sharable>(e: &mut super::SpdzWise<N, U>) -> &mut crate::aby3::protocol::Aby3<N> { &mut e.aby3 }
#[cfg(vp_layer_b)]
pub async fn coin<N: super::NetworkTrait, U: super::Sharable>(e: &mut super::SpdzWise<N, U>) -> Result<[u8; 32], crate::error::Error>
where rand::distributions::Standard: rand::distributions::Distribution<U::Share>, crate::aby3::share::Share<U>: std::ops::Mul<U::Share, Output = crate::aby3::share::Share<U>> { e.coin::<rand_chacha::ChaCha12Rng>().await }
