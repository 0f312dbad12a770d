pub use crate::aby3::protocol::Aby3;
pub use crate::aby3::share::Share as AShare;
pub use crate::aby3_mal::protocol::MalAby3;
pub use crate::error::Error;
pub use crate::prelude::{PartyTestNetwork, TestNetwork3p};
pub use crate::spdzwise::protocol::SpdzWise;
pub use crate::spdzwise::share::Share as PShare;
pub use crate::swift3::protocol::Swift3;
pub use crate::swift3::share::Share as SShare;
pub use crate::traits::binary_trait::BinaryMpcTrait;
pub use crate::traits::mpc_trait::{MpcTrait, Plain};
pub use crate::traits::share_trait::{ShareTrait, VecShareTrait};
pub use crate::types::bit::Bit;
pub use crate::types::int_ring::IntRing2k;
pub use crate::types::ring_element::{RingElement, RingImpl};
pub use crate::types::sharable::Sharable;
pub use num_traits::{One, Zero};
pub use plain_reference::{IrisCode, IrisCodeArray};
pub use rand::{Rng, SeedableRng};
pub use rand_chacha::ChaCha12Rng;
/// runs the three parties to completion on an in-memory network
pub fn run3<R, F: std::future::Future<Output = R>>(f: impl Fn(usize, PartyTestNetwork) -> F) -> Vec<R> {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async {
        let [a, b, c] = TestNetwork3p::new().get_party_networks();
        let (x, y, z) = futures::join!(f(0, a), f(1, b), f(2, c));
        vec![x, y, z]
    })
}
