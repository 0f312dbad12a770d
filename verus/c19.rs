// C19: the size and party checks of every operation that takes lists or a party, for all lengths and all ids.
// Of each function the text up to and including its checks is kept, with the element types abstracted; what follows
// the last check (`rest`) may do anything to the engine and return anything, so it contributes nothing to the contract:
// a mismatch gives an error, and the engine (its network, its randomness, its queues) is as it was before.
// The dropped text between the checks must not await anything or name the network.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub enum Error { InvalidSizeError, InvalidCodeSizeError, IdError(usize), ValueError, Other }
pub struct E { pub x: u128 }
pub struct Mask { pub x: u8 }
pub struct IrisCodeArray { pub x: u8 }
impl IrisCodeArray { pub const IRIS_CODE_SIZE: usize = 12800; }
pub struct VecShare { pub values: Vec<E>, pub macs: Vec<E> }
impl VecShare {
    pub fn len(&self) -> (r: usize) ensures r == self.values@.len() { self.values.len() }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.values@.len() == 0) { self.values.len() == 0 }
}
/// what follows the checks
#[verifier::external_body] pub fn rest<A, R>(a: &mut A) -> (r: Result<R, Error>) { unimplemented!() }
#[verifier::external_body] pub fn rest_ref<A, R>(a: &A) -> (r: Result<R, Error>) { unimplemented!() }
pub struct Network { pub messages: Ghost<Seq<Seq<u8>>> }
impl Network {
    /// the engines refuse a network without three parties (C18)
    #[verifier::external_body] pub fn get_num_parties(&self) -> (r: usize) ensures r == 3 { unimplemented!() }
}
pub mod aby3 {
use super::*; use vstd::prelude::*;
pub struct Engine { pub network: Network, pub prf: u64, pub queue: Ghost<Seq<u8>> }
impl Engine {
//@ extract iris-mpc/src/aby3/protocol.rs fn dot in "impl<N: NetworkTrait, T: Sharable> MpcTrait<T, Share<T>, Share<Bit>> for Aby3<N>"
//@ re "^.*?\bfn dot\b[^{]*\{" => "pub fn dot(&mut self, a: Vec<E>, b: Vec<E>) -> (r: Result<E, Error>) ensures a@.len() != b@.len() ==> r is Err && *final(self) == *old(self) {"
//@ re "^(.*return Err\(Error::InvalidSizeError\);\s*\}).*$" => "\1 rest(self) }"
//@ end
//@ extract iris-mpc/src/aby3/protocol.rs fn dot_many in "impl<N: NetworkTrait, T: Sharable> MpcTrait<T, Share<T>, Share<Bit>> for Aby3<N>"
//@ re "^.*?\bfn dot_many\b[^{]*\{" => "pub fn dot_many(&mut self, a: &[Vec<E>], b: &[Vec<E>]) -> (r: Result<Vec<E>, Error>) ensures (a@.len() != b@.len() || exists|i: int| 0 <= i < a@.len() && (#[trigger] a@[i])@.len() != b@[i]@.len()) ==> r is Err && *final(self) == *old(self) {"
//@ re "(return Err\(Error::InvalidSizeError\);\s*\})(?:(?!await|network|return|\bfor\b).)*?for \((\w+), (\w+)\) in [^{]*\{(?:(?!await|network|return|\bfor\b).)*?(if [^{]*\{\s*return Err\(Error::InvalidSizeError\);\s*\}).*$" => "\1 #[verifier::loop_isolation(false)] for i in 0..a.len() invariant *self == *old(self), a@.len() == b@.len(), forall|k: int| 0 <= k < i ==> (#[trigger] a@[k])@.len() == b@[k]@.len() { let \2 = &a[i]; let \3 = &b[i]; \4 } rest(self) }"
//@ end
//@ extract iris-mpc/src/aby3/protocol.rs fn masked_dot_many in "impl<N: NetworkTrait, T: Sharable> MpcTrait<T, Share<T>, Share<Bit>> for Aby3<N>"
//@ re "^.*?\bfn masked_dot_many\b[^{]*\{" => "pub fn masked_dot_many(&mut self, a: &Vec<E>, b: &[Vec<E>], masks: &[Mask]) -> (r: Result<Vec<E>, Error>) ensures (b@.len() != masks@.len() || (b@.len() > 0 && a@.len() != 12800) || exists|i: int| 0 <= i < b@.len() && (#[trigger] b@[i])@.len() != 12800) ==> r is Err && *final(self) == *old(self) {"
//@ re "(return Err\(Error::InvalidSizeError\);\s*\})(?:(?!await|network|return|\bfor\b).)*?for \((\w+), (\w+)\) in [^{]*\{(?:(?!await|network|return|\bfor\b).)*?(if [^{]*\{\s*return Err\(Error::InvalidSizeError\);\s*\}).*$" => "\1 #[verifier::loop_isolation(false)] for i in 0..b.len() invariant *self == *old(self), b@.len() == masks@.len() && a@.len() == 12800, forall|k: int| 0 <= k < i ==> (#[trigger] b@[k])@.len() == 12800 { let \2 = &b[i]; let \3 = &masks[i]; \4 } rest(self) }"
//@ end
//@ extract iris-mpc/src/aby3/protocol.rs fn and_many in "impl<N: NetworkTrait, T: Sharable> BinaryMpcTrait<T, Share<T>> for Aby3<N>"
//@ re "^.*?\bfn and_many\b[^{]*\{" => "pub fn and_many(&mut self, a: &Vec<E>, b: &Vec<E>) -> (r: Result<Vec<E>, Error>) ensures a@.len() != b@.len() ==> r is Err && *final(self) == *old(self) {"
//@ re "^(.*return Err\(Error::InvalidSizeError\);\s*\}).*$" => "\1 rest(self) }"
//@ end
//@ extract iris-mpc/src/aby3/protocol.rs fn msb_adder_many in "impl<N: NetworkTrait> Aby3<N>"
//@ re "^.*?\bfn msb_adder_many\b[^{]*\{" => "pub fn msb_adder_many(&mut self, x1: Vec<E>, x2: Vec<E>, x3: Vec<E>) -> (r: Result<Vec<E>, Error>) ensures (x1@.len() != x2@.len() || x1@.len() != x3@.len()) ==> r is Err && *final(self) == *old(self) {"
//@ re "^(.*return Err\(Error::InvalidSizeError\);\s*\}).*$" => "\1 rest(self) }"
//@ end
//@ extract iris-mpc/src/aby3/protocol.rs fn input in "impl<N: NetworkTrait, T: Sharable> MpcTrait<T, Share<T>, Share<Bit>> for Aby3<N>"
//@ re "^.*?\bfn input\b[^{]*\{" => "pub fn input(&mut self, input: Option<E>, id: usize) -> (r: Result<E, Error>) ensures id >= 3 ==> r is Err && *final(self) == *old(self) {"
//@ re "^(.*return Err\(Error::IdError\(id\)\);\s*\}).*$" => "\1 rest(self) }"
//@ end
}
}
pub mod mal {
use super::*; use vstd::prelude::*;
pub struct Engine { pub network: Network, pub prf: u64, pub queue: Ghost<Seq<u8>> }
impl Engine {
//@ extract iris-mpc/src/aby3_mal/protocol.rs fn dot in "impl<N: NetworkTrait, T: Sharable> MpcTrait<T, Share<T>, Share<Bit>> for MalAby3<N>"
//@ re "^.*?\bfn dot\b[^{]*\{" => "pub fn dot(&mut self, a: Vec<E>, b: Vec<E>) -> (r: Result<E, Error>) ensures a@.len() != b@.len() ==> r is Err && *final(self) == *old(self) {"
//@ re "^(.*return Err\(Error::InvalidSizeError\);\s*\}).*$" => "\1 rest(self) }"
//@ end
//@ extract iris-mpc/src/aby3_mal/protocol.rs fn dot_many in "impl<N: NetworkTrait, T: Sharable> MpcTrait<T, Share<T>, Share<Bit>> for MalAby3<N>"
//@ re "^.*?\bfn dot_many\b[^{]*\{" => "pub fn dot_many(&mut self, a: &[Vec<E>], b: &[Vec<E>]) -> (r: Result<Vec<E>, Error>) ensures a@.len() != b@.len() ==> r is Err && *final(self) == *old(self) {"
//@ re "^(.*return Err\(Error::InvalidSizeError\);\s*\}).*$" => "\1 rest(self) }"
//@ end
//@ extract iris-mpc/src/aby3_mal/protocol.rs fn aby_dot_many in "impl<N: NetworkTrait> MalAby3<N>"
//@ re "^.*?\bfn aby_dot_many\b[^{]*\{" => "pub fn aby_dot_many(&mut self, a: Vec<Vec<E>>, b: Vec<Vec<E>>) -> (r: Result<Vec<E>, Error>) ensures (a@.len() != b@.len() || exists|i: int| 0 <= i < a@.len() && (#[trigger] a@[i])@.len() != b@[i]@.len()) ==> r is Err && *final(self) == *old(self) {"
//@ re "(return Err\(Error::InvalidSizeError\);\s*\})(?:(?!await|network|return|\bfor\b).)*?for \((\w+), (\w+)\) in [^{]*\{(?:(?!await|network|return|\bfor\b).)*?(if [^{]*\{\s*return Err\(Error::InvalidSizeError\);\s*\}).*$" => "\1 #[verifier::loop_isolation(false)] for i in 0..a.len() invariant *self == *old(self), a@.len() == b@.len(), forall|k: int| 0 <= k < i ==> (#[trigger] a@[k])@.len() == b@[k]@.len() { let \2 = &a[i]; let \3 = &b[i]; \4 } rest(self) }"
//@ end
//@ extract iris-mpc/src/aby3_mal/protocol.rs fn and_many in "impl<N: NetworkTrait, T: Sharable> BinaryMpcTrait<T, Share<T>> for MalAby3<N>"
//@ re "^.*?\bfn and_many\b[^{]*\{" => "pub fn and_many(&mut self, a: &Vec<E>, b: &Vec<E>) -> (r: Result<Vec<E>, Error>) ensures a@.len() != b@.len() ==> r is Err && *final(self) == *old(self) {"
//@ re "^(.*return Err\(Error::InvalidSizeError\);\s*\}).*$" => "\1 rest(self) }"
//@ end
//@ extract iris-mpc/src/aby3_mal/protocol.rs fn input in "impl<N: NetworkTrait, T: Sharable> MpcTrait<T, Share<T>, Share<Bit>> for MalAby3<N>"
//@ re "^.*?\bfn input\b[^{]*\{" => "pub fn input(&mut self, input: Option<E>, id: usize) -> (r: Result<E, Error>) ensures id >= 3 ==> r is Err && *final(self) == *old(self) {"
//@ re "^(.*return Err\(Error::IdError\(id\)\);\s*\}).*$" => "\1 rest(self) }"
//@ end
//@ extract iris-mpc/src/aby3_mal/protocol.rs fn reconstruct_id in "impl<N: NetworkTrait> MalAby3<N>"
//@ re "^.*?\bfn reconstruct_id\b[^{]*\{" => "pub fn reconstruct_id(&mut self, share: E, id: usize) -> (r: Result<Option<E>, Error>) ensures id >= 3 ==> r is Err && *final(self) == *old(self) {"
//@ re "^(.*return Err\(Error::IdError\(id\)\);\s*\}).*$" => "\1 rest(self) }"
//@ end
}
}
pub mod swift3 {
use super::*; use vstd::prelude::*;
pub struct Engine { pub network: Network, pub prf: u64, pub queue: Ghost<Seq<u8>> }
impl Engine {
//@ extract iris-mpc/src/swift3/protocol.rs fn dot in "impl<N: NetworkTrait, T: Sharable> MpcTrait<T, Share<T>, Share<Bit>> for Swift3<N, T>"
//@ re "^.*?\bfn dot\b[^{]*\{" => "pub fn dot(&mut self, a: Vec<E>, b: Vec<E>) -> (r: Result<E, Error>) ensures a@.len() != b@.len() ==> r is Err && *final(self) == *old(self) {"
//@ re "^(.*return Err\(Error::InvalidSizeError\);\s*\}).*$" => "\1 rest(self) }"
//@ end
//@ extract iris-mpc/src/swift3/protocol.rs fn dot_many in "impl<N: NetworkTrait, T: Sharable> MpcTrait<T, Share<T>, Share<Bit>> for Swift3<N, T>"
//@ re "^.*?\bfn dot_many\b[^{]*\{" => "pub fn dot_many(&mut self, a: &[Vec<E>], b: &[Vec<E>]) -> (r: Result<Vec<E>, Error>) ensures (a@.len() != b@.len() || exists|i: int| 0 <= i < a@.len() && (#[trigger] a@[i])@.len() != b@[i]@.len()) ==> r is Err && *final(self) == *old(self) {"
//@ re "(return Err\(Error::InvalidSizeError\);\s*\})(?:(?!await|network|return|\bfor\b).)*?for \((\w+), (\w+)\) in [^{]*\{(?:(?!await|network|return|\bfor\b).)*?(if [^{]*\{\s*return Err\(Error::InvalidSizeError\);\s*\}).*$" => "\1 #[verifier::loop_isolation(false)] for i in 0..a.len() invariant *self == *old(self), a@.len() == b@.len(), forall|k: int| 0 <= k < i ==> (#[trigger] a@[k])@.len() == b@[k]@.len() { let \2 = &a[i]; let \3 = &b[i]; \4 } rest(self) }"
//@ end
//@ extract iris-mpc/src/swift3/protocol.rs fn and_many in "impl<N: NetworkTrait, T: Sharable, U: Sharable> BinaryMpcTrait<T, Share<T>> for Swift3<N, U>"
//@ re "^.*?\bfn and_many\b[^{]*\{" => "pub fn and_many(&mut self, a: &Vec<E>, b: &Vec<E>) -> (r: Result<Vec<E>, Error>) ensures a@.len() != b@.len() ==> r is Err && *final(self) == *old(self) {"
//@ re "^(.*return Err\(Error::InvalidSizeError\);\s*\}).*$" => "\1 rest(self) }"
//@ end
//@ extract iris-mpc/src/swift3/protocol.rs fn input in "impl<N: NetworkTrait, T: Sharable> MpcTrait<T, Share<T>, Share<Bit>> for Swift3<N, T>"
//@ re "^.*?\bfn input\b[^{]*\{" => "pub fn input(&mut self, input: Option<E>, id: usize) -> (r: Result<E, Error>) ensures id >= 3 ==> r is Err && *final(self) == *old(self) {"
//@ re "^(.*return Err\(Error::IdError\(id\)\);\s*\}).*$" => "\1 rest(self) }"
//@ end
}
}
pub mod plain {
use super::*; use vstd::prelude::*;
pub struct Engine { pub network: Network, pub prf: u64, pub queue: Ghost<Seq<u8>> }
impl Engine {
//@ extract iris-mpc/src/traits/mpc_trait.rs fn dot in "impl<T: Sharable> MpcTrait<T, T, Bit> for Plain"
//@ re "^.*?\bfn dot\b[^{]*\{" => "pub fn dot(&mut self, a: Vec<E>, b: Vec<E>) -> (r: Result<E, Error>) ensures a@.len() != b@.len() ==> r is Err && *final(self) == *old(self) {"
//@ re "^(.*return Err\(Error::InvalidSizeError\);\s*\}).*$" => "\1 rest(self) }"
//@ end
    /// the plain engine's dot product: its contract above, and no state
    #[verifier::external_body] pub fn dot_checked(&self, a: Vec<E>, b: Vec<E>) -> (r: Result<E, Error>) ensures a@.len() != b@.len() ==> r is Err { unimplemented!() }
//@ extract iris-mpc/src/traits/mpc_trait.rs fn dot_many in "impl<T: Sharable> MpcTrait<T, T, Bit> for Plain"
//@ re "^.*?\bfn dot_many\b[^{]*\{" => "pub fn dot_many(&mut self, a: &[Vec<E>], b: &[Vec<E>]) -> (r: Result<Vec<E>, Error>) ensures (a@.len() != b@.len() || exists|i: int| 0 <= i < a@.len() && (#[trigger] a@[i])@.len() != b@[i]@.len()) ==> r is Err && *final(self) == *old(self) {"
//@ re "(return Err\(Error::InvalidSizeError\);\s*\})(?:(?!await|network|return|\bfor\b).)*?for \((\w+), (\w+)\) in [^{]*\{\s*let (\w+) = self\.dot\(([^;]*)\)\.await\?;\s*(?:res\.push\(\w+\);)?\s*\}.*$" => "\1 #[verifier::loop_isolation(false)] for i in 0..a.len() invariant *self == *old(self), a@.len() == b@.len(), forall|k: int| 0 <= k < i ==> (#[trigger] a@[k])@.len() == b@[k]@.len() { let \2 = &a[i]; let \3 = &b[i]; let \4 = self.dot_checked(copy(\2), copy(\3))?; } rest(self) }"
//@ end
}
}
pub mod spdzwise {
use super::*; use vstd::prelude::*;
pub struct Engine { pub network: Network, pub prf: u64, pub queue: Ghost<Seq<u8>> }
impl Engine {
//@ extract iris-mpc/src/spdzwise/protocol.rs fn dot in "impl<N: NetworkTrait, T: Sharable> MpcTrait<T, TShare<T>, Aby3Share<Bit>> for SpdzWise<N, T::VerificationShare>"
//@ re "^.*?\bfn dot\b[^{]*\{" => "pub fn dot(&mut self, a: VecShare, b: VecShare) -> (r: Result<E, Error>) ensures a.values@.len() != b.values@.len() ==> r is Err && *final(self) == *old(self) {"
//@ re "^(.*return Err\(Error::InvalidSizeError\);\s*\}).*$" => "\1 rest(self) }"
//@ end
//@ extract iris-mpc/src/spdzwise/protocol.rs fn dot_many in "impl<N: NetworkTrait, T: Sharable> MpcTrait<T, TShare<T>, Aby3Share<Bit>> for SpdzWise<N, T::VerificationShare>"
//@ re "^.*?\bfn dot_many\b[^{]*\{" => "pub fn dot_many(&mut self, a: &[VecShare], b: &[VecShare]) -> (r: Result<Vec<E>, Error>) ensures (a@.len() != b@.len() || exists|i: int| 0 <= i < a@.len() && (#[trigger] a@[i]).values@.len() != b@[i].values@.len()) ==> r is Err && *final(self) == *old(self) {"
//@ re "(return Err\(Error::InvalidSizeError\);\s*\})(?:(?!await|network|return|\bfor\b).)*?for \((\w+), (\w+)\) in [^{]*\{\s*let \((\w+), \w+\) = (\w+)\.get\(\);\s*let (\w+) = (\w+)\.get_values\(\);\s*(if [^{]*\{\s*return Err\(Error::InvalidSizeError\);\s*\}).*$" => "\1 #[verifier::loop_isolation(false)] for i in 0..a.len() invariant *self == *old(self), a@.len() == b@.len(), forall|k: int| 0 <= k < i ==> (#[trigger] a@[k]).values@.len() == b@[k].values@.len() { let \2 = &a[i]; let \3 = &b[i]; let \4 = &\5.values; let \6 = &\7.values; \8 } rest(self) }"
//@ end
//@ extract iris-mpc/src/spdzwise/protocol.rs fn masked_dot_many in "impl<N: NetworkTrait, T: Sharable> MpcTrait<T, TShare<T>, Aby3Share<Bit>> for SpdzWise<N, T::VerificationShare>"
//@ re "^.*?\bfn masked_dot_many\b[^{]*\{" => "pub fn masked_dot_many(&mut self, a: &VecShare, b: &[VecShare], masks: &[Mask]) -> (r: Result<Vec<E>, Error>) ensures (b@.len() != masks@.len() || (b@.len() > 0 && a.values@.len() != 12800) || exists|i: int| 0 <= i < b@.len() && (#[trigger] b@[i]).values@.len() != 12800) ==> r is Err && *final(self) == *old(self) {"
//@ re "(return Err\(Error::InvalidSizeError\);\s*\})(?:(?!await|network|return|\bfor\b).)*?for \((\w+), (\w+)\) in [^{]*\{(?:(?!await|network|return|\bfor\b).)*?(if [^{]*\{\s*return Err\(Error::InvalidSizeError\);\s*\}).*$" => "\1 #[verifier::loop_isolation(false)] for i in 0..b.len() invariant *self == *old(self), b@.len() == masks@.len() && a.values@.len() == 12800, forall|k: int| 0 <= k < i ==> (#[trigger] b@[k]).values@.len() == 12800 { let \2 = &b[i]; let \3 = &masks[i]; \4 } rest(self) }"
//@ end
//@ extract iris-mpc/src/spdzwise/protocol.rs fn msb_adder_many in "impl<N: NetworkTrait, U: Sharable> SpdzWise<N, U>"
//@ re "^.*?\bfn msb_adder_many\b[^{]*\{" => "pub fn msb_adder_many(&mut self, x1: Vec<E>, x2: Vec<E>, x3: Vec<E>) -> (r: Result<Vec<E>, Error>) ensures (x1@.len() != x2@.len() || x1@.len() != x3@.len()) ==> r is Err && *final(self) == *old(self) {"
//@ re "^(.*return Err\(Error::InvalidSizeError\);\s*\}).*$" => "\1 rest(self) }"
//@ end
//@ extract iris-mpc/src/spdzwise/protocol.rs fn permute in "impl<N: NetworkTrait, U: Sharable> SpdzWise<N, U>"
//@ re "^.*?\bfn permute\b[^{]*\{" => "pub fn permute(&mut self, a: &mut [E], b: &mut [E], c: &mut [E]) -> (r: Result<(), Error>) requires old(a)@.len() < 0x100_0000_0000_0000 ensures (old(a)@.len() != old(b)@.len() || old(a)@.len() != old(c)@.len()) ==> r is Err && *final(self) == *old(self) && final(a)@ == old(a)@ && final(b)@ == old(b)@ && final(c)@ == old(c)@ {"
//@ re "^(.*return Err\(Error::InvalidSizeError\);\s*\}).*$" => "\1 rest(self) }"
//@ end
    /// the inner Aby3 engine's input: its contract in module aby3
    #[verifier::external_body] pub fn aby3_input(&mut self, input: Option<E>, id: usize) -> (r: Result<E, Error>) ensures id >= 3 ==> r is Err && *final(self) == *old(self) { unimplemented!() }
//@ extract iris-mpc/src/spdzwise/protocol.rs fn input in "impl<N: NetworkTrait, T: Sharable> MpcTrait<T, TShare<T>, Aby3Share<Bit>> for SpdzWise<N, T::VerificationShare>"
//@ re "^.*?\bfn input\b[^{]*\{" => "pub fn input(&mut self, input: Option<E>, id: usize) -> (r: Result<E, Error>) ensures id >= 3 ==> r is Err && *final(self) == *old(self) {"
//@ re "let input = input\.map\([^;]*;\s*let (\w+) = <_ as MpcTrait<[^;]*?>>::input\(&mut self\.aby3, input, id\)\s*\.await\?;.*$" => "let \1: E = self.aby3_input(input, id)?; rest(self) }"
//@ end
}
}
pub mod defaults {
use super::*; use vstd::prelude::*;
pub struct Engine { pub network: Network, pub prf: u64, pub queue: Ghost<Seq<u8>> }
impl Engine {
//@ extract iris-mpc/src/traits/mpc_trait.rs fn masked_dot_many in "pub trait MpcTrait<T: Sharable, Ashare: ShareTrait, Bshare: ShareTrait>"
//@ re "^.*?\bfn masked_dot_many\b[^{]*\{" => "pub fn masked_dot_many(&mut self, a: &Vec<E>, b: &[Vec<E>], masks: &[Mask]) -> (r: Result<Vec<E>, Error>) ensures (b@.len() != masks@.len() || (b@.len() > 0 && a@.len() != 12800) || exists|i: int| 0 <= i < b@.len() && (#[trigger] b@[i])@.len() != 12800) ==> r is Err && *final(self) == *old(self) {"
//@ re "(return Err\(Error::InvalidSizeError\);\s*\})(?:(?!await|network|return|\bfor\b).)*?for \((\w+), (\w+)\) in [^{]*\{\s*let mut (\w+) = a\.to_owned\(\);\s*let mut (\w+) = (\w+)\.to_owned\(\);\s*(if [^{]*\{\s*return Err\(Error::InvalidCodeSizeError\);\s*\}).*$" => "\1 #[verifier::loop_isolation(false)] for i in 0..b.len() invariant *self == *old(self), b@.len() == masks@.len(), i > 0 ==> a@.len() == 12800, forall|k: int| 0 <= k < i ==> (#[trigger] b@[k])@.len() == 12800 { let \2 = &b[i]; let \4 = a; let \5 = \6; \7 } rest(self) }"
//@ end
//@ extract iris-mpc/src/traits/binary_trait.rs fn or_many in "pub trait BinaryMpcTrait<T: Sharable, Bshare: ShareTrait>"
//@ re "^.*?\bfn or_many\b[^{]*\{" => "pub fn or_many(&mut self, a: Vec<E>, b: Vec<E>) -> (r: Result<Vec<E>, Error>) ensures a@.len() != b@.len() ==> r is Err && *final(self) == *old(self) {"
//@ re "^(.*return Err\(Error::InvalidSizeError\);\s*\}).*$" => "\1 rest(self) }"
//@ end
//@ extract iris-mpc/src/traits/binary_trait.rs fn binary_add_3_many in "pub trait BinaryMpcTrait<T: Sharable, Bshare: ShareTrait>"
//@ re "^.*?\bfn binary_add_3_many\b[^{]*\{" => "pub fn binary_add_3_many(&mut self, x1: Vec<E>, x2: Vec<E>, x3: Vec<E>) -> (r: Result<Vec<E>, Error>) ensures (x1@.len() != x2@.len() || x1@.len() != x3@.len()) ==> r is Err && *final(self) == *old(self) {"
//@ re "^(.*return Err\(Error::InvalidSizeError\);\s*\}).*$" => "\1 rest(self) }"
//@ end
//@ extract iris-mpc/src/traits/binary_trait.rs fn xor_assign_many in "pub trait BinaryMpcTrait<T: Sharable, Bshare: ShareTrait>"
//@ re "^.*?\bfn xor_assign_many\b[^{]*\{" => "pub fn xor_assign_many(a: &mut Vec<E>, b: Vec<E>) -> (r: Result<(), Error>) ensures old(a)@.len() != b@.len() ==> r is Err && final(a)@ == old(a)@ {"
//@ re "^(.*return Err\(Error::InvalidSizeError\);\s*\}).*$" => "\1 rest(a) }"
//@ end
}
}
pub mod vec_aby3 {
use super::*; use vstd::prelude::*;
//@ extract iris-mpc/src/aby3/vecshare.rs fn xor_many in "impl<T: Sharable> VecShareTrait for Vec<Share<T>>"
//@ re "^.*?\bfn xor_many\b[^{]*\{" => "pub fn xor_many(self_: Vec<E>, b: Vec<E>) -> (r: Result<Vec<E>, Error>) ensures self_@.len() != b@.len() ==> r is Err {"
//@ re "^(.*return Err\(Error::InvalidSizeError\);\s*\}).*$" => "\1 rest_ref(&self_) }"
//@ all "\bself\b" => "self_"
//@ end
//@ extract iris-mpc/src/aby3/vecshare.rs fn xor_assign_many in "impl<T: Sharable> VecShareTrait for Vec<Share<T>>"
//@ re "^.*?\bfn xor_assign_many\b[^{]*\{" => "pub fn xor_assign_many(self_: &mut Vec<E>, b: Vec<E>) -> (r: Result<Vec<E>, Error>) ensures old(self_)@.len() != b@.len() ==> r is Err && final(self_)@ == old(self_)@ {"
//@ re "^(.*return Err\(Error::InvalidSizeError\);\s*\}).*$" => "\1 rest(self_) }"
//@ all "\bself\b" => "self_"
//@ end
//@ extract iris-mpc/src/aby3/vecshare.rs fn filter_reduce_add_twice in "impl<T: Sharable> VecShareTrait for Vec<Share<T>>"
//@ re "^.*?\bfn filter_reduce_add_twice\b[^{]*\{" => "pub fn filter_reduce_add_twice(a: &Vec<E>, b: &Vec<E>, mask: &Mask) -> (r: Result<(E, E), Error>) ensures (a@.len() == 0 || a@.len() != b@.len()) ==> r is Err {"
//@ re "^(.*return Err\(Error::InvalidCodeSizeError\);\s*\}).*$" => "\1 rest_ref(a) }"
//@ all "\bself\b" => "self_"
//@ end
}
pub mod vec_swift3 {
use super::*; use vstd::prelude::*;
//@ extract iris-mpc/src/swift3/vecshare.rs fn xor_many in "impl<T: Sharable> VecShareTrait for Vec<Share<T>>"
//@ re "^.*?\bfn xor_many\b[^{]*\{" => "pub fn xor_many(self_: Vec<E>, b: Vec<E>) -> (r: Result<Vec<E>, Error>) ensures self_@.len() != b@.len() ==> r is Err {"
//@ re "^(.*return Err\(Error::InvalidSizeError\);\s*\}).*$" => "\1 rest_ref(&self_) }"
//@ all "\bself\b" => "self_"
//@ end
//@ extract iris-mpc/src/swift3/vecshare.rs fn xor_assign_many in "impl<T: Sharable> VecShareTrait for Vec<Share<T>>"
//@ re "^.*?\bfn xor_assign_many\b[^{]*\{" => "pub fn xor_assign_many(self_: &mut Vec<E>, b: Vec<E>) -> (r: Result<Vec<E>, Error>) ensures old(self_)@.len() != b@.len() ==> r is Err && final(self_)@ == old(self_)@ {"
//@ re "^(.*return Err\(Error::InvalidSizeError\);\s*\}).*$" => "\1 rest(self_) }"
//@ all "\bself\b" => "self_"
//@ end
//@ extract iris-mpc/src/swift3/vecshare.rs fn filter_reduce_add_twice in "impl<T: Sharable> VecShareTrait for Vec<Share<T>>"
//@ re "^.*?\bfn filter_reduce_add_twice\b[^{]*\{" => "pub fn filter_reduce_add_twice(a: &Vec<E>, b: &Vec<E>, mask: &Mask) -> (r: Result<(E, E), Error>) ensures (a@.len() == 0 || a@.len() != b@.len()) ==> r is Err {"
//@ re "^(.*return Err\(Error::InvalidCodeSizeError\);\s*\}).*$" => "\1 rest_ref(a) }"
//@ all "\bself\b" => "self_"
//@ end
}
pub mod vec_plain {
use super::*; use vstd::prelude::*;
//@ extract iris-mpc/src/traits/mpc_trait.rs fn xor_many in "impl<T: Sharable> VecShareTrait for Vec<T>"
//@ re "^.*?\bfn xor_many\b[^{]*\{" => "pub fn xor_many(self_: Vec<E>, b: Vec<E>) -> (r: Result<Vec<E>, Error>) ensures self_@.len() != b@.len() ==> r is Err {"
//@ re "^(.*return Err\(Error::InvalidSizeError\);\s*\}).*$" => "\1 rest_ref(&self_) }"
//@ all "\bself\b" => "self_"
//@ end
//@ extract iris-mpc/src/traits/mpc_trait.rs fn xor_assign_many in "impl<T: Sharable> VecShareTrait for Vec<T>"
//@ re "^.*?\bfn xor_assign_many\b[^{]*\{" => "pub fn xor_assign_many(self_: &mut Vec<E>, b: Vec<E>) -> (r: Result<Vec<E>, Error>) ensures old(self_)@.len() != b@.len() ==> r is Err && final(self_)@ == old(self_)@ {"
//@ re "^(.*return Err\(Error::InvalidSizeError\);\s*\}).*$" => "\1 rest(self_) }"
//@ all "\bself\b" => "self_"
//@ end
//@ extract iris-mpc/src/traits/mpc_trait.rs fn filter_reduce_add_twice in "impl<T: Sharable> VecShareTrait for Vec<T>"
//@ re "^.*?\bfn filter_reduce_add_twice\b[^{]*\{" => "pub fn filter_reduce_add_twice(a: &Vec<E>, b: &Vec<E>, mask: &Mask) -> (r: Result<(E, E), Error>) ensures (a@.len() == 0 || a@.len() != b@.len() || a@.len() != 12800) ==> r is Err {"
//@ re "^(.*return Err\(Error::InvalidCodeSizeError\);\s*\}).*$" => "\1 rest_ref(a) }"
//@ all "\bself\b" => "self_"
//@ end
}
pub mod vec_spdzwise {
use super::*; use vstd::prelude::*;
//@ extract iris-mpc/src/spdzwise/vecshare.rs fn filter_reduce_add_twice in "impl<T: Sharable> VecShareTrait for VecShare<T>"
//@ re "^.*?\bfn filter_reduce_add_twice\b[^{]*\{" => "pub fn filter_reduce_add_twice(a: &VecShare, b: &VecShare, mask: &Mask) -> (r: Result<(E, E), Error>) ensures (a.values@.len() == 0 || a.values@.len() != b.values@.len()) ==> r is Err {"
//@ re "^(.*return Err\(Error::InvalidCodeSizeError\);\s*\}).*$" => "\1 rest_ref(a) }"
//@ all "\bself\b" => "self_"
//@ end
}
pub mod iris {
use super::*; use vstd::prelude::*;
pub struct Engine { pub network: Network, pub prf: u64, pub queue: Ghost<Seq<u8>> }
impl Engine {
//@ extract iris-mpc/src/iris/protocol.rs fn masked_hamming_distance_post in "impl<T: Sharable, Ashare: ShareTrait, Bshare: ShareTrait, Mpc: MpcTrait<T, Ashare, Bshare>> IrisProtocol<T, Ashare, Bshare, Mpc>"
//@ re "^.*?\bfn masked_hamming_distance_post\b[^{]*\{" => "pub fn masked_hamming_distance_post(&self, a: &Vec<E>, b: &Vec<E>, mask: &Mask, dot: E) -> (r: Result<E, Error>) ensures (a@.len() == 0 || a@.len() != b@.len()) ==> r is Err {"
//@ re "^(.*return Err\(Error::InvalidCodeSizeError\);\s*\}).*$" => "\1 rest_ref(self) }"
//@ end
//@ extract iris-mpc/src/iris/protocol.rs fn compare_threshold_many in "impl<T: Sharable, Ashare: ShareTrait, Bshare: ShareTrait, Mpc: MpcTrait<T, Ashare, Bshare>> IrisProtocol<T, Ashare, Bshare, Mpc>"
//@ re "^.*?\bfn compare_threshold_many\b[^{]*\{" => "pub fn compare_threshold_many(&mut self, hwds: Vec<E>, mask_lens: Vec<usize>) -> (r: Result<Vec<E>, Error>) ensures hwds@.len() != mask_lens@.len() ==> r is Err && *final(self) == *old(self) {"
//@ re "^(.*return Err\(Error::InvalidSizeError\);\s*\}).*$" => "\1 rest(self) }"
//@ end
//@ extract iris-mpc/src/iris/protocol.rs fn compare_iris_many in "impl<T: Sharable, Ashare: ShareTrait, Bshare: ShareTrait, Mpc: MpcTrait<T, Ashare, Bshare>> IrisProtocol<T, Ashare, Bshare, Mpc>"
//@ re "^.*?\bfn compare_iris_many\b[^{]*\{" => "pub fn compare_iris_many(&mut self, a: &Vec<E>, b: &[Vec<E>], mask_a: &Mask, mask_b: &[Mask]) -> (r: Result<Vec<E>, Error>) ensures (b@.len() != mask_b@.len() || b@.len() == 0) ==> r is Err && *final(self) == *old(self) {"
//@ re "^(.*return Err\(Error::InvalidSizeError\);\s*\}).*$" => "\1 rest(self) }"
//@ end
//@ extract iris-mpc/src/iris/protocol.rs fn iris_in_db in "impl<T: Sharable, Ashare: ShareTrait, Bshare: ShareTrait, Mpc: MpcTrait<T, Ashare, Bshare>> IrisProtocol<T, Ashare, Bshare, Mpc>"
//@ re "^.*?\bfn iris_in_db\b[^{]*\{" => "pub fn iris_in_db(&mut self, iris: &Vec<E>, db: &[Vec<E>], mask_iris: &Mask, mask_db: &[Mask], chunk_size: usize) -> (r: Result<bool, Error>) ensures (db@.len() != mask_db@.len() || db@.len() == 0) ==> r is Err && *final(self) == *old(self) {"
//@ re "^(.*return Err\(Error::InvalidSizeError\);\s*\}).*$" => "\1 rest(self) }"
//@ end
}
}
#[verifier::external_body] pub fn copy(v: &Vec<E>) -> (r: Vec<E>) ensures r@.len() == v@.len() { unimplemented!() }
fn main() {}
}
