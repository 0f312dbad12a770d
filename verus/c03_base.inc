#[derive(Debug)]
pub enum Error { InvalidSizeError, InvalidCodeSizeError, Other }
/// what a party has sent to the next party and received from the previous one
pub enum Ev { Sent(Seq<El>), Got(Seq<El>) }
pub struct Net { pub log: Ghost<Seq<Ev>> }
pub open spec fn traded(l: Seq<Ev>, t: Seq<El>, g: Seq<El>) -> Seq<Ev> { l.push(Ev::Sent(t)).push(Ev::Got(g)) }
pub mod utils { use super::*;
    #[verifier::external_body] pub fn send_and_receive_value(n: &mut Net, v: El) -> (r: Result<El, Error>) ensures r is Ok ==> final(n).log@ == traded(old(n).log@, seq![v], seq![r->Ok_0]) { unimplemented!() }
    #[verifier::external_body] pub fn send_slice_and_receive_iter(n: &mut Net, v: &Vec<El>) -> (r: Result<Items<El>, Error>) ensures r is Ok ==> r->Ok_0.v@.len() == v@.len() && final(n).log@ == traded(old(n).log@, v@, r->Ok_0.v@) { unimplemented!() }
    #[verifier::external_body] pub fn send_slice_and_receive_vec(n: &mut Net, v: &Vec<El>) -> (r: Result<Vec<El>, Error>) ensures r is Ok ==> r->Ok_0@.len() == v@.len() && final(n).log@ == traded(old(n).log@, v@, r->Ok_0@) { unimplemented!() }
    #[verifier::external_body] pub fn send_slices_and_receive_iters(n: &mut Net, v: &Vec<El>, w: &Vec<El>) -> (r: Result<(Items<El>, Items<El>), Error>) ensures r is Ok ==> r->Ok_0.0.v@.len() == v@.len() && r->Ok_0.1.v@.len() == w@.len() && final(n).log@ == old(n).log@.push(Ev::Sent(v@)).push(Ev::Sent(w@)).push(Ev::Got(r->Ok_0.0.v@)).push(Ev::Got(r->Ok_0.1.v@)) { unimplemented!() }
}
/// zero shares in the order they are drawn (C17)
pub struct Prf { pub log: Ghost<Seq<El>> }
impl Prf { #[verifier::external_body] pub fn gen_zero_share(&mut self) -> (r: El) ensures final(self).log@ == old(self).log@.push(r) { unimplemented!() } }
pub struct Code { pub v: Ghost<Seq<bool>> }
pub const IRIS_CODE_SIZE: usize = 12800;
impl Code { #[verifier::external_body] pub fn bits(&self) -> (r: Items<bool>) ensures r.v@ == self.v@, r.v@.len() == 12800 { unimplemented!() } #[verifier::external_body] pub fn get_bit(&self, i: usize) -> (r: bool) requires i < 12800 ensures r == self.v@[i as int], self.v@.len() == 12800 { unimplemented!() } }
pub struct Aby3 { pub network: Net, pub prf: Prf }
/// shares with these first components, resharing: the components were sent, the second ones received, in order
pub open spec fn reshared(o: Aby3, s: Aby3, r: Seq<Share>) -> bool { exists|g: Seq<El>| #[trigger] joined(r, g) && s.network.log@ == traded(o.network.log@, firsts(r), g) }
pub open spec fn joined(r: Seq<Share>, g: Seq<El>) -> bool { g.len() == r.len() && forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i].b == g[i] }
pub open spec fn firsts(r: Seq<Share>) -> Seq<El> { Seq::new(r.len(), |i: int| r[i].a) }
/// the zero shares drawn since
pub open spec fn drawn(o: Aby3, s: Aby3, n: int) -> bool { s.prf.log@.len() == o.prf.log@.len() + n && forall|i: int| 0 <= i < o.prf.log@.len() ==> #[trigger] s.prf.log@[i] == o.prf.log@[i] }
pub open spec fn zero_of(o: Aby3, s: Aby3, i: int) -> int { s.prf.log@[o.prf.log@.len() + i].w@ }
