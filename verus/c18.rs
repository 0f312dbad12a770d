// C18: party identifiers and network configurations, for all numbers and all lists of parties.
// Extraction directives are replaced by the text of the named function of /repo (see tools/verus_job.py).
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub enum Error { IdError(usize), NumPartyError(usize), ConfigError, Other }

// ---------------------------------------------------------------- identifiers
//@ extract iris-mpc/src/aby3/id.rs enum PartyID
//@ end
impl Clone for PartyID { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for PartyID {}
impl PartyID {
    pub open spec fn num(self) -> int { match self { PartyID::ID0 => 0, PartyID::ID1 => 1, PartyID::ID2 => 2 } }
//@ extract iris-mpc/src/aby3/id.rs fn next_id in "impl PartyID"
//@ re "-> Self" => "-> (r: Self) ensures r.num() == (self.num() + 1) % 3"
//@ end
//@ extract iris-mpc/src/aby3/id.rs fn prev_id in "impl PartyID"
//@ re "-> Self" => "-> (r: Self) ensures r.num() == (self.num() + 2) % 3"
//@ end
//@ extract iris-mpc/src/aby3/id.rs fn try_from in "impl TryFrom<usize> for PartyID"
//@ all "Self::Error" => "Error"
//@ re "fn try_from\(([^)]*)\) -> Result<Self, Error>" => "pub fn try_from(\1) -> (r: Result<Self, Error>) ensures r is Ok == (other <= 2), r is Ok ==> r->Ok_0.num() == other, r is Err ==> r->Err_0 == Error::IdError(other)"
//@ end
//@ extract iris-mpc/src/aby3/id.rs fn try_from in "impl TryFrom<u8> for PartyID"
//@ all "Self::Error" => "Error"
//@ re "fn try_from\(([^)]*)\) -> Result<Self, Error>" => "pub fn try_from_u8(\1) -> (r: Result<Self, Error>) ensures r is Ok == (other <= 2), r is Ok ==> r->Ok_0.num() == other, r is Err ==> r->Err_0 == Error::IdError(other as usize)"
//@ re "\(other as usize\)\.try_into\(\)" => "Self::try_from(other as usize)"
//@ end
//@ extract iris-mpc/src/aby3/id.rs fn from in "impl From<PartyID> for usize"
//@ re "fn from\(([^)]*)\) -> Self" => "pub fn into(\1) -> (r: usize) ensures r == other.num()"
//@ end
}
/// next and previous are inverse, three steps are a round
proof fn cycle(p: PartyID, n: PartyID, q: PartyID) requires n.num() == (p.num() + 1) % 3, q.num() == (n.num() + 2) % 3 ensures q == p, n != p { }

// ---------------------------------------------------------------- configurations
pub struct Report { pub x: u8 }
pub struct Addr { pub x: u8 }
pub struct PathBuf { pub x: u8 }
//@ extract mpc-net/src/config.rs struct NetworkParty
//@ all "SocketAddr" => "Addr"
//@ all "String" => "PathBuf"
//@ end
//@ extract mpc-net/src/config.rs struct NetworkConfig
//@ end
pub open spec fn id_list(c: NetworkConfig) -> Seq<usize> { Seq::new(c.parties@.len(), |i: int| c.parties@[i].id) }
pub open spec fn valid(c: NetworkConfig) -> bool { id_list(c).no_duplicates() && id_list(c).contains(c.my_id) }
/// Iterator::find: the first element the predicate accepts
#[verifier::external_body] pub fn find_by<F: Fn(&NetworkParty) -> bool>(v: &Vec<NetworkParty>, f: F) -> (r: Option<&NetworkParty>) requires forall|i: int| 0 <= i < v@.len() ==> f.requires((&#[trigger] v@[i],))
    ensures r is Some ==> exists|i: int| 0 <= i < v@.len() && f.ensures((&#[trigger] v@[i],), true), r is None ==> forall|i: int| 0 <= i < v@.len() ==> f.ensures((&#[trigger] v@[i],), false) { unimplemented!() }
/// Iterator::map, collected
#[verifier::external_body] pub fn map_by<F: Fn(&NetworkParty) -> usize>(v: &Vec<NetworkParty>, f: F) -> (r: Vec<usize>) requires forall|i: int| 0 <= i < v@.len() ==> f.requires((&#[trigger] v@[i],))
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> f.ensures((&v@[i],), #[trigger] r@[i]) { unimplemented!() }
pub open spec fn sorted(s: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> s[i] <= s[j] }
#[verifier::external_body] pub fn sort(v: &mut Vec<usize>) ensures sorted(final(v)@), final(v)@.to_multiset() == old(v)@.to_multiset() { unimplemented!() }
/// Vec::dedup: of equal neighbours the first stays
pub open spec fn dedup(s: Seq<usize>) -> Seq<usize> decreases s.len() { if s.len() <= 1 { s } else if s[s.len() - 1] == s[s.len() - 2] { dedup(s.drop_last()) } else { dedup(s.drop_last()).push(s.last()) } }
#[verifier::external_body] pub fn remove_neighbours(v: &mut Vec<usize>) ensures final(v)@ == dedup(old(v)@) { unimplemented!() }
proof fn dedup_len(s: Seq<usize>) ensures dedup(s).len() <= s.len(), sorted(s) ==> (dedup(s).len() == s.len()) == s.no_duplicates() decreases s.len()
{
    if s.len() > 1 {
        dedup_len(s.drop_last());
        let n = s.len() as int;
        if sorted(s) {
            assert(sorted(s.drop_last()));
            if s[n - 1] == s[n - 2] { assert(!s.no_duplicates()); }
            else {
                assert forall|i: int| 0 <= i < n - 1 implies #[trigger] s[i] != s[n - 1] by { assert(s[i] <= s[n - 2] && s[n - 2] <= s[n - 1]); }
                if s.drop_last().no_duplicates() { assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i != j implies s[i] != s[j] by { if i < n - 1 && j < n - 1 { assert(s.drop_last()[i] != s.drop_last()[j]); } } assert(s.no_duplicates()); }
                else { let (i, j) = choose|i: int, j: int| 0 <= i < n - 1 && 0 <= j < n - 1 && i != j && s.drop_last()[i] == s.drop_last()[j]; assert(s[i] == s[j]); assert(!s.no_duplicates()); }
            }
        }
    }
}
proof fn same_multiset(a: Seq<usize>, b: Seq<usize>) requires a.to_multiset() == b.to_multiset() ensures a.no_duplicates() == b.no_duplicates(), a.len() == b.len()
{
    a.to_multiset_ensures(); b.to_multiset_ensures();
    if a.no_duplicates() { a.lemma_multiset_has_no_duplicates(); b.lemma_multiset_has_no_duplicates_conv(); }
    if b.no_duplicates() { b.lemma_multiset_has_no_duplicates(); a.lemma_multiset_has_no_duplicates_conv(); }
}
impl NetworkConfig {
//@ extract mpc-net/src/config.rs fn check_config in "impl NetworkConfig"
//@ re "-> eyre::Result<\(\)>" => "-> (r: Result<(), Report>) ensures r is Ok == valid(*self)"
//@ re "self\.parties\s*\.iter\(\)\s*\.find\(\|p\| ([^)]*)\)" => "let found = find_by(&self.parties, |p: &NetworkParty| -> (r: bool) ensures r == (\1) { \1 })"
//@ re "\.ok_or_else\(\|\| \{.*?\}\)\?;" => ".ok_or(Report { x: 0 }); proof { assert forall|i: int| 0 <= i < self.parties@.len() implies #[trigger] id_list(*self)[i] == self.parties@[i].id by {} if found is Ok { assert(exists|i: int| 0 <= i < self.parties@.len() && (#[trigger] self.parties@[i]).id == self.my_id); let i = choose|i: int| 0 <= i < self.parties@.len() && (#[trigger] self.parties@[i]).id == self.my_id; assert(id_list(*self)[i] == self.my_id); } } let found = found?;"
//@ re "self\.parties\.iter\(\)\.map\(\|p\| ([^)]*)\)\.collect::<Vec<_>>\(\);" => "map_by(&self.parties, |p: &NetworkParty| -> (r: usize) ensures r == \1 { \1 }); proof { assert(ids@ =~= id_list(*self)); } let ghost all = ids@;"
//@ all "(\w+)\.sort_unstable\(\)|\w+\.sort\(\)" => "sort(&mut \1)"
//@ all "(\w+)\.dedup\(\);" => "proof { dedup_len(\1@); same_multiset(\1@, all); } remove_neighbours(&mut \1);"
//@ all "eyre::eyre!\([^;]*?\)\);" => "Report { x: 0 });"
//@ end
}
pub struct Handler { pub x: u8 }
/// the rest of the connection set-up (files, sockets, handshakes): only reached with a valid configuration
#[verifier::external_body] pub fn connect(config: NetworkConfig) -> (r: Result<Handler, Report>) requires valid(config) { unimplemented!() }
impl Handler {
//@ extract mpc-net/src/lib.rs fn establish
//@ all "async fn" => "fn"
//@ re "-> Result<Self, Report>" => "-> (r: Result<Handler, Report>) ensures !valid(config) ==> r is Err"
//@ re "(config\.check_config\(\)\?;).*$" => "\1 connect(config) }"
//@ end
}
/// the rest of the engine's network set-up: only reached with three parties and a local id below three
#[verifier::external_body] pub fn channels(config: NetworkConfig, id: PartyID) -> (r: Result<Aby3Network, Error>) requires config.parties@.len() == 3, id.num() == config.my_id { unimplemented!() }
pub struct Aby3Network { pub x: u8 }
impl Aby3Network {
//@ extract iris-mpc/src/aby3/network.rs fn new in "impl Aby3Network"
//@ all "async fn" => "fn"
//@ re "-> Result<Self, Error>" => "-> (r: Result<Aby3Network, Error>) ensures r is Ok ==> config.my_id <= 2 && config.parties@.len() == 3"
//@ re "let mut handler =.*$" => "channels(config, id) }"
//@ end
}
fn main() {}
}
