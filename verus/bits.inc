/// A ring element as its word (operators: C10)
#[derive(Clone, Copy)] #[verifier::allow(autoderive_clone_without_spec)]
pub struct El { pub w: Ghost<u128> }
pub open spec fn el(w: u128) -> El { El { w: Ghost(w) } }
//@ each Tr SpecTr obeys req spec f R rhs how | BitAnd BitAndSpecImpl obeys_bitand_spec bitand_req bitand_spec bitand El o.w@ & | BitAnd BitAndSpecImpl obeys_bitand_spec bitand_req bitand_spec bitand &El o.w@ & | BitXor BitXorSpecImpl obeys_bitxor_spec bitxor_req bitxor_spec bitxor El o.w@ ^ | BitXor BitXorSpecImpl obeys_bitxor_spec bitxor_req bitxor_spec bitxor &El o.w@ ^
impl $SpecTr<$R> for El { open spec fn $obeys() -> bool { true } open spec fn $req(self, o: $R) -> bool { true } open spec fn $spec(self, o: $R) -> El { el(self.w@ $how $rhs) } }
impl $Tr<$R> for El { type Output = El; #[verifier::external_body] fn $f(self, o: $R) -> El { unimplemented!() } }
//@ done
#[derive(Clone, Copy)] #[verifier::allow(autoderive_clone_without_spec)]
pub struct Share { pub a: El, pub b: El }
pub open spec fn sh(a: u128, b: u128) -> Share { Share { a: el(a), b: el(b) } }
/// the local part of a conjunction: what the party contributes
pub open spec fn local(x: Share, y: Share) -> u128 { (x.a.w@ & y.a.w@) ^ (x.a.w@ & y.b.w@) ^ (x.b.w@ & y.a.w@) }
pub open spec fn s_and(x: Share, y: Share) -> Share { sh(local(x, y), 0) }
pub open spec fn s_xor(x: Share, y: Share) -> Share { sh(x.a.w@ ^ y.a.w@, x.b.w@ ^ y.b.w@) }
pub open spec fn s_mask(x: Share, y: u128) -> Share { sh(x.a.w@ & y, x.b.w@ & y) }
//@ each Tr SpecTr obeys req spec f R rhs how | BitAnd BitAndSpecImpl obeys_bitand_spec bitand_req bitand_spec bitand Share o s_and | BitAnd BitAndSpecImpl obeys_bitand_spec bitand_req bitand_spec bitand &Share *o s_and | BitAnd BitAndSpecImpl obeys_bitand_spec bitand_req bitand_spec bitand El o.w@ s_mask | BitAnd BitAndSpecImpl obeys_bitand_spec bitand_req bitand_spec bitand &El o.w@ s_mask | BitXor BitXorSpecImpl obeys_bitxor_spec bitxor_req bitxor_spec bitxor Share o s_xor | BitXor BitXorSpecImpl obeys_bitxor_spec bitxor_req bitxor_spec bitxor &Share *o s_xor
impl $SpecTr<$R> for Share { open spec fn $obeys() -> bool { true } open spec fn $req(self, o: $R) -> bool { true } open spec fn $spec(self, o: $R) -> Share { $how(self, $rhs) } }
impl $Tr<$R> for Share { type Output = Share; #[verifier::external_body] fn $f(self, o: $R) -> Share { unimplemented!() } }
//@ done
