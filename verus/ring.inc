// ---------------------------------------------------------------- ring elements and shares
/// Ring elements as integers: every contract below is an equation of + - * and holds modulo every 2^K (operators: C10)
#[derive(Clone, Copy)] #[verifier::allow(autoderive_clone_without_spec)]
pub struct El { pub w: Ghost<int> }
pub open spec fn el(w: int) -> El { El { w: Ghost(w) } }
//@ each Tr SpecTr obeys req spec f R rhs how | Add AddSpecImpl obeys_add_spec add_req add_spec add El o.w@ + | Add AddSpecImpl obeys_add_spec add_req add_spec add &El o.w@ + | Sub SubSpecImpl obeys_sub_spec sub_req sub_spec sub El o.w@ - | Sub SubSpecImpl obeys_sub_spec sub_req sub_spec sub &El o.w@ - | Mul MulSpecImpl obeys_mul_spec mul_req mul_spec mul El o.w@ * | Mul MulSpecImpl obeys_mul_spec mul_req mul_spec mul &El o.w@ *
impl $SpecTr<$R> for El { open spec fn $obeys() -> bool { true } open spec fn $req(self, o: $R) -> bool { true } open spec fn $spec(self, o: $R) -> El { el(self.w@ $how $rhs) } }
impl $Tr<$R> for El { type Output = El; #[verifier::external_body] fn $f(self, o: $R) -> El { unimplemented!() } }
//@ done
impl NegSpecImpl for El { open spec fn obeys_neg_spec() -> bool { true } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> El { el(-self.w@) } }
impl Neg for El { type Output = El; #[verifier::external_body] fn neg(self) -> El { unimplemented!() } }
#[verifier::external_body] pub fn el_zero() -> (r: El) ensures r == el(0) { unimplemented!() }
#[derive(Clone, Copy)] #[verifier::allow(autoderive_clone_without_spec)]
pub struct Share { pub a: El, pub b: El }
pub open spec fn sh(a: int, b: int) -> Share { Share { a: el(a), b: el(b) } }
/// the local part of a product: what the party contributes
pub open spec fn prod(x: Share, y: Share) -> int { x.a.w@ * y.a.w@ + x.a.w@ * y.b.w@ + x.b.w@ * y.a.w@ }
pub open spec fn s_add(x: Share, y: Share) -> Share { sh(x.a.w@ + y.a.w@, x.b.w@ + y.b.w@) }
pub open spec fn s_sub(x: Share, y: Share) -> Share { sh(x.a.w@ - y.a.w@, x.b.w@ - y.b.w@) }
pub open spec fn s_mul(x: Share, y: Share) -> Share { sh(prod(x, y), 0) }
pub open spec fn s_scale(x: Share, y: int) -> Share { sh(x.a.w@ * y, x.b.w@ * y) }
//@ each Tr SpecTr obeys req spec f R rhs how | Add AddSpecImpl obeys_add_spec add_req add_spec add Share o s_add | Add AddSpecImpl obeys_add_spec add_req add_spec add &Share *o s_add | Sub SubSpecImpl obeys_sub_spec sub_req sub_spec sub Share o s_sub | Sub SubSpecImpl obeys_sub_spec sub_req sub_spec sub &Share *o s_sub | Mul MulSpecImpl obeys_mul_spec mul_req mul_spec mul Share o s_mul | Mul MulSpecImpl obeys_mul_spec mul_req mul_spec mul &Share *o s_mul | Mul MulSpecImpl obeys_mul_spec mul_req mul_spec mul El o.w@ s_scale | Mul MulSpecImpl obeys_mul_spec mul_req mul_spec mul &El o.w@ s_scale
impl $SpecTr<$R> for Share { open spec fn $obeys() -> bool { true } open spec fn $req(self, o: $R) -> bool { true } open spec fn $spec(self, o: $R) -> Share { $how(self, $rhs) } }
impl $Tr<$R> for Share { type Output = Share; #[verifier::external_body] fn $f(self, o: $R) -> Share { unimplemented!() } }
//@ done
impl Share {
    pub fn new(a: El, b: El) -> (r: Self) ensures r.a == a, r.b == b { Share { a, b } }
    pub fn get_ab(self) -> (r: (El, El)) ensures r == (self.a, self.b) { (self.a, self.b) }
    pub fn get_a(self) -> (r: El) ensures r == self.a { self.a }
    pub fn get_b(self) -> (r: El) ensures r == self.b { self.b }
    #[verifier::external_body] pub fn zero() -> (r: Share) ensures r == sh(0, 0) { unimplemented!() }
}
pub trait Dup: Sized { fn dup(&self) -> (r: Self) ensures r == *self; }
impl<T> Dup for T { #[verifier::external_body] fn dup(&self) -> Self { unimplemented!() } }
/// the sum of the local parts of the first i products
pub open spec fn dsum(a: Seq<Share>, b: Seq<Share>, i: int) -> int decreases i { if i <= 0 { 0 } else { dsum(a, b, i - 1) + prod(a[i - 1], b[i - 1]) } }
/// the same for the positions where the mask is set
pub open spec fn msum(a: Seq<Share>, b: Seq<Share>, m: Seq<bool>, i: int) -> int decreases i { if i <= 0 { 0 } else { msum(a, b, m, i - 1) + if m[i - 1] { prod(a[i - 1], b[i - 1]) } else { 0 } } }
