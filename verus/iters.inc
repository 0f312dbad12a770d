// ---------------------------------------------------------------- lists as they are iterated over
/// std: an iterator over a list, read as the list of what it yields (adapters and their order are kept as in the source)
pub struct Items<T> { pub v: Ghost<Seq<T>>, pub p: core::marker::PhantomData<T> }
pub open spec fn zipped<A, B>(a: Seq<A>, b: Seq<B>) -> Seq<(A, B)> { Seq::new(if a.len() <= b.len() { a.len() } else { b.len() }, |i: int| (a[i], b[i])) }
pub open spec fn upto(n: int, len: nat) -> int { if n <= len { n } else { len as int } }
pub trait Listed<T> { spec fn sq(&self) -> Seq<T>; fn items(&self) -> (r: Items<T>) ensures r.v@ == self.sq(); }
impl<T> Listed<T> for Items<T> { open spec fn sq(&self) -> Seq<T> { self.v@ } #[verifier::external_body] fn items(&self) -> Items<T> { unimplemented!() } }
impl<T> Listed<T> for Vec<T> { open spec fn sq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn items(&self) -> Items<T> { unimplemented!() } }
impl<T> Listed<T> for [T] { open spec fn sq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn items(&self) -> Items<T> { unimplemented!() } }
impl<T, L: Listed<T> + ?Sized> Listed<T> for &L { open spec fn sq(&self) -> Seq<T> { (**self).sq() } fn items(&self) -> Items<T> { (**self).items() } }
impl<T> Items<T> {
    #[verifier::external_body] pub fn count_(&self) -> (r: usize) ensures r == self.v@.len() { unimplemented!() }
    #[verifier::external_body] pub fn at_(&self, i: usize) -> (r: T) requires i < self.v@.len() ensures r == self.v@[i as int] { unimplemented!() }
    #[verifier::external_body] pub fn take(self, n: usize) -> (r: Self) ensures r.v@ == self.v@.take(upto(n as int, self.v@.len())) { unimplemented!() }
    #[verifier::external_body] pub fn skip(self, n: usize) -> (r: Self) ensures r.v@ == self.v@.skip(upto(n as int, self.v@.len())) { unimplemented!() }
    #[verifier::external_body] pub fn rev(self) -> (r: Self) ensures r.v@ == self.v@.reverse() { unimplemented!() }
    #[verifier::external_body] pub fn zip<U, L: Listed<U>>(self, o: L) -> (r: Items<(T, U)>) ensures r.v@ == zipped(self.v@, o.sq()) { unimplemented!() }
    #[verifier::external_body] pub fn enumerate(self) -> (r: Items<(usize, T)>) ensures r.v@.len() == self.v@.len(), forall|i: int| 0 <= i < r.v@.len() ==> #[trigger] r.v@[i] == (i as usize, self.v@[i]) && i as usize == i { unimplemented!() }
    pub fn cloned(self) -> (r: Self) ensures r == self { self }
    pub fn copied(self) -> (r: Self) ensures r == self { self }
}
