// iterators over maps and vectors by their documented behaviour (trusted): each entry once, in no particular order
pub struct VxIt<T>(pub Vec<T>);
pub trait VxFrom<T>: Sized { spec fn made(s: Seq<T>, r: Self) -> bool; }
impl<T> VxFrom<T> for Vec<T> { open spec fn made(s: Seq<T>, r: Self) -> bool { r@ == s } }
// collecting pairs into a map: every pair's key is there, with the value of some pair that has that key
impl<K: VxKey, V> VxFrom<(K, V)> for HashMap<K, V> {
    open spec fn made(s: Seq<(K, V)>, r: Self) -> bool {
        &&& forall|i: int| 0 <= i < s.len() ==> r@.contains_key((#[trigger] s[i]).0.k())
        &&& forall|x: K::S| #[trigger] r@.contains_key(x) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.k() == x && s[i].1 == r@[x]
    }
}
impl<T> VxIt<T> {
    #[verifier::external_body] pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: VxIt<U>)
        requires forall|i: int| 0 <= i < self.0@.len() ==> f.requires((#[trigger] self.0@[i],))
        ensures r.0@.len() == self.0@.len(), forall|i: int| #![trigger r.0@[i]] #![trigger self.0@[i]] 0 <= i < self.0@.len() ==> f.ensures((self.0@[i],), r.0@[i]) { unimplemented!() }
    #[verifier::external_body] pub fn collect<C: VxFrom<T>>(self) -> (r: C) ensures C::made(self.0@, r) { unimplemented!() }
}
impl<'a, T: Copy> VxIt<&'a T> {
    #[verifier::external_body] pub fn copied(self) -> (r: VxIt<T>) ensures r.0@.len() == self.0@.len(), forall|i: int| #![trigger r.0@[i]] #![trigger self.0@[i]] 0 <= i < r.0@.len() ==> r.0@[i] == *self.0@[i] { unimplemented!() }
}
impl<K: VxKey, V> HashMap<K, V> {
    #[verifier::external_body] pub fn keys(&self) -> (r: VxIt<&K>)
        ensures forall|i: int| 0 <= i < r.0@.len() ==> self@.contains_key((*#[trigger] r.0@[i]).k()),
            forall|i: int, j: int| 0 <= i < j < r.0@.len() ==> (*#[trigger] r.0@[i]).k() != (*#[trigger] r.0@[j]).k(),
            forall|x: K::S| #[trigger] self@.contains_key(x) ==> exists|i: int| 0 <= i < r.0@.len() && (*#[trigger] r.0@[i]).k() == x { unimplemented!() }
    #[verifier::external_body] pub fn iter(&self) -> (r: VxIt<(&K, &V)>)
        ensures forall|i: int| 0 <= i < r.0@.len() ==> self@.contains_key((*(#[trigger] r.0@[i]).0).k()) && self@[(*r.0@[i].0).k()] == *r.0@[i].1,
            forall|i: int, j: int| 0 <= i < j < r.0@.len() ==> (*(#[trigger] r.0@[i]).0).k() != (*(#[trigger] r.0@[j]).0).k(),
            forall|x: K::S| #[trigger] self@.contains_key(x) ==> exists|i: int| 0 <= i < r.0@.len() && (*(#[trigger] r.0@[i]).0).k() == x { unimplemented!() }
    #[verifier::external_body] pub fn into_iter(self) -> (r: VxIt<(K, V)>)
        ensures forall|i: int| 0 <= i < r.0@.len() ==> self@.contains_key((#[trigger] r.0@[i]).0.k()) && self@[r.0@[i].0.k()] == r.0@[i].1,
            forall|i: int, j: int| 0 <= i < j < r.0@.len() ==> (#[trigger] r.0@[i]).0.k() != (#[trigger] r.0@[j]).0.k(),
            forall|x: K::S| #[trigger] self@.contains_key(x) ==> exists|i: int| 0 <= i < r.0@.len() && (#[trigger] r.0@[i]).0.k() == x { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key((*k).k()) { unimplemented!() }
}
