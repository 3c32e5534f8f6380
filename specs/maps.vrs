// std::collections::HashMap / BTreeMap by their documented behaviour (trusted): a finite map keyed by key equality
pub trait VxKey: Sized { type S; spec fn k(self) -> Self::S; }
impl VxKey for Vec<u8> { type S = Seq<u8>; open spec fn k(self) -> Seq<u8> { self@ } }
impl VxKey for String { type S = Seq<char>; open spec fn k(self) -> Seq<char> { self@ } }
impl VxKey for u8 { type S = u8; open spec fn k(self) -> u8 { self } }
impl VxKey for u32 { type S = u32; open spec fn k(self) -> u32 { self } }
impl VxKey for i32 { type S = i32; open spec fn k(self) -> i32 { self } }
impl VxKey for u64 { type S = u64; open spec fn k(self) -> u64 { self } }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct HashMap<K: VxKey, V> { k: Vec<K>, v: Vec<V> }
impl<K: VxKey, V> View for HashMap<K, V> { type V = Map<K::S, V>; uninterp spec fn view(&self) -> Map<K::S, V>; }
impl<K: VxKey, V> HashMap<K, V> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K::S, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k.k(), v), r == (if old(self)@.contains_key(k.k()) { Some(old(self)@[k.k()]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove((*k).k()), r == (if old(self)@.contains_key((*k).k()) { Some(old(self)@[(*k).k()]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r == (if self@.contains_key((*k).k()) { Some(&self@[(*k).k()]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r <==> self@ == Map::<K::S, V>::empty() { unimplemented!() }
}
// what iterating a map yields: each entry once
#[verifier::external_body]
pub fn vx_pairs<K: VxKey, V>(m: HashMap<K, V>) -> (r: Vec<(K, V)>)
    ensures
        forall|i: int| 0 <= i < r@.len() ==> m@.contains_key((#[trigger] r@[i]).0.k()) && m@[r@[i].0.k()] == r@[i].1,
        forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).0.k() != (#[trigger] r@[j]).0.k(),
        forall|x: K::S| #[trigger] m@.contains_key(x) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0.k() == x,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_take<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
