#![feature(const_destruct)]
#![allow(unused_imports, unused_variables, dead_code, unused_mut, unused_parens, non_snake_case, non_camel_case_types, unused_braces, unused_assignments)]
use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpec;
verus! {
// Shared, trusted specifications of the standard library (each one is listed in the evidence, and is
// exercised on the compiled code by the concrete harness of the property that uses it).
#[derive(Debug)]
pub struct UnknownEnumValue(pub i32);

pub assume_specification<T, E> [std::result::Result::<T, E>::unwrap_or] (r: std::result::Result<T, E>, d: T) -> (o: T)
    where E: core::marker::Destruct, T: core::marker::Destruct,
    ensures o == (match r { Ok(v) => v, Err(_) => d });

#[verifier::external_body]
pub fn vx_format() -> (r: String) { unimplemented!() }

#[verifier::external_body]
pub fn vx_unreachable() -> (r: !) requires false { unimplemented!() }

pub broadcast proof fn ax_vec_eq(a: Vec<u8>, b: Vec<u8>) ensures #[trigger] a.eq_spec(&b) <==> a@ == b@ {
    if a.eq_spec(&b) { assert(a@ =~= b@); }
}
pub broadcast proof fn ax_slice_eq(a: &[u8], b: &[u8]) ensures #[trigger] a.eq_spec(b) <==> a@ == b@ {
    if a.eq_spec(b) { assert(a@ =~= b@); }
}
pub broadcast proof fn lemma_trunc32(x: u64) ensures #[trigger] (x as u32) == x % 0x1_0000_0000 {
    assert((x as u32) == x % 0x1_0000_0000) by (bit_vector);
}

// big-endian bytes
pub open spec fn be32(x: u32) -> Seq<u8> { seq![(x >> 24) as u8, (x >> 16) as u8, (x >> 8) as u8, x as u8] }
pub open spec fn unbe32(s: Seq<u8>) -> u32 { ((s[0] as u32) << 24) | ((s[1] as u32) << 16) | ((s[2] as u32) << 8) | (s[3] as u32) }
pub open spec fn unbe64(s: Seq<u8>) -> u64 { ((s[0] as u64) << 56) | ((s[1] as u64) << 48) | ((s[2] as u64) << 40) | ((s[3] as u64) << 32)
    | ((s[4] as u64) << 24) | ((s[5] as u64) << 16) | ((s[6] as u64) << 8) | (s[7] as u64) }
pub open spec fn be64(x: u64) -> Seq<u8> {
    seq![(x >> 56) as u8, (x >> 48) as u8, (x >> 40) as u8, (x >> 32) as u8, (x >> 24) as u8, (x >> 16) as u8, (x >> 8) as u8, x as u8]
}
// Verus cannot attach a specification to the inherent methods (their array length is an unnameable
// constant); the expansion renames the calls to these trusted equivalents.
pub trait VxBe32 { spec fn vx_val(self) -> u32; fn vx_to_be_bytes(self) -> (r: [u8; 4]) ensures r@ == be32(self.vx_val()); }
impl VxBe32 for u32 { open spec fn vx_val(self) -> u32 { self } #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 4]) { self.to_be_bytes() } }
pub trait VxBe64 { spec fn vx_val(self) -> u64; fn vx_to_be_bytes(self) -> (r: [u8; 8]) ensures r@ == be64(self.vx_val()); }
impl VxBe64 for u64 { open spec fn vx_val(self) -> u64 { self } #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 8]) { self.to_be_bytes() } }
#[verifier::external_body]
pub fn vx_u32_from_be_bytes(b: [u8; 4]) -> (r: u32) ensures r == unbe32(b@) { u32::from_be_bytes(b) }
#[verifier::external_body]
pub fn vx_u64_from_be_bytes(b: [u8; 8]) -> (r: u64) ensures r == unbe64(b@) { u64::from_be_bytes(b) }

// slice::copy_from_slice (panics on a length mismatch, hence the preconditions)
#[verifier::external_body]
pub fn vx_copy<const N: usize>(a: &mut [u8; N], lo: usize, hi: usize, s: &[u8]) requires lo <= hi <= N, s@.len() == hi - lo
    ensures final(a)@ == old(a)@.take(lo as int) + s@ + old(a)@.skip(hi as int) { a[lo..hi].copy_from_slice(s) }
#[verifier::external_body]
pub fn vx_copy_from<const N: usize>(a: &mut [u8; N], lo: usize, s: &[u8]) requires lo <= N, s@.len() == N - lo
    ensures final(a)@ == old(a)@.take(lo as int) + s@ { a[lo..].copy_from_slice(s) }
#[verifier::external_body]
pub fn vx_copy_all<const N: usize>(a: &mut [u8; N], s: &[u8]) requires s@.len() == N ensures final(a)@ == s@ { a.copy_from_slice(s) }

pub trait VxBytes { spec fn vx_bytes(self) -> Seq<u8>; }
impl VxBytes for Vec<u8> { open spec fn vx_bytes(self) -> Seq<u8> { self@ } }
impl VxBytes for &Vec<u8> { open spec fn vx_bytes(self) -> Seq<u8> { self@ } }
impl VxBytes for &[u8] { open spec fn vx_bytes(self) -> Seq<u8> { self@ } }
#[verifier::external_body]
pub fn vx_extend<T: VxBytes>(v: &mut Vec<u8>, x: T) ensures final(v)@ == old(v)@ + x.vx_bytes() { unimplemented!() }
// no allocation is longer than isize::MAX bytes
#[verifier::external_body]
pub proof fn ax_len<T: VxBytes>(x: T) ensures x.vx_bytes().len() <= isize::MAX {}

pub proof fn lemma_be32(x: u32) ensures unbe32(be32(x)) == x, be32(x).len() == 4 {
    let a = (x >> 24) as u8; let b = (x >> 16) as u8; let c = (x >> 8) as u8; let d = x as u8;
    assert(((((x >> 24) as u8) as u32) << 24) | ((((x >> 16) as u8) as u32) << 16) | ((((x >> 8) as u8) as u32) << 8) | ((x as u8) as u32) == x) by (bit_vector);
}
pub proof fn lemma_be64(x: u64) ensures unbe64(be64(x)) == x, be64(x).len() == 8 {
    assert(((((x >> 56) as u8) as u64) << 56) | ((((x >> 48) as u8) as u64) << 48) | ((((x >> 40) as u8) as u64) << 40) | ((((x >> 32) as u8) as u64) << 32)
     | ((((x >> 24) as u8) as u64) << 24) | ((((x >> 16) as u8) as u64) << 16) | ((((x >> 8) as u8) as u64) << 8) | ((x as u8) as u64) == x) by (bit_vector);
}
pub proof fn lemma_be64_inj(x: u64, y: u64) requires be64(x) == be64(y) ensures x == y { lemma_be64(x); lemma_be64(y); }
pub proof fn lemma_be32_inj(x: u32, y: u32) requires be32(x) == be32(y) ensures x == y { lemma_be32(x); lemma_be32(y); }

pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(s@[i], #[trigger] r@[i]);

pub assume_specification<T: core::cmp::Ord + core::marker::Destruct> [std::cmp::min] (a: T, b: T) -> (r: T);

} // verus!
verus! {
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>> [Result::<T, E>::and_then::<U, F>] (r: Result<T, E>, f: F) -> (o: Result<U, E>)
    requires r is Ok ==> f.requires((r->Ok_0,)),
    ensures r is Ok ==> f.ensures((r->Ok_0,), o), r is Err ==> o == Err::<U, E>(r->Err_0);
pub assume_specification<T, E> [Option::<Result<T, E>>::transpose] (o: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
    ensures r == (match o { None => Ok(None), Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e) });
pub assume_specification<T, P: FnOnce(&T) -> bool> [Option::<T>::filter::<P>] (o: Option<T>, p: P) -> (r: Option<T>)
    requires o is Some ==> p.requires((&o->Some_0,)),
    ensures o is None ==> r is None, o is Some ==> exists|b: bool| #[trigger] p.ensures((&o->Some_0,), b) && r == (if b { o } else { None });
pub assume_specification<T, F: FnOnce(T) -> bool + core::marker::Destruct> [Option::<T>::is_some_and] (o: Option<T>, f: F) -> (r: bool)
    requires o is Some ==> f.requires((o->Some_0,)),
    ensures o is None ==> !r, o is Some ==> f.ensures((o->Some_0,), r);
