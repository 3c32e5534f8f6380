// Text: literals, concatenation and the decimal form of numbers (trusted standard library)
pub uninterp spec fn dec(n: nat) -> Seq<char>;
pub trait VxDisp { spec fn shown(&self) -> Seq<char>; fn vx_disp(&self) -> (r: String) ensures r@ == self.shown(); }
impl VxDisp for String { open spec fn shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_disp(&self) -> (r: String) { unimplemented!() } }
impl VxDisp for &str { open spec fn shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_disp(&self) -> (r: String) { unimplemented!() } }
impl VxDisp for u64 { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) } #[verifier::external_body] fn vx_disp(&self) -> (r: String) { unimplemented!() } }
impl VxDisp for u32 { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) } #[verifier::external_body] fn vx_disp(&self) -> (r: String) { unimplemented!() } }
#[verifier::external_body] pub fn vx_lit(s: &'static str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn vx_cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
