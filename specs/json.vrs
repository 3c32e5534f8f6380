// JSON values (serde_json, trusted): objects by member name, numbers exact
pub ghost enum J { Null, Bool(bool), Num(int), Str(Seq<char>), Arr(Seq<J>), Obj(Map<Seq<char>, J>) }
#[verifier::external_body] pub struct Value { v: u8 }
impl View for Value { type V = J; uninterp spec fn view(&self) -> J; }
pub open spec fn obj0() -> J { J::Obj(Map::empty()) }
pub open spec fn put(o: J, k: Seq<char>, v: J) -> J { J::Obj(o->Obj_0.insert(k, v)) }
pub open spec fn arr0() -> J { J::Arr(Seq::empty()) }
pub open spec fn push(a: J, v: J) -> J { J::Arr(a->Arr_0.push(v)) }
pub open spec fn get(o: J, k: Seq<char>) -> J { o->Obj_0[k] }
impl Value {
    #[verifier::external_body] pub fn put(self, k: &'static str, v: Value) -> (r: Value) ensures r@ == put(self@, k@, v@) { unimplemented!() }
    #[verifier::external_body] pub fn push(self, v: Value) -> (r: Value) ensures r@ == push(self@, v@) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_obj() -> (r: Value) ensures r@ == obj0() { unimplemented!() }
#[verifier::external_body] pub fn vx_arr() -> (r: Value) ensures r@ == arr0() { unimplemented!() }
#[verifier::external_body] pub fn vx_null() -> (r: Value) ensures r@ == J::Null { unimplemented!() }
pub trait VxJson { spec fn js(&self) -> J; fn vx_json(&self) -> (r: Value) ensures r@ == self.js(); }
pub fn vx_js<T: VxJson>(t: &T) -> (r: Value) ensures r@ == t.js() { t.vx_json() }
impl VxJson for Value { open spec fn js(&self) -> J { self@ } #[verifier::external_body] fn vx_json(&self) -> (r: Value) { unimplemented!() } }
impl VxJson for String { open spec fn js(&self) -> J { J::Str(self@) } #[verifier::external_body] fn vx_json(&self) -> (r: Value) { unimplemented!() } }
impl VxJson for &str { open spec fn js(&self) -> J { J::Str(self@) } #[verifier::external_body] fn vx_json(&self) -> (r: Value) { unimplemented!() } }
impl VxJson for bool { open spec fn js(&self) -> J { J::Bool(*self) } #[verifier::external_body] fn vx_json(&self) -> (r: Value) { unimplemented!() } }
impl VxJson for u64 { open spec fn js(&self) -> J { J::Num(*self as int) } #[verifier::external_body] fn vx_json(&self) -> (r: Value) { unimplemented!() } }
impl VxJson for u32 { open spec fn js(&self) -> J { J::Num(*self as int) } #[verifier::external_body] fn vx_json(&self) -> (r: Value) { unimplemented!() } }
impl VxJson for u16 { open spec fn js(&self) -> J { J::Num(*self as int) } #[verifier::external_body] fn vx_json(&self) -> (r: Value) { unimplemented!() } }
impl VxJson for i32 { open spec fn js(&self) -> J { J::Num(*self as int) } #[verifier::external_body] fn vx_json(&self) -> (r: Value) { unimplemented!() } }
impl VxJson for i64 { open spec fn js(&self) -> J { J::Num(*self as int) } #[verifier::external_body] fn vx_json(&self) -> (r: Value) { unimplemented!() } }
pub open spec fn nums(s: Seq<u32>) -> J { J::Arr(s.map_values(|x: u32| J::Num(x as int))) }
impl VxJson for Vec<u32> { open spec fn js(&self) -> J { nums(self@) } #[verifier::external_body] fn vx_json(&self) -> (r: Value) { unimplemented!() } }
