//@mount src/storage/store/account/storage_lend_store.rs
use super::*;
use crate::verif_h::support::*;
use crate::proto::{self, message_data::Body};

pub fn run(c: &mut Ctx) {
    for _ in 0..c.rounds(8000) {
        let (f, g) = (c.fid(), c.fid());
        let isl = c.p(7, 8);
        let body = if isl { Some(Body::LendStorageBody(proto::LendStorageBody { to_fid: g, num_units: c.int(), unit_type: c.i32() })) } else if c.p(1, 2) { None } else { Some(Body::UserDataBody(Default::default())) };
        let m = proto::Message { data: Some(proto::MessageData { fid: f, body, ..Default::default() }), ..Default::default() };
        c.case("loan.keys", format!("{:?}", m), || {
            same("primary", StorageLendStoreDef::make_storage_lend_primary_key(f, g), cat(&[&ukey(f), &[101], &fkey(g)]))?;
            let k = StorageLendStoreDef::by_borrower_secondary_index_key(&m).ok();
            same("by borrower", k.clone(), if isl { Some(cat(&[&[22], &fkey(g), &fkey(f)])) } else { None })?;
            if let Some(k) = k {
                same("borrower", StorageLendStoreDef::read_borrower_from_secondary_key(&k), g % (1 << 32))?;
                same("lender", StorageLendStoreDef::read_lender_from_secondary_key(&k), f % (1 << 32))?;
            }
            Ok(())
        });
    }
}
