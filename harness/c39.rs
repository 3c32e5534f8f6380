//@mount src/storage/store/account/key_add_store.rs
use super::*;
use crate::verif_h::support::*;
use crate::storage::store::account::{make_app_nonce_key, make_user_nonce_key, make_last_used_at_key};
pub fn run(c: &mut Ctx) {
    for _ in 0..c.rounds(3000) {
        let f = c.int();
        c.case("gasless.counters", format!("{}", f), || {
            same("user nonce", make_user_nonce_key(f), cat(&[&[23, 102], &fkey(f)]))?;
            same("app nonce", make_app_nonce_key(f), cat(&[&[23, 103], &fkey(f)]))?;
            same("count", make_gasless_key_count_by_fid_key(f), cat(&[&[23, 107], &fkey(f)]))
        });
        let f = c.int(); let n = c.pick(&[32usize, 32, 32, 31, 33, 0, 64]); let k = c.bytes(n);
        c.case("gasless.rows", format!("{} {:?}", f, k), || {
            let ok = k.len() == 32;
            same("used", make_last_used_at_key(f, &k).ok(), if ok { Some(cat(&[&[23, 104], &fkey(f), &k])) } else { None })?;
            same("record", make_gasless_key_by_fid_key(f, &k).ok(), if ok { Some(cat(&[&[23, 105], &fkey(f), &k])) } else { None })?;
            same("owner", make_gasless_key_by_public_key_key(&k).ok(), if ok { Some(cat(&[&[23, 106], &k])) } else { None })
        });
    }
}
