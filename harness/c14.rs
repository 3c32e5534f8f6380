use super::support::*;
use crate::storage::util::*;

fn prefix_of(p: &[u8], s: &[u8]) -> bool { s.len() >= p.len() && &s[..p.len()] == p }

pub fn run(c: &mut Ctx) {
    for _ in 0..c.rounds(30000) {
        let n = c.len(&[0, 1, 4, 24, 64]);
        let a = c.bytes(n);
        let b = match c.below(4) { 0 => { let m = c.len(&[0, 1, 4, 24]); c.bytes(m) } 1 => a.clone(), _ => c.mutate(&a) };
        c.case("bytes_compare.order", format!("a={:?} b={:?}", a, b), || {
            let want = match a.as_slice().cmp(b.as_slice()) { std::cmp::Ordering::Less => -1, std::cmp::Ordering::Equal => 0, std::cmp::Ordering::Greater => 1 };
            same("bytes_compare", bytes_compare(&a, &b), want)
        });
        let mut p = a.clone();
        if c.p(1, 2) { let k = if c.p(1, 2) { c.below(5) as usize } else { c.below(p.len() as u64 + 1) as usize }; let all = c.p(1, 2); let b = c.pick(&[0u8, 255]); for i in 0..k.min(p.len()) { let l = p.len(); p[l - 1 - i] = if all { b } else if c.p(1, 2) { 255 } else { 0 }; } }
        let all_ff = p.iter().all(|x| *x == 255);
        let sfx = { let k = c.below(4) as usize; c.bytes(k) };
        let mut inside = p.clone(); inside.extend(&sfx);
        c.case("increment.bound", format!("prefix={:?} other={:?}", p, b), || {
            let up = increment_vec_u8(&p);
            // reference: big-endian number plus one
            let mut r = p.clone(); let mut carry = true;
            for x in r.iter_mut().rev() { if carry { let (y, o) = x.overflowing_add(1); *x = y; carry = o; } }
            if carry { r.insert(0, 1); }
            same("increment", up.clone(), r)?;
            if !all_ff {
                holds("same length", up.len() == p.len())?;
                holds("the extension lies below the bound", inside >= p && inside < up)?;
                holds("range membership is prefix membership", b.len() < p.len() || (b >= p && b < up) == prefix_of(&p, &b))?;
                same("decrement undoes increment", decrement_vec_u8(&up), p.clone())?;
            }
            Ok(())
        });
        c.case("decrement.value", format!("v={:?}", p), || {
            let mut r = p.clone(); let mut borrow = true;
            for x in r.iter_mut().rev() { if borrow { let (y, o) = x.overflowing_sub(1); *x = y; borrow = o; } }
            if borrow { return Ok(()); } // all zero: not used
            same("decrement", decrement_vec_u8(&p), r)
        });
        let o = match c.below(5) { 0 => None, 1 => Some(c.bytes(24)), _ => { let n = c.len(&[24]); Some(c.bytes(n)) } };
        c.case("vec_to_u8_24", format!("{:?}", o), || {
            same("vec_to_u8_24", vec_to_u8_24(&o).ok().map(|x| x.to_vec()), o.clone().filter(|v| v.len() == 24))
        });
        c.case("blake3_20", format!("{:?}", a), || same("blake3_20", blake3_20(&a), blake3::hash(&a).as_bytes()[..20].to_vec()));
    }
}
