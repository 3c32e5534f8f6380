//@mount src/core/validations/message.rs
use super::*;
use crate::verif_h::support::*;
use proto::message_data::Body;

fn data(c: &mut Ctx) -> MessageData {
    let body = match c.below(4) {
        0 => None,
        1 => Some(Body::LinkBody(proto::LinkBody { r#type: "follow".to_string(), display_timestamp: if c.p(1, 2) { Some(c.u32()) } else { None }, target: Some(proto::link_body::Target::TargetFid(c.below(3))) })),
        2 => Some(Body::CastAddBody(proto::CastAddBody { text: c.text(12), mentions: (0..c.below(3)).collect(), ..Default::default() })),
        _ => Some(Body::VerificationRemoveBody(proto::VerificationRemoveBody { address: c.bytes(20), ..Default::default() })),
    };
    MessageData { r#type: c.below(16) as i32, fid: c.fid(), timestamp: c.u32(), network: c.below(3) as i32, body, ..Default::default() }
}

pub fn run(c: &mut Ctx) {
    for _ in 0..c.rounds(20000) {
        let d = data(c);
        let good = d.encode_to_vec();
        // what is merged, beside what was signed
        let mut shown = Some(d.clone());
        let (bytes, equal) = match c.below(10) {
            0 => (None, true),
            1 | 2 | 3 => (Some(good), true),
            4 => { shown = None; (Some(good), false) }
            5 => { let mut e = d.clone(); match c.below(5) { 0 => e.fid = e.fid.wrapping_add(1), 1 => e.timestamp ^= 1, 2 => e.network += 1, 3 => e.r#type += 1, _ => e.body = Some(Body::UserDataBody(proto::UserDataBody { r#type: 1, value: "x".into() })) }; shown = Some(e); (Some(good), false) }
            6 => { let bad = cat(&[&good, &[0x0a, 0xff, 0x01]]); (Some(bad), false) }
            // nothing was signed: a default message
            7 => { let e = MessageData::default(); let same = e == d; (Some(vec![]), same) }
            // a field this version does not know is not data it would merge
            8 => { let wide = cat(&[&good, &[0xf8, 0x3f, 0x01]]); (Some(wide), true) }
            _ => { let other = data(c); let same = other == d; (Some(other.encode_to_vec()), same) }
        };
        let m = proto::Message { data: shown.clone(), data_bytes: bytes.clone(), hash: c.bytes(20), ..Default::default() };
        c.case("signed.data", format!("{:?} {:?}", shown, bytes), || same("accepted", validate_structured_data(&m).is_ok(), equal));
    }
}
