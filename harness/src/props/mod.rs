use crate::compare::*;
use crate::refdec::{reference, RefOut, NEST_OK};
use crate::run::{Ctx, Prop};
use boxcars::*;

mod bytes;
mod net;
mod safety;
mod ser;
pub use safety::{emit, miri};
pub use ser::digest;

pub const ALL: &[&Prop] = &[
    &safety::C01, &safety::C02, &safety::C03, &bytes::C04, &bytes::C05, &bytes::C06, &bytes::C07, &bytes::C08, &net::C09,
    &net::C10, &net::C11, &net::C12, &net::C13, &net::C14, &net::C15, &net::C16, &ser::C17, &ser::C18, &ser::C19,
    &bytes::C20, &bytes::C21, &net::C22,
];

/// Both decoders on one input. None when nothing can be said (panic already reported, or nesting
/// in the range where either answer is fine).
pub fn both<'a>(ctx: &mut Ctx, d: &'a [u8], c: CrcCheck, n: NetworkParse) -> Option<(Result<Replay, ParseError>, RefOut<'a>)> {
    let got = ctx.guard("parse", d, || opts(d, c, n))?;
    let want = reference(d, c, n);
    if want.depth > NEST_OK {
        ctx.hit("nested beyond what is specified");
        return None;
    }
    Some((got, want))
}

/// The result has to be Ok and equal to `want`; reports otherwise.
pub fn expect_ok(ctx: &mut Ctx, what: &str, d: &[u8], got: &Result<Replay, ParseError>, want: &Replay) -> bool {
    let diff = match got {
        Ok(g) => replay_diff(g, want, true),
        Err(e) => Some(format!("rejected: {e:.300}")),
    };
    match diff {
        None => true,
        Some(x) => {
            ctx.bad(format!("{what}: wrong result"), format!("{what}: {x}"), Some(d));
            false
        }
    }
}

/// A builder that ends up with the given settings, by any sequence of calls: the last call for
/// each setting counts, and what was never set has its default.
pub fn spell<'a>(r: &mut crate::rng::Rng, d: &'a [u8], c: CrcCheck, n: NetworkParse) -> (ParserBuilder<'a>, String) {
    fn crc<'a>(r: &mut crate::rng::Rng, b: ParserBuilder<'a>, c: CrcCheck, log: &mut String) -> ParserBuilder<'a> {
        if r.chance(1, 2) {
            log.push_str(&format!(".with_crc_check({c:?})"));
            return b.with_crc_check(c);
        }
        log.push_str(&format!(".{c:?}_crc"));
        match c {
            CrcCheck::Always => b.always_check_crc(),
            CrcCheck::OnError => b.on_error_check_crc(),
            CrcCheck::Never => b.never_check_crc(),
        }
    }
    fn net<'a>(r: &mut crate::rng::Rng, b: ParserBuilder<'a>, n: NetworkParse, log: &mut String) -> ParserBuilder<'a> {
        if r.chance(1, 2) {
            log.push_str(&format!(".with_network_parse({n:?})"));
            return b.with_network_parse(n);
        }
        log.push_str(&format!(".{n:?}_network"));
        match n {
            NetworkParse::Always => b.must_parse_network_data(),
            NetworkParse::IgnoreOnError => b.ignore_network_data_on_error(),
            NetworkParse::Never => b.never_parse_network_data(),
        }
    }
    let mut b = ParserBuilder::new(d);
    let mut log = String::from("new");
    // what is at its default may be left alone altogether
    let set_c = c != CrcCheck::OnError || r.chance(1, 2);
    let set_n = n != NetworkParse::IgnoreOnError || r.chance(1, 2);
    for _ in 0..r.usize(5) {
        if set_c && r.chance(1, 2) {
            let x = *r.pick(&CRCS);
            b = crc(r, b, x, &mut log);
        } else if set_n {
            let x = *r.pick(&NETS);
            b = net(r, b, x, &mut log);
        }
    }
    if r.chance(1, 2) {
        if set_c {
            b = crc(r, b, c, &mut log)
        }
        if set_n {
            b = net(r, b, n, &mut log)
        }
    } else {
        if set_n {
            b = net(r, b, n, &mut log)
        }
        if set_c {
            b = crc(r, b, c, &mut log)
        }
    }
    (b, log)
}
