//! C26: saves in the middle of a larger stream.

use super::docs::*;
use super::single::{tails, Far, OFFSETS};
use super::Check;
use crate::bridge::{self, Hints};
use crate::explore::*;
use crate::gen::*;
use crate::model::*;
use crate::{ensure, Tier};
use gvas::error::Error;
use gvas::{GvasFile, GvasHeader};
use std::sync::Arc;

pub const CHECKS: &[Check] = &[Check {
    id: "C26",
    level: "model_checking",
    rule: "one case per choice sequence: a save or header, whole or damaged, read from every offset of a stream that cannot be read before that offset, with every kind of bytes after it, compared with the reference model or with the result of reading it alone",
    assumptions: &[],
    phases: c26,
}];

/// Saves and other things that may follow a save in a stream.
fn followers() -> Vec<Vec<u8>> {
    let mut all = tails();
    for wrap in [Wrap::Plain, Wrap::PalNone, Wrap::PalZlib, Wrap::PalTwice] {
        let f = tiny(0, wrap, P::I32(7));
        all.push(crate::model::wrap(wrap, &encode_file(&f).buf));
    }
    all.push((0..=255).collect());
    all.push(vec![0x78, 0x9C]);
    all.push(vec![0; 100_000]);
    all
}

fn read(b: &[u8], at: u64, w: Wrap, h: &Hints) -> Result<Result<GvasFile, Error>, Stop> {
    let mut r = Far {
        base: at,
        bytes: b,
        pos: at,
    };
    call(|| match h.is_empty() {
        true => GvasFile::read(&mut r, bridge::game(w)),
        false => GvasFile::read_with_hints(&mut r, bridge::game(w), h),
    })
}

/// What went wrong, without the position.
fn kind(e: &Error) -> String {
    let s = format!("{e:?}");
    let mut names = s.splitn(3, '(');
    format!(
        "{}/{}",
        names.next().unwrap_or(""),
        names.next().unwrap_or("")
    )
}

fn everywhere(x: &Doc, followers: &[Vec<u8>], obs: &mut Obs) -> Out {
    let mut n = 0;
    let long = x.bytes.len() > 20_000;
    let huge = x.bytes.len() > 500_000;
    for (o, at) in OFFSETS.into_iter().enumerate() {
        for (t, tail) in followers.iter().enumerate() {
            // Every tail at two offsets, two tails at every offset.
            if o > 1 && t > 1
                || long && (o > 2 || t > 2)
                || huge && o + t != 1
                || tail.len() > 1000 && o > 0
            {
                continue;
            }
            let mut b = x.bytes.clone();
            b.extend_from_slice(tail);
            match read(&b, at, x.file.wrap, &x.hints)? {
                Ok(f) => bridge::same_file(&x.file, &f)
                    .map_err(|m| Stop::Fail(format!("at {at} with tail {t}: {m}")))?,
                Err(e) => return fail(format!("rejected at {at} with tail {t}: {e}")),
            }
            n += 1;
        }
    }
    obs.calls(n);
    obs.validated(n);
    Ok(())
}

fn header(x: &Doc, followers: &[Vec<u8>], obs: &mut Obs) -> Out {
    let mut e = Enc::new(Layout::of(&x.file.hdr.versions), false);
    e.header(&x.file.hdr);
    let end = e.buf.len();
    for (o, at) in OFFSETS.into_iter().enumerate() {
        for (t, tail) in followers.iter().enumerate() {
            if o > 1 && t > 1 {
                continue;
            }
            let mut b = e.buf.clone();
            b.extend_from_slice(tail);
            let mut r = Far {
                base: at,
                bytes: &b,
                pos: at,
            };
            match call(|| GvasHeader::read(&mut r))? {
                Ok(h) => bridge::same_header(&x.file.hdr, &h)
                    .map_err(|m| Stop::Fail(format!("header at {at} with tail {t}: {m}")))?,
                Err(e) => return fail(format!("header rejected at {at} with tail {t}: {e}")),
            }
            ensure!(
                r.pos == at + end as u64,
                "header at {at} with tail {t}: {} of {end} bytes consumed",
                r.pos as i128 - at as i128
            );
            obs.calls(1);
            obs.validated(1);
        }
    }
    Ok(())
}

/// A save that cannot be read alone cannot be read there, for the same reason.
fn damaged(x: &Doc, values: &[u8], obs: &mut Obs) -> Out {
    let (mut good, mut bad) = (0, 0);
    let mut one = |b: &[u8], h: &Hints, what: &dyn Fn() -> String| -> Out {
        let alone = read(b, 0, x.file.wrap, h)?;
        for at in OFFSETS.into_iter().skip(1) {
            match (&alone, read(b, at, x.file.wrap, h)?) {
                (Ok(f), Ok(g)) => {
                    ensure!(
                        *f == g || format!("{f:?}") == format!("{g:?}"),
                        "another tree at {at}: {}",
                        what()
                    );
                    good += 1;
                }
                (Err(e), Err(g)) => {
                    ensure!(kind(e) == kind(&g), "{e} alone, {g} at {at}: {}", what());
                    bad += 1;
                }
                (Ok(_), Err(g)) => return fail(format!("{g} at {at} only: {}", what())),
                (Err(e), Ok(_)) => return fail(format!("accepted at {at}, alone {e}: {}", what())),
            }
        }
        Ok(())
    };
    for i in 0..x.bytes.len() {
        one(&x.bytes[..i], &x.hints, &|| format!("cut at {i}"))?;
        for v in values {
            let mut b = x.bytes.clone();
            b[i] ^= v;
            one(&b, &x.hints, &|| format!("byte {i} xor {v:#x}"))?;
        }
    }
    one(&x.bytes, &Hints::new(), &|| "without hints".into())?;
    obs.swept((good + bad) / (OFFSETS.len() as u64 - 1));
    obs.calls(good + bad);
    obs.validated(good + bad);
    obs.outcomes("accepted", good);
    obs.outcomes("rejected", bad);
    Ok(())
}

fn c26(t: Tier) -> Vec<Phase> {
    let cfg = Cfg {
        wraps: &[Wrap::Plain, Wrap::PalNone, Wrap::PalZlib, Wrap::PalTwice],
        ..Cfg::BASE
    };
    let mut d = Depth::light(t);
    d.fixtures = true;
    d.lengths = true;
    let f = Arc::new(followers());
    let g = f.clone();
    let mut out = doc_phases(cfg, d, Arc::new(move |_, x, obs| everywhere(x, &g, obs)));

    let g = f.clone();
    out.push(phase(
        "headers at an offset",
        t.pick(2, 3),
        move |ch, obs| {
            let hdr = crate::gen::header(ch, &Cfg::BASE);
            let x = doc(File {
                wrap: Wrap::Plain,
                hdr,
                props: vec![],
            })?;
            obs.state(&x.bytes);
            obs.show(|| brief(&x.file.hdr));
            header(&x, &g, obs)
        },
    ));

    let all = Arc::new(Small::ONCE.docs());
    let g = f.clone();
    let a = all.clone();
    out.push(phase("every container mode", 0, move |ch, obs| {
        let x = &a[ch.free(a.len())];
        let mut f = x.file.clone();
        f.wrap = [Wrap::Plain, Wrap::PalNone, Wrap::PalZlib, Wrap::PalTwice][ch.free(4)];
        let x = doc(f)?;
        obs.state(&x.bytes);
        obs.show(|| brief(&x.file.props));
        everywhere(&x, &g, obs)
    }));
    let values: &[u8] = t.pick(&[0xFF], &[1, 2, 0x10, 0x80, 0xFF]);
    out.push(phase("damaged", 0, move |ch, obs| {
        let x = &all[ch.free(all.len())];
        let mut f = x.file.clone();
        f.wrap = [Wrap::Plain, Wrap::PalNone, Wrap::PalZlib, Wrap::PalTwice][ch.free(4)];
        let x = doc(f)?;
        obs.state(&x.bytes);
        obs.show(|| brief(&x.file.props));
        damaged(&x, values, obs)
    }));
    out
}
