//! C01, C02, C03, C11: reading and writing whole saves.

use super::docs::*;
use super::Check;
use crate::bridge::{self, Form, Hints};
use crate::explore::*;
use crate::gen::Cfg;
use crate::model::*;
use crate::{ensure, Tier};
use gvas::error::Error;
use gvas::GvasFile;
use std::io::Cursor;
use std::sync::Arc;

pub const CHECKS: &[Check] = &[
    Check {
        id: "C01",
        level: "model_checking",
        rule: "one case per choice sequence: a save derived from the format grammar (or made by a game), read with its hints and written back",
        assumptions: &[],
        phases: c01,
    },
    Check {
        id: "C02",
        level: "model_checking",
        rule: "one case per choice sequence: a save derived from the format grammar, read, and the tree compared with the reference model component by component",
        assumptions: &[],
        phases: c02,
    },
    Check {
        id: "C03",
        level: "model_checking",
        rule: "one case per choice sequence: a tree built through the public types in compact and generic form, written, compared with the reference encoding, and read back",
        assumptions: &[],
        phases: c03,
    },
];

pub fn read(b: &[u8], w: Wrap, h: &Hints) -> Result<Result<GvasFile, Error>, Stop> {
    call(|| GvasFile::read_with_hints(&mut Cursor::new(b), bridge::game(w), h))
}

pub fn write(f: &GvasFile) -> Result<Result<Vec<u8>, Error>, Stop> {
    call(|| {
        let mut c = Cursor::new(Vec::new());
        f.write(&mut c).map(|_| c.into_inner())
    })
}

pub fn must_read(x: &Doc) -> Result<GvasFile, Stop> {
    match read(&x.bytes, x.file.wrap, &x.hints)? {
        Ok(f) => Ok(f),
        Err(e) => fail(format!("well-formed save rejected: {e}")),
    }
}

pub fn first_difference(a: &[u8], b: &[u8]) -> String {
    let n = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    format!(
        "first difference at byte {n} (expected {} bytes, got {}): expected ..{}, got ..{}",
        a.len(),
        b.len(),
        hex(&a[n..(n + 24).min(a.len())]),
        hex(&b[n..(n + 24).min(b.len())]),
    )
}

fn c01(t: Tier) -> Vec<Phase> {
    let cfg = Cfg {
        wraps: &[Wrap::Plain, Wrap::PalNone],
        ..Cfg::BASE
    };
    doc_phases(
        cfg,
        Depth::full(t),
        Arc::new(|_, x, obs| {
            let f = must_read(x)?;
            let out = match write(&f)? {
                Ok(o) => o,
                Err(e) => return fail(format!("writing an unmodified save fails: {e}")),
            };
            obs.calls(2);
            obs.validated(1);
            match x.file.wrap {
                Wrap::Plain | Wrap::PalNone => {
                    ensure!(
                        out == x.bytes,
                        "rewritten save differs, {}",
                        first_difference(&x.bytes, &out)
                    );
                }
                // How well to compress is the writer's choice.
                _ => match unwrap_container(&out) {
                    Some((w, plain)) => {
                        ensure!(
                            w == x.file.wrap && plain == x.enc.buf,
                            "rewritten save differs inside its container"
                        );
                    }
                    None => return fail("rewritten container is not readable"),
                },
            }
            Ok(())
        }),
    )
}

fn c02(t: Tier) -> Vec<Phase> {
    let cfg = Cfg {
        wraps: &[Wrap::Plain, Wrap::PalNone, Wrap::PalZlib, Wrap::PalTwice],
        ..Cfg::BASE
    };
    doc_phases(
        cfg,
        Depth::full(t),
        Arc::new(|_, x, obs| {
            let f = must_read(x)?;
            obs.calls(1);
            obs.validated(1);
            bridge::same_file(&x.file, &f).map_err(Stop::Fail)
        }),
    )
}

fn c03(t: Tier) -> Vec<Phase> {
    let cfg = Cfg {
        wraps: &[Wrap::Plain, Wrap::PalNone],
        ..Cfg::BASE
    };
    let mut d = Depth::full(t);
    d.fixtures = false;
    doc_phases(
        cfg,
        d,
        Arc::new(|_, x, obs| {
            for form in [Form::Compact, Form::Generic, Form::Made] {
                let f = bridge::file(&x.file, form);
                let out = match write(&f)? {
                    Ok(o) => o,
                    Err(e) => return fail(format!("writing a valid tree ({form:?}) fails: {e}")),
                };
                ensure!(
                    out == x.bytes,
                    "written bytes ({form:?}) differ from the format, {}",
                    first_difference(&x.bytes, &out)
                );
                obs.calls(1);
                obs.validated(1);
                if form != Form::Generic {
                    let g = match read(&out, x.file.wrap, &x.hints)? {
                        Ok(g) => g,
                        Err(e) => return fail(format!("written save is rejected: {e}")),
                    };
                    ensure!(f == g, "tree read back differs from the one written");
                    obs.calls(1);
                }
            }
            Ok(())
        }),
    )
}
