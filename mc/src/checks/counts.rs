//! C11: reported lengths.

use super::docs::*;
use super::Check;
use crate::bridge::{self, Form, Hints};
use crate::explore::*;
use crate::gen::Cfg;
use crate::model::*;
use crate::{ensure, Tier};
use gvas::cursor_ext::WriteExt;
use gvas::error::Error;
use gvas::properties::{PropertyOptions, PropertyTrait};
use gvas::types::map::HashableIndexMap;
use gvas::types::Guid;
use std::sync::Arc;

pub const CHECKS: &[Check] = &[Check {
    id: "C11",
    level: "model_checking",
    rule: "one case per choice sequence: a save derived from the format grammar; every value in it, at every level, is written by every write operation that reports a length",
    assumptions: &[],
    phases: c11,
}];

struct Count<'a> {
    vers: &'a HashableIndexMap<Guid, u32>,
    n: u64,
    err: u64,
}

impl Count<'_> {
    fn one(
        &mut self,
        what: &dyn Fn() -> String,
        f: impl Fn(&mut Vec<u8>, &mut PropertyOptions) -> Result<usize, Error>,
    ) -> Out {
        let none = Hints::new();
        let mut out = vec![0xCC; 3];
        let r = call(|| bridge::with_opts(&none, self.vers, &mut Vec::new(), |o| f(&mut out, o)))?;
        self.n += 1;
        match r {
            Ok(n) => ensure!(
                n == out.len() - 3,
                "{} reports {n} bytes but writes {}",
                what(),
                out.len() - 3
            ),
            // Not every value can be written by every operation.
            Err(_) => self.err += 1,
        }
        Ok(())
    }

    fn prop(&mut self, p: &P) -> Out {
        for form in [Form::Compact, Form::Generic] {
            if form == Form::Generic && !matches!(p, P::Array(_) | P::Map(..)) {
                continue;
            }
            let q = bridge::prop(p, form);
            let w = |op: &'static str| move || format!("{op} of {} ({form:?})", brief(p));
            self.one(&w("writing with header"), |b, o| q.write(b, true, o))?;
            self.one(&w("writing without header"), |b, o| q.write(b, false, o))?;
            self.one(&w("write_body"), |b, o| q.write_body(b, o))?;
        }
        match p {
            P::Text(t) => self.text(t)?,
            P::Struct(_, _, v) | P::Body(v) => self.sv(v)?,
            P::Array(a) => few(&a.el).try_for_each(|x| self.prop(x))?,
            P::Set(_, _, l) => few(l).try_for_each(|x| self.prop(x))?,
            P::Map(_, _, _, l) => few(l).try_for_each(|(k, v)| {
                self.prop(k)?;
                self.prop(v)
            })?,
            _ => {}
        }
        Ok(())
    }

    fn sv(&mut self, v: &SV) -> Out {
        let q = bridge::sv(v, Form::Compact);
        let w = |op: &'static str| move || format!("{op} of struct value {}", brief(v));
        self.one(&w("writing"), |b, o| q.write(b, false, o))?;
        self.one(&w("write_body"), |b, o| q.write_body(b, o))?;
        if let SV::Custom(l) = v {
            few(l).try_for_each(|(_, p)| self.prop(p))?;
        }
        Ok(())
    }

    fn text(&mut self, t: &Text) -> Out {
        let q = bridge::text(t);
        let w = |op: &'static str| move || format!("{op} of text {}", brief(t));
        self.one(&w("writing"), |b, o| q.write(b, o))?;
        self.one(&w("writing the history"), |b, o| q.history.write(b, o))?;
        match &t.hist {
            Hist::Named(f, a) | Hist::ArgFmt(f, a) => {
                self.text(f)?;
                few(a).try_for_each(|(_, x)| self.arg(x))
            }
            Hist::Ordered(f, a) => {
                self.text(f)?;
                few(a).try_for_each(|x| self.arg(x))
            }
            Hist::Number(a, n, _) | Hist::Percent(a, n, _) | Hist::Currency(_, a, n, _) => {
                self.arg(a)?;
                if let Some(n) = n {
                    let q = bridge::numfmt(n);
                    self.one(&|| format!("writing of {n:?}"), |b, _| q.write(b))?;
                }
                Ok(())
            }
            Hist::Transform(x, _) => self.text(x),
            _ => Ok(()),
        }
    }

    fn arg(&mut self, a: &Arg) -> Out {
        let q = bridge::arg(a);
        self.one(&|| format!("writing of argument {}", brief(a)), |b, o| {
            q.write(b, o)
        })?;
        if let Arg::Text(t) = a {
            self.text(t)?;
        }
        Ok(())
    }
}

/// Long lists are checked as a whole; of their elements, the first ones.
fn few<T>(l: &[T]) -> impl Iterator<Item = &T> {
    l.iter().take(8)
}

fn c11(t: Tier) -> Vec<Phase> {
    let mut d = Depth::full(t);
    d.containers = t.pick(1, 2);
    d.bytes = Some(t == Tier::Thorough);
    let mut out = doc_phases(
        Cfg::BASE,
        d,
        Arc::new(|_, x, obs| {
            let vers = bridge::versions(&x.file.hdr.versions);
            let mut c = Count {
                vers: &vers,
                n: 0,
                err: 0,
            };
            let h = bridge::header(&x.file.hdr);
            c.one(&|| "writing the header".into(), |b, _| h.write(b))?;
            for (_, p) in &x.file.props {
                c.prop(p)?;
            }
            ensure!(c.n > c.err, "nothing can be written");
            obs.calls(c.n);
            obs.validated(c.n - c.err);
            obs.outcomes("length compared", c.n - c.err);
            obs.outcomes("not writable that way", c.err);
            Ok(())
        }),
    );
    out.push(phase("string primitives", 0, move |ch, obs| {
        let style = ch.free(4);
        let n = ch.free(t.pick(3000, 131072));
        let s = text_of_len(n, style);
        let vers = bridge::versions(&[]);
        let mut c = Count {
            vers: &vers,
            n: 0,
            err: 0,
        };
        c.one(&|| format!("write_string of {n} units"), |b, _| {
            b.write_string(&s)
        })?;
        c.one(&|| format!("write_fstring of {n} units"), |b, _| {
            b.write_fstring(Some(&s))
        })?;
        c.one(&|| "write_fstring of nothing".into(), |b, _| {
            b.write_fstring(None)
        })?;
        obs.state(&(style, n));
        obs.calls(3);
        obs.validated(3);
        ensure!(c.err == 0, "string is not written");
        Ok(())
    }));
    out
}
