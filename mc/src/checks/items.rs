//! Single properties, read and written on their own.

use super::docs::*;
use crate::bridge::{self, Form, Hints};
use crate::decode::well_formed;
use crate::explore::*;
use crate::gen::*;
use crate::model::*;
use gvas::error::Error;
use gvas::properties::{Property, PropertyTrait};
use gvas::types::map::HashableIndexMap;
use gvas::types::Guid;
use std::io::{Read, Seek, Write};

#[derive(Clone)]
pub struct Item {
    pub layout: usize,
    pub p: P,
    /// Whether it is stored with its own header.
    pub header: bool,
    /// Bytes the enclosing container sets aside for it.
    pub share: Option<u32>,
    pub bytes: Vec<u8>,
    pub hints: Hints,
    pub untyped: Vec<Untyped>,
}

pub fn item(layout: usize, p: P, header: bool, share: Option<u32>) -> Result<Item, Stop> {
    item_at(layout, p, header, share, &[])
}

pub fn item_at(
    layout: usize,
    p: P,
    header: bool,
    share: Option<u32>,
    path: &[&str],
) -> Result<Item, Stop> {
    if !well_formed(&p) {
        return Err(Stop::Prune);
    }
    let lay = Layout::of(&versions(layout, 7));
    let mut e = Enc::new(lay, false).with_path(path);
    if header {
        e.prop(&p);
    } else {
        e.element(&p);
    }
    let hints = hints_for(&e).ok_or(Stop::Prune)?;
    Ok(Item {
        layout,
        p,
        header,
        share,
        bytes: e.buf,
        hints,
        untyped: e.untyped,
    })
}

impl Item {
    pub fn versions(&self) -> HashableIndexMap<Guid, u32> {
        bridge::versions(&versions(self.layout, 7))
    }

    pub fn read<R: Read + Seek>(
        &self,
        r: &mut R,
        stack: &mut Vec<String>,
    ) -> Result<Property, Error> {
        bridge::with_opts(&self.hints, &self.versions(), stack, |o| {
            Property::new(r, self.p.type_name(), self.header, o, self.share)
        })
    }

    pub fn build(&self, form: Form) -> Property {
        bridge::prop(&self.p, form)
    }

    /// With its header a property writes its type name first.
    pub fn written(&self) -> Vec<u8> {
        let mut e = Enc::new(Layout::of(&versions(self.layout, 7)), false);
        if self.header {
            e.prop_with_type(&self.p);
        } else {
            e.element(&self.p);
        }
        e.buf
    }

    pub fn write<W: Write>(&self, p: &Property, w: &mut W) -> Result<usize, Error> {
        let none = Hints::new();
        bridge::with_opts(&none, &self.versions(), &mut Vec::new(), |o| {
            p.write(w, self.header, o)
        })
    }
}

/// Properties with headers from the small saves, and container elements.
pub fn items(small: &Small, k: u32) -> Vec<Item> {
    let mut out: Vec<Item> = Vec::new();
    for x in small.docs() {
        let layout = if x.file.hdr.versions.is_empty() {
            0
        } else {
            (0..LAYOUTS)
                .find(|i| versions(*i, 7) == x.file.hdr.versions)
                .unwrap()
        };
        if let Ok(i) = item(layout, x.file.props[0].1.clone(), true, None) {
            out.push(i);
        }
    }
    out.extend(elements(k));
    let mut seen = std::collections::HashSet::new();
    out.retain(|i| seen.insert(hash_of(&(i.layout, i.header, &i.p))));
    out
}

pub fn pick_element(ch: &mut Ch) -> Result<Item, Stop> {
    let layout = ch.free(2);
    let e = ch.free(ELEMENTS.len());
    let cfg = Cfg {
        headers: false,
        names: false,
        ..Cfg::BASE
    };
    let mut g = Gen {
        ch,
        cfg,
        lay: Layout::of(&versions(layout, 7)),
    };
    let kind = ELEMENTS[e];
    let p = if kind == "Struct" {
        let w = g.ch.free(STRUCTS);
        P::Body(g.sv_of(w, 1))
    } else if kind == "Text" {
        let h = g.ch.free(HISTS);
        P::Text(Text {
            flags: 3,
            hist: g.hist_of(h, 1),
        })
    } else {
        g.element(kind, 1, 5)
    };
    let share = match (&p, kind) {
        (P::Unknown(_, d), _) => Some(d.len() as u32),
        (_, "ByteLabel") => Some(12),
        _ => None,
    };
    item(layout, p, false, share)
}

pub fn elements(k: u32) -> Vec<Item> {
    collect(k, pick_element)
}

/// Properties with many members, long strings or much data.
pub fn large() -> Vec<Item> {
    let mut out = Vec::new();
    let mut add = |f: File| {
        let p = f.props.into_iter().next().unwrap().1;
        // Without the header where containers hold it so.
        let element = match &p {
            P::Struct(_, _, v) => Some((P::Body(v.clone()), None)),
            P::Unknown(_, d) => Some((p.clone(), Some(d.len() as u32))),
            P::Str(_) | P::Object(_) | P::Text(_) | P::MInline(_) | P::FieldPath(..) => {
                Some((p.clone(), None))
            }
            P::Name(_, s) => Some((P::Name(0, s.clone()), None)),
            _ => None,
        };
        if let Some((p, share)) = element {
            out.extend(item(0, p, false, share).ok());
        }
        out.extend(item(0, p, true, None).ok());
    };
    for kind in 0..=60 {
        add(counted(kind, 300, &mut Ch::new(&[])));
    }
    for n in [5_000, 70_000] {
        add(counted(58, n, &mut Ch::new(&[])));
        for slot in 0..STRING_SLOTS {
            for style in 0..2 {
                add(string_slot(slot, text_of_len(n, style)));
            }
        }
    }
    // Slots outside the property leave it as it is.
    let mut seen = std::collections::HashSet::new();
    out.retain(|i| i.bytes.len() > 300 && seen.insert(hash_of(&(i.header, &i.p))));
    out
}
