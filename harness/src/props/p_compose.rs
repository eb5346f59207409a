//! P34 bundles composed through the programming interface.
use super::p_build::{ast_of, check_digests, holds};
use crate::engine::*;
use crate::gen::*;
use crate::model::{self, State};
use crate::{ensure_eq, util};
use isolang::Language;
use oca_bundle_semantics::state::attribute::Attribute;
use oca_bundle_semantics::state::encoding::Encoding;
use oca_bundle_semantics::state::entries::EntriesElement;
use oca_bundle_semantics::state::entry_codes::EntryCodes;
use oca_bundle_semantics::state::oca::overlay::attribute_framing::{Framing, FramingScope, Framings};
use oca_bundle_semantics::state::oca::overlay::cardinality::Cardinalitys;
use oca_bundle_semantics::state::oca::overlay::character_encoding::CharacterEncodings;
use oca_bundle_semantics::state::oca::overlay::conditional::Conditionals;
use oca_bundle_semantics::state::oca::overlay::conformance::Conformances;
use oca_bundle_semantics::state::oca::overlay::entry::Entries;
use oca_bundle_semantics::state::oca::overlay::entry_code::EntryCodes as _;
use oca_bundle_semantics::state::oca::overlay::format::Formats;
use oca_bundle_semantics::state::oca::overlay::information::Information;
use oca_bundle_semantics::state::oca::overlay::label::Labels;
use oca_bundle_semantics::state::oca::overlay::link::Links;
use oca_bundle_semantics::state::oca::overlay::meta::Metas;
use oca_bundle_semantics::state::oca::overlay::unit::Units;
use oca_bundle_semantics::state::oca::OCABox;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

pub const RULE34: &str = "cases are generated programs carried out through the programming interface: each value is set on a fresh piece of an attribute, on a copy of the attribute or on the attribute itself, pieces collect several values before they are added, attributes are given another type, flagged, removed; oracle: the model of what was set, the bundle built from the instructions that say the same, a second generation, and generation from the serialized attributes. Non-trivial: at least 2 overlays and an attribute added in more than one piece.";

/// How a value gets to its attribute.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Way { Piece, Copy, Inside }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Compose { prog: Vec<Ins>, how: Vec<(Way, bool)>, retype: Vec<(u16, u16, Ty)>, flag: Vec<(u16, u16)>, stored: bool }
fn compose(prog: BoxedStrategy<Vec<Ins>>) -> BoxedStrategy<Compose> {
    let way = || prop_oneof![4 => Just(Way::Piece), 1 => Just(Way::Copy), 1 => Just(Way::Inside)];
    let some = |n: u32| prop_oneof![2 => Just(n), 1 => Just(0)];
    (prog, vec((way(), any::<bool>()), 1..20), some(3).prop_flat_map(|n| vec((any::<u16>(), any::<u16>(), ty(true)), 0..=n as usize)), some(3).prop_flat_map(|n| vec((any::<u16>(), any::<u16>()), 0..=n as usize)), any::<bool>())
        .prop_map(|(prog, how, retype, flag, stored)| Compose { prog, how, retype: retype.into_iter().filter(|r| !named(&r.2)).collect(), flag, stored }).boxed()
}
fn named(t: &Ty) -> bool { match t { Ty::Name(_) => true, Ty::Arr(t) => named(t), _ => false } }
fn lang(l: &str) -> Language { Language::from_639_1(l).unwrap() }
type Set = Box<dyn Fn(&mut Attribute)>;
/// What an instruction sets on which attribute.
fn sets(i: &Ins, meta: &dyn Fn(&str) -> std::collections::HashMap<String, String>) -> Vec<(String, Set)> {
    fn each<T: Clone + 'static>(v: &[(String, T)], f: impl Fn(&mut Attribute, T) + Clone + 'static) -> Vec<(String, Set)> {
        v.iter().map(|(k, x)| { let (x, f) = (x.clone(), f.clone()); (k.clone(), Box::new(move |a: &mut Attribute| f(a, x.clone())) as Set) }).collect()
    }
    match i {
        Ins::Attrs(v) => each(v, |a, t| a.set_attribute_type(model::attr_ty(&t))),
        Ins::Lang(LO::Label, l, v) => { let l = lang(l); each(v, move |a, x| a.set_label(l, x)) }
        Ins::Lang(LO::Info, l, v) => { let l = lang(l); each(v, move |a, x| a.set_information(l, x)) }
        Ins::Str(o, v) => match o {
            SO::Enc => each(v, |a, x| a.set_encoding(Encoding::from_str(&x).unwrap())),
            SO::Format => each(v, |a, x| a.set_format(x)),
            SO::Conf => each(v, |a, x| a.set_conformance(x)),
            SO::Card => each(v, |a, x| a.set_cardinality(x)),
            SO::Unit => each(v, |a, x| a.set_unit(x)),
            SO::Cond => each(v, |a, x| a.set_condition(x)),
        },
        Ins::EntryCode(v) => each(v, |a, c| a.set_entry_codes(match c { Codes::Ref(s) => EntryCodes::Sai(s), Codes::List(l) => EntryCodes::Array(l), Codes::Groups(g) => EntryCodes::Object(g.into_iter().collect()) })),
        Ins::Entry(l, v) => { let l = lang(l); each(v, move |a, e| a.set_entry(l, match e { Ents::Ref(s) => EntriesElement::Sai(s), Ents::Map(m) => EntriesElement::Object(m.into_iter().collect()) })) }
        Ins::Link(Ty::Ref(t), v) => { let t = t.clone(); each(v, move |a, x| a.set_link(t.clone(), x)) }
        Ins::Framing(m, v) => {
            let id = m[0].1.clone();
            let frame_meta = meta(&id);
            each(v, move |a, fs| {
                let f: Framing = fs.into_iter().map(|(t, p, j)| (t, FramingScope { predicate_id: p, framing_justification: j, frame_meta: frame_meta.clone() })).collect();
                a.set_framing(id.clone(), f)
            })
        }
        _ => vec![],
    }
}
fn check34(c: &Compose, o: &mut Obs) -> Res {
    // the program with attributes given other types and flags in between
    let mut prog: Vec<Ins> = c.prog.iter().filter(|i| !matches!(i, Ins::EncProps(_) | Ins::From(_))).cloned().collect();
    let there = |p: &[Ins]| -> Vec<String> { State::of(p).attrs.into_keys().collect() };
    let mut spot = |at: u16, which: u16, f: &dyn Fn(String) -> Ins| {
        let at = at as usize % (prog.len() + 1);
        let names = there(&prog[..at]);
        if names.is_empty() { return false }
        prog.insert(at, f(names[which as usize % names.len()].clone()));
        true
    };
    let mut retyped = false;
    for (at, which, t) in &c.retype { retyped |= spot(*at, *which, &|k| Ins::Attrs(vec![(k, t.clone())])); }
    let mut flagged_any = false;
    for (at, which) in &c.flag { flagged_any |= spot(*at, *which, &|k| Ins::Flagged(vec![k])); }
    let s = State::of(&prog);
    let meta = |id: &str| -> std::collections::HashMap<String, String> { s.framing.get(id).map(|f| f.0.iter().filter(|(k, _)| *k != "frame_id").map(|(k, v)| (k.clone(), v.clone())).collect()).unwrap_or_default() };
    let mut oca = OCABox::new();
    let mut pieces: BTreeMap<String, Attribute> = BTreeMap::new();
    let mut flags: BTreeSet<String> = BTreeSet::new();
    let (mut added, mut several) = (BTreeMap::<String, u32>::new(), false);
    let flush = |pieces: &mut BTreeMap<String, Attribute>, oca: &mut OCABox, added: &mut BTreeMap<String, u32>| -> Res {
        for (k, a) in std::mem::take(pieces) { *added.entry(k).or_default() += 1; guard("adding an attribute", || oca.add_attribute(a))?; }
        Ok(())
    };
    for (n, i) in prog.iter().enumerate() {
        let (way, keep) = c.how[n % c.how.len()];
        match i {
            Ins::Class(x) => oca.add_classification(x.clone()),
            Ins::RmClass => oca.remove_classification(),
            Ins::Meta(l, v) => for (k, x) in v { oca.add_meta(lang(l), k.clone(), x.clone()) },
            Ins::RmAttrs(v) => { flush(&mut pieces, &mut oca, &mut added)?; for k in v { oca.remove_attribute(k); flags.remove(k); } }
            _ => {}
        }
        let mut todo = sets(i, &meta);
        if let Ins::Flagged(v) = i { for k in v { flags.insert(k.clone()); todo.push((k.clone(), Box::new(|a: &mut Attribute| a.set_flagged()))); } }
        for (k, set) in todo {
            match way {
                Way::Piece => set(pieces.entry(k.clone()).or_insert_with(|| Attribute::new(k))),
                _ => {
                    flush(&mut pieces, &mut oca, &mut added)?;
                    if way == Way::Inside && oca.attributes.contains_key(&k) { set(oca.attributes.get_mut(&k).unwrap()) }
                    else {
                        let mut a = oca.get_attribute_by_name(&k).cloned().unwrap_or_else(|| Attribute::new(k));
                        set(&mut a);
                        guard("adding an attribute", || oca.add_attribute(a))?;
                    }
                }
            }
        }
        if !keep { flush(&mut pieces, &mut oca, &mut added)?; }
    }
    flush(&mut pieces, &mut oca, &mut added)?;
    several |= added.values().any(|n| *n > 1);
    let told = || format!("composed ({:?}) as\n{}", c.how, plain_text(&prog));
    o.nontrivial = s.overlay_count() >= 2 && several;
    o.class_if(several, "in-several-pieces");
    o.class_if(retyped, "retyped");
    o.class_if(flagged_any, "flagged");
    o.class_if(s.links.len() > 1, "several-link-targets");
    o.class_if(s.framing.len() > 1, "several-frames");
    o.class_if(prog.iter().any(|i| matches!(i, Ins::RmAttrs(_))), "removed");
    o.sample = Some(plain_text(&prog));
    // an attribute stored and read back; the metadata of a frame is not part of it
    if c.stored && s.framing.is_empty() {
        for a in oca.attributes.values_mut() {
            let v = guard("serializing an attribute", || serde_json::to_string(a))?.map_err(|e| Fail(format!("an attribute cannot be serialized: {e}, {}", told())))?;
            *a = guard("reading an attribute", || serde_json::from_str(&v))?.map_err(|e| Fail(format!("a serialized attribute cannot be read: {e}\n{v}\n{}", told())))?;
        }
        o.class("attributes-stored");
    }
    let b = guard("generating", || oca.generate_bundle())?;
    let v = util::bundle_json(&b)?;
    ensure_eq!(v["capture_base"]["flagged_attributes"], json!(flags), "flagged attributes, {}", told());
    holds(&v, &s, &told())?;
    check_digests(&v)?;
    ensure_eq!(util::encode(&guard("generating", || oca.generate_bundle())?)?, util::encode(&b)?, "generated a second time, {}", told());
    ensure_eq!(util::encode(&guard("generating", || OCABox::from(b.clone()).generate_bundle())?)?, util::encode(&b)?, "generated from the bundle, {}", told());
    if !retyped {
        if !prog.is_empty() {
            let built = util::build_ok(None, &ast_of(&prog))?;
            ensure_eq!(util::encode(&b)?, util::encode(&built.oca_bundle)?, "the bundle built from the same instructions\n{}", plain_text(&prog));
            o.class("also-built");
        }
    }
    Ok(())
}
pub fn p34(ctx: &Ctx) {
    ctx.campaign("small", 20_000, 800_000, || compose(program(Cfg { small: true, ..FULL })), check34);
    ctx.campaign("full", 15_000, 800_000, || compose(program(FULL)), check34);
    ctx.campaign("sizes", 1_000, 50_000, || compose(big(1000).prop_map(|b| b.program()).boxed()), check34);
}
