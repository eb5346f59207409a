//! P04 add/remove rules, P05 serialization of instructions, P35 instructions as values.
use crate::engine::*;
use crate::gen::*;
use crate::{ensure, ensure_eq, model, util};
use indexmap::IndexMap;
use oca_ast_semantics::ast::*;
use oca_ast_semantics::validator::{OCAValidator, Validator};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::str::FromStr;

pub const RULE04: &str = "cases are histories of add/remove of attributes and classification over a small name pool, interleaved with other instructions, valid or not; oracle: a set model of what exists. The verdict of the validator on every prefix, the verdict of the parser and of the facade on the text, and the reported error (it must be the one the prefix ending in the first offending instruction gives, naming what that instruction adds twice) are compared. Non-trivial: a removal or a repeated addition occurs and at least 3 instructions.";
pub const RULE35: &str = "cases are arbitrary instructions of every kind (or transformation instructions) with a second writing of each, equal to it but with the entries of every map in another order, and a third that differs in one place; oracle: equality is decided by the description generated, hashes of equal instructions agree (two hashers), a set keeps one of the equal and both of the different, a map finds the one by the other. Non-trivial: some map has at least two entries, in another order.";
pub const RULE05: &str = "cases are (a) parsed generated programs, (b) arbitrary commands of every kind, object kind, overlay kind and nested value shape; oracle: serialize/deserialize round trip compared including key order, byte-identical repeated serialization. Numeric codes and kind names are enumerated exhaustively. Non-trivial: the command carries at least two keys or a nested value.";

// ---------------------------------------------------------------- P04

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HistCase { pub hist: Vec<Ins>, pub lay: Lay }
const NAMES: [&str; 6] = ["a", "b", "c", "first.name", "A", "d-1"];
fn hist() -> BoxedStrategy<HistCase> {
    let name = || proptest::sample::select(NAMES.to_vec()).prop_map(String::from);
    let set = |n: std::ops::Range<usize>| vec(name(), n).prop_map(|v| { let mut s = BTreeSet::new(); v.into_iter().filter(|x| s.insert(x.clone())).collect::<Vec<_>>() });
    let step = prop_oneof![
        6 => (set(1..4), ty(false)).prop_map(|(v, t)| Ins::Attrs(v.into_iter().map(|k| (k, t.clone())).collect())),
        5 => set(1..4).prop_map(Ins::RmAttrs),
        2 => Just(Ins::Class("GICS:1".into())),
        2 => Just(Ins::RmClass),
        1 => name().prop_map(|k| Ins::Lang(LO::Label, "en".into(), vec![(k, "x".into())])),
        1 => (name(), name()).prop_map(|(k, v)| Ins::Meta("en".into(), vec![(k, v)])),
        1 => set(1..3).prop_map(Ins::Flagged),
        1 => set(1..3).prop_map(|v| Ins::EncProps(v.into_iter().map(|k| (k, "utf-8".into())).collect())),
    ];
    // repairing most offending steps makes long accepted histories common
    (vec((step, 0u8..8), 1..14), lay()).prop_map(|(v, lay)| {
        let mut have = BTreeSet::new();
        let mut class = false;
        let mut hist = vec![];
        for (mut i, r) in v {
            match &mut i {
                Ins::Attrs(a) if r < 7 => { a.retain(|x| !have.contains(&x.0)); if a.is_empty() { continue } }
                Ins::RmAttrs(a) if r < 7 => { a.retain(|x| have.contains(x)); if a.is_empty() { continue } }
                Ins::RmClass if r < 7 && !class => continue,
                _ => {}
            }
            match &i { Ins::Attrs(a) => have.extend(a.iter().map(|x| x.0.clone())), Ins::RmAttrs(a) => for x in a { have.remove(x); }, Ins::Class(_) => class = true, Ins::RmClass => class = false, _ => {} }
            hist.push(i);
        }
        HistCase { hist, lay }
    }).prop_filter("not empty", |c| !c.hist.is_empty()).boxed()
}
/// Index of the first offending instruction and the names it adds although they exist.
fn offending(h: &[Ins]) -> Option<(usize, Vec<String>)> {
    let (mut have, mut class) = (BTreeSet::new(), false);
    for (n, i) in h.iter().enumerate() {
        match i {
            Ins::Attrs(a) => { let dup: Vec<String> = a.iter().map(|x| x.0.clone()).filter(|k| have.contains(k)).collect(); if !dup.is_empty() { return Some((n, dup)); } have.extend(a.iter().map(|x| x.0.clone())) }
            Ins::RmAttrs(a) => { if a.iter().any(|k| !have.contains(k)) { return Some((n, vec![])); } for k in a { have.remove(k); } }
            Ins::Class(_) => class = true,
            Ins::RmClass => { if !class { return Some((n, vec![])); } class = false }
            _ => {}
        }
    }
    None
}
fn check04(c: &HistCase, o: &mut Obs) -> Res {
    let want = offending(&c.hist);
    let text = render(&c.hist, &c.lay).text;
    o.sample = Some(text.clone());
    o.nontrivial = c.hist.len() >= 3 && (want.is_some() || c.hist.iter().any(|i| matches!(i, Ins::RmAttrs(_) | Ins::RmClass)));
    o.class(if let Some((n, d)) = &want { format!("rejected:{}{}", c.hist[*n].tag(), if d.is_empty() { "" } else { "-dup" }) } else { "accepted".into() });
    // the validator itself, one instruction after another
    let mut ast = OCAAst::new();
    let end = want.as_ref().map_or(c.hist.len(), |w| w.0 + 1);
    for (n, i) in c.hist[..end].iter().enumerate() {
        let cmd = model::command(i);
        let r = guard("validating", || OCAValidator {}.validate(&ast, cmd.clone()))?;
        let bad = want.as_ref().is_some_and(|w| w.0 == n);
        match r {
            Ok(true) => ensure!(!bad, "the validator accepts instruction {} of\n{}", n + 1, text),
            Ok(false) => return fail("the validator answers Ok(false)"),
            Err(e) => { ensure!(bad, "the validator rejects instruction {} of\n{}\n{e}", n + 1, text); if let Some((_, d)) = &want { for k in d { ensure!(e_text(&e).contains(k.as_str()), "the error does not name the attribute {k:?}: {}", e_text(&e)); } } }
        }
        ast.commands.push(cmd);
    }
    // the whole file
    let r = util::parse(&text)?;
    match (&want, &r) {
        (None, Ok(_)) => {}
        (None, Err(e)) => return fail(format!("rejected although nothing is added twice or removed while missing: {e}\n{text}")),
        (Some((n, _)), Ok(_)) => return fail(format!("accepted although instruction {} offends\n{text}", n + 1)),
        (Some((n, d)), Err(e)) => {
            for k in d { ensure!(e.contains(k.as_str()), "the error does not name the attribute {k:?}: {e}\n{text}"); }
            let prefix = render(&c.hist[..n + 1], &Lay::new(vec![0])).text;
            match util::parse(&prefix)? { Ok(_) => return fail(format!("accepted although instruction {} offends\n{prefix}", n + 1)), Err(p) => ensure_eq!(kind(e), kind(&p), "the reported error is not that of the first offending instruction ({})\n{text}", n + 1) }
            let mut before = c.hist[..*n].to_vec();
            if !before.is_empty() { if let Err(e) = util::parse(&plain_text(&before))? { return fail(format!("the instructions before the offending one are rejected: {e}")); } }
            before.clear();
        }
    }
    Ok(())
}
fn e_text(e: &(impl std::fmt::Debug + std::fmt::Display)) -> String { format!("{e:?} {e}") }
/// The error without its position.
fn kind(e: &str) -> String { regex::Regex::new(r"(?i)line:? ?\d+|column:? ?\d+").unwrap().replace_all(e, "").to_string() }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ContCase { pub hist: HistCase, pub cut: u16 }
/// The same, with the first instructions in a bundle from which the file starts.
fn check04b(c: &ContCase, o: &mut Obs) -> Res {
    // what is added to attributes that are missing is refused when it is built, which is another matter
    let mut have = BTreeSet::new();
    let h: Vec<Ins> = c.hist.hist.iter().filter(|i| match i {
        Ins::Attrs(a) => { have.extend(a.iter().map(|x| x.0.clone())); true }
        Ins::RmAttrs(a) => { for k in a { have.remove(k); } true }
        Ins::Flagged(v) => v.iter().all(|k| have.contains(k)),
        i => !matches!(i, Ins::Lang(..)),
    }).cloned().collect();
    let want = offending(&h).map(|w| w.0);
    let top = want.unwrap_or(h.len());
    if top == 0 { return Ok(()) }
    let cut = 1 + c.cut as usize % top;
    let base = util::build_ok(None, &super::p_build::ast_of(&h[..cut]))?.oca_bundle;
    let mut file = vec![Ins::From(util::said(&base))];
    file.extend(h[cut..].iter().cloned());
    let r = render(&file, &c.hist.lay);
    let text = format!("# from a bundle of\n{}# the file\n{}", plain_text(&h[..cut]), r.text);
    o.sample = Some(text.clone());
    o.nontrivial = h[cut..].iter().any(|i| matches!(i, Ins::RmAttrs(_) | Ins::RmClass | Ins::Attrs(_)));
    o.class(if want.is_some() { "rejected" } else { "accepted" });
    let e = match util::parse(&r.text)? {
        Err(e) => e,
        Ok(mut ast) => {
            ast.commands.remove(0);
            match guard("building", || oca_bundle_semantics::build::from_ast(Some(base.clone()), &ast))? {
                Ok(b) => {
                    ensure!(want.is_none(), "accepted although instruction {} offends\n{text}", top - cut + 2);
                    let whole = util::build_ok(None, &super::p_build::ast_of(&h))?.oca_bundle;
                    ensure_eq!(util::said(&b.oca_bundle), util::said(&whole), "identifier of the bundle built in two parts\n{text}");
                    return Ok(())
                }
                Err(e) => {
                    if want.is_some() {
                        let line = r.at[top - cut + 1].0 as u64;
                        let l = e.first().and_then(super::p_valid::position).map(|p| p.0);
                        ensure_eq!(l, Some(line), "line of the first error\n{text}");
                    }
                    format!("{e:?}")
                }
            }
        }
    };
    ensure!(want.is_some(), "rejected although nothing is added twice or removed while missing: {e}\n{text}");
    Ok(())
}
fn cont() -> BoxedStrategy<ContCase> { (hist(), any::<u16>()).prop_map(|(hist, cut)| ContCase { hist, cut }).boxed() }
/// Long histories over many names, and instructions with many names: accepted up to one offending step near the end, if any.
fn long() -> BoxedStrategy<HistCase> {
    (10u16..400, 4u16..300, vec((any::<u16>(), 1u16..40, any::<u16>()), 4..40), proptest::option::of((any::<bool>(), any::<u16>())), lay()).prop_map(|(steps, names, picks, offend, lay)| {
        let name = |i: u16| format!("n{}", i % names);
        let mut have = BTreeSet::new();
        let mut hist = vec![];
        for s in 0..steps {
            let (at, n, mix) = picks[s as usize % picks.len()];
            let at = at.wrapping_add(s.wrapping_mul(7));
            let some: Vec<String> = { let mut seen = BTreeSet::new(); (0..n).map(|i| name(at.wrapping_add(i.wrapping_mul(mix | 1)))).filter(|k| seen.insert(k.clone())).collect() };
            let (old, new): (Vec<String>, Vec<String>) = some.into_iter().partition(|k| have.contains(k));
            if s % 3 == 2 && !old.is_empty() { for k in &old { have.remove(k); } hist.push(Ins::RmAttrs(old)) }
            else if !new.is_empty() { have.extend(new.iter().cloned()); hist.push(Ins::Attrs(new.into_iter().map(|k| (k, Ty::Text)).collect())) }
        }
        if let Some((add, i)) = offend {
            let there = have.iter().nth(i as usize % have.len().max(1)).cloned();
            match (add, there) {
                (true, Some(k)) => hist.push(Ins::Attrs(vec![("fresh".into(), Ty::Text), (k, Ty::Text)])),
                (_, Some(k)) => hist.push(Ins::RmAttrs(vec![k, "missing".into()])),
                _ => hist.push(Ins::RmAttrs(vec!["missing".into()])),
            }
            hist.push(Ins::Attrs(vec![("later".into(), Ty::Text)]));
        }
        if hist.is_empty() { hist.push(Ins::Attrs(vec![("n".into(), Ty::Text)])) }
        HistCase { hist, lay }
    }).boxed()
}
pub fn p04(ctx: &Ctx) {
    ctx.campaign("long", 250, 8_000, long, |c: &HistCase, o: &mut Obs| { o.class_if(c.hist.len() > 100, "over 100 instructions"); check04(c, o)?; o.sample = None; Ok(()) });
    ctx.campaign("from-a-bundle", 30_000, 1_500_000, cont, check04b);
    ctx.campaign("histories", 60_000, 3_000_000, hist, check04);
}

// ---------------------------------------------------------------- P05

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Val { V(String), S(String), N(String), O(Vec<(String, Val)>), A(Vec<Val>) }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Obj { Cb(Option<Vec<(String, Option<Ty>)>>, Option<Vec<(String, Val)>>, Option<Vec<String>>), Bundle(Ty), Ov(u8, Option<Vec<(String, Val)>>, Option<Vec<(String, Val)>>) }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CmdCase { pub kind: u8, pub obj: Obj }

fn string() -> BoxedStrategy<String> {
    // a plain string in the form of a reference is read back as a reference: known finding K05A
    prop_oneof![4 => text(FULL), 1 => vec(any::<char>(), 0..6).prop_map(|v| v.into_iter().collect::<String>()), 1 => Just("refx:y".to_string()), 1 => Just("refs".to_string()), 1 => Just("refs:notasaid".to_string())]
        .prop_map(|s| if s.starts_with("refn:") { format!("_{s}") } else { s }).boxed()
}
fn value() -> BoxedStrategy<Val> {
    let leaf = prop_oneof![6 => string().prop_map(Val::V), 1 => proptest::sample::select(said_pool().clone()).prop_map(Val::S), 1 => string().prop_map(Val::N)];
    leaf.prop_recursive(3, 20, 4, |inner| prop_oneof![vec((string(), inner.clone()), 0..4).prop_map(|v| Val::O(uniq(v))), vec(inner, 0..4).prop_map(Val::A)]).boxed()
}
fn uniq<T>(v: Vec<(String, T)>) -> Vec<(String, T)> { let mut s = BTreeSet::new(); v.into_iter().filter(|x| s.insert(x.0.clone())).collect() }
fn any_ty() -> BoxedStrategy<Ty> {
    let leaf = prop_oneof![4 => base_ty(), 1 => proptest::sample::select(said_pool().clone()).prop_map(Ty::Ref), 1 => string().prop_map(Ty::Name)];
    (leaf, prop_oneof![3 => Just(0u8), 2 => 1u8..6]).prop_map(|(t, n)| (0..n).fold(t, |t, _| Ty::Arr(Box::new(t)))).boxed()
}
pub fn cmd_case() -> BoxedStrategy<CmdCase> {
    let kvs = || proptest::option::of(vec((string(), value()), 0..4).prop_map(uniq));
    let obj = prop_oneof![
        3 => (proptest::option::of(vec((string(), proptest::option::weighted(0.8, any_ty())), 0..4).prop_map(uniq)), kvs(), proptest::option::of(vec(string(), 0..3))).prop_map(|(a, p, f)| Obj::Cb(a, p, f)),
        1 => prop_oneof![proptest::sample::select(said_pool().clone()).prop_map(Ty::Ref), string().prop_map(Ty::Name)].prop_map(Obj::Bundle),
        8 => (2u8..23, kvs(), kvs()).prop_map(|(k, p, a)| Obj::Ov(k, p, a)),
    ];
    (0u8..4, obj).prop_map(|(kind, obj)| CmdCase { kind, obj }).boxed()
}
fn nested(v: &Val) -> NestedValue {
    match v {
        Val::V(s) => NestedValue::Value(s.clone()),
        Val::S(s) => NestedValue::Reference(RefValue::Said(said::SelfAddressingIdentifier::from_str(s).unwrap())),
        Val::N(s) => NestedValue::Reference(RefValue::Name(s.clone())),
        Val::O(o) => NestedValue::Object(o.iter().map(|(k, v)| (k.clone(), nested(v))).collect()),
        Val::A(a) => NestedValue::Array(a.iter().map(nested).collect()),
    }
}
fn map(v: &Option<Vec<(String, Val)>>) -> Option<IndexMap<String, NestedValue>> { v.as_ref().map(|v| v.iter().map(|(k, v)| (k.clone(), nested(v))).collect()) }
fn overlay(k: u8) -> OverlayType {
    let v = "1.1".to_string();
    match k {
        2 => OverlayType::Label(v), 3 => OverlayType::Information(v), 4 => OverlayType::Encoding(v), 5 => OverlayType::CharacterEncoding(v), 6 => OverlayType::Format(v), 7 => OverlayType::Meta(v), 8 => OverlayType::Standard(v),
        9 => OverlayType::Cardinality(v), 10 => OverlayType::Conditional(v), 11 => OverlayType::Conformance(v), 12 => OverlayType::EntryCode(v), 13 => OverlayType::Entry(v), 14 => OverlayType::Unit(v), 15 => OverlayType::AttributeMapping(v),
        16 => OverlayType::EntryCodeMapping(v), 17 => OverlayType::Subset(v), 18 => OverlayType::UnitMapping(v), 19 => OverlayType::Layout(v), 20 => OverlayType::Sensitivity(v), 21 => OverlayType::Link(v), 22 => OverlayType::AttributeFraming(v),
        _ => unreachable!(),
    }
}
pub fn cmd(c: &CmdCase) -> Command {
    let object_kind = match &c.obj {
        Obj::Cb(a, p, f) => ObjectKind::CaptureBase(CaptureContent { attributes: a.as_ref().map(|a| a.iter().map(|(k, t)| (k.clone(), t.as_ref().map_or(NestedAttrType::Null, model::attr_ty))).collect()), properties: map(p), flagged_attributes: f.clone() }),
        Obj::Bundle(t) => ObjectKind::OCABundle(BundleContent { said: match t { Ty::Name(n) => ReferenceAttrType::Reference(RefValue::Name(n.clone())), Ty::Ref(s) => ReferenceAttrType::Reference(RefValue::Said(said::SelfAddressingIdentifier::from_str(s).unwrap())), _ => unreachable!() } }),
        Obj::Ov(k, p, a) => ObjectKind::Overlay(overlay(*k), Content { properties: map(p), attributes: map(a) }),
    };
    Command { kind: [CommandType::Add, CommandType::Remove, CommandType::Modify, CommandType::From][c.kind as usize].clone(), object_kind }
}
fn round(c: &Command) -> Res {
    let s = guard("serializing", || serde_json::to_string(c))?.map_err(|e| Fail(format!("cannot be serialized: {e}")))?;
    let s2 = guard("serializing", || serde_json::to_string(&c.clone()))?.unwrap();
    ensure_eq!(s2, s, "two serializations of one instruction differ");
    let back: Command = match guard("deserializing", || serde_json::from_str(&s))? { Ok(b) => b, Err(e) => return fail(format!("serialized instruction cannot be read back: {e}\n{s}")) };
    ensure_eq!(back, *c, "instruction changed by serialization {s}");
    ensure_eq!(format!("{back:?}"), format!("{c:?}"), "instruction changed by serialization {s}");
    let bytes = serde_json::to_vec(&back).unwrap();
    ensure_eq!(String::from_utf8(bytes).unwrap(), s, "serialized text changed by a round trip");
    let back: Command = serde_json::from_slice(s.as_bytes()).map_err(|e| Fail(e.to_string()))?;
    ensure_eq!(back, *c, "instruction changed by serialization {s}");
    Ok(())
}
fn check05a(c: &super::p_parse::ProgCase, o: &mut Obs) -> Res {
    let text = render_meta(&c.prog, &c.meta, &c.lay).text;
    o.sample = Some(text.clone());
    o.nontrivial = super::p_parse::nontrivial(&c.prog);
    let ast = util::parse_ok(&text)?;
    for cm in &ast.commands { round(cm)? }
    let s = serde_json::to_string(&ast).map_err(|e| Fail(e.to_string()))?;
    let back: OCAAst = match guard("deserializing", || serde_json::from_str(&s))? { Ok(b) => b, Err(e) => return fail(format!("a serialized instruction list cannot be read back: {e}\n{s}")) };
    ensure_eq!(back, ast, "instruction list changed by serialization");
    ensure_eq!(format!("{:?}", back.commands), format!("{:?}", ast.commands), "instruction list changed by serialization");
    Ok(())
}
/// Types and framing values nested so deeply that they are at the limit of what is read back.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DeepCase { array: u8, object: u8, named: bool }
fn check05c(c: &DeepCase, o: &mut Obs) -> Res {
    let inner = if c.named { "refn:Other" } else { "Numeric" };
    let text = format!("ADD ATTRIBUTE a={}{inner}{}\nADD ATTR_FRAMING id=x ATTRS a={}\"v\"{}\n", "Array[".repeat(c.array as usize), "]".repeat(c.array as usize), "{\"p\": {\"q\": \"r\"}, \"k\": ".repeat(c.object as usize), "}".repeat(c.object as usize));
    o.nontrivial = c.array > 20 || c.object > 20;
    let ast = match util::parse(&text)? { Ok(a) => a, Err(e) => { ensure!(!e.is_empty(), "refused without a word"); o.class("refused"); o.nontrivial = false; return Ok(()) } };
    o.class("parsed");
    ensure_eq!(ast.commands.len(), 2, "number of instructions");
    for cm in &ast.commands { round(cm)? }
    let s = serde_json::to_string(&ast).map_err(|e| Fail(e.to_string()))?;
    match guard("deserializing", || serde_json::from_str::<OCAAst>(&s))? { Ok(back) => ensure_eq!(back, ast, "instruction list changed by serialization"), Err(e) => return fail(format!("a serialized instruction list cannot be read back: {e}\n{text}")) }
    Ok(())
}
fn check05b(c: &CmdCase, o: &mut Obs) -> Res {
    let cm = cmd(c);
    let sz = serde_json::to_string(c).unwrap();
    o.class(match &c.obj { Obj::Cb(..) => "capture_base".to_string(), Obj::Bundle(_) => "bundle".into(), Obj::Ov(k, ..) => format!("overlay{k:02}") });
    o.nontrivial = sz.len() > 50;
    round(&cm)
}
pub fn p05(ctx: &Ctx) {
    let dummy = |k: u8| match k { 0 => ObjectKind::CaptureBase(CaptureContent { attributes: None, properties: None, flagged_attributes: None }), 1 => ObjectKind::OCABundle(BundleContent { said: ReferenceAttrType::Reference(RefValue::Name("".into())) }), k => ObjectKind::Overlay(overlay(k), Content { attributes: None, properties: None }) };
    ctx.probe("codes", "object kind codes 0..=22", || {
        for k in 0..23u8 {
            let code: u8 = dummy(k).into();
            let again: ObjectKind = code.into();
            ensure_eq!(again, dummy(k), "kind read back from code {code}");
            for j in 0..k { let c: u8 = dummy(j).into(); ensure!(c != code, "kinds {j} and {k} share code {code}"); }
        }
        Ok(())
    });
    ctx.probe("transformation codes", "object kind codes 0..=1 and kind names", || {
        for (code, name, want) in [(0u8, "Rename", tr::ObjectKind::Rename(tr::RenameContent { attributes: None })), (1, "Link", tr::ObjectKind::Link(tr::LinkContent { attributes: None }))] {
            ensure_eq!(u8::from(want.clone()), code, "code of {name}");
            ensure_eq!(tr::ObjectKind::from(code), want, "kind read back from code {code}");
            let o: tr::ObjectKind = serde_json::from_value(serde_json::json!(name)).map_err(|e| Fail(format!("{name}: {e}")))?;
            ensure_eq!(o, want, "object kind read from its name");
        }
        Ok(())
    });
    ctx.probe("names", "object kind and overlay kind names", || {
        for k in 2..23u8 {
            let t = overlay(k);
            ensure_eq!(OverlayType::from_str(&t.to_string()), Ok(t.clone()), "overlay kind read back from its name");
            for v in ["1.1", "1.0", "2.37"] {
                let s = serde_json::to_string(&t).unwrap().replace("1.1", v);
                let back: OverlayType = serde_json::from_str(&s).map_err(|e| Fail(format!("{s}: {e}")))?;
                ensure_eq!(serde_json::to_string(&back).unwrap(), s, "overlay type changed by serialization");
                ensure_eq!(u8::from(ObjectKind::Overlay(back, Content { attributes: None, properties: None })), u8::from(dummy(k)), "overlay type {s} read as another kind");
            }
            let o: ObjectKind = serde_json::from_value(serde_json::json!(t.to_string())).map_err(|e| Fail(format!("{t}: {e}")))?;
            ensure_eq!(o, dummy(k), "object kind read from its name");
        }
        Ok(())
    });
    ctx.probe("K05A", "ADD LABEL en ATTRS a=\"refn:x\"", || round(&cmd(&CmdCase { kind: 0, obj: Obj::Ov(2, None, Some(vec![("a".into(), Val::V("refn:x".into()))])) })));
    ctx.campaign("programs", 60_000, 3_000_000, || super::p_parse::prog_case(FULL), check05a);
    ctx.campaign("sizes", 4_000, 200_000, super::p_parse::big_case, check05a);
    ctx.campaign("commands", 150_000, 8_000_000, cmd_case, check05b);
    ctx.campaign("deep", 2_000, 100_000, || (0u8..160, 1u8..90, any::<bool>()).prop_map(|(array, object, named)| DeepCase { array, object, named }), check05c);
}

// ---------------------------------------------------------------- P35

use oca_ast_transformation::ast as tr;
#[derive(Clone, Debug, Serialize, Deserialize)]
struct KeyCase { cmd: CmdCase, turn: Vec<u8>, edit: (u8, u8, String) }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct TrKeyCase { link: bool, pairs: Option<Vec<(String, String)>>, turn: Vec<u8>, edit: (u8, u8, String) }
struct Turns<'a>(&'a [u8], usize);
impl Turns<'_> {
    fn turn<T>(&mut self, mut v: Vec<T>) -> Vec<T> {
        if v.is_empty() { return v }
        let b = self.0.get(self.1 % self.0.len().max(1)).copied().unwrap_or(0) as usize; self.1 += 1;
        if b % 3 == 0 { v.reverse() }
        let n = b / 3 % v.len(); v.rotate_left(n); v
    }
    fn val(&mut self, v: &Val) -> Val {
        match v {
            Val::O(o) => { let o = o.iter().map(|(k, v)| (k.clone(), self.val(v))).collect(); Val::O(self.turn(o)) }
            Val::A(a) => Val::A(a.iter().map(|v| self.val(v)).collect()),
            v => v.clone(),
        }
    }
    fn kvs(&mut self, v: &Option<Vec<(String, Val)>>) -> Option<Vec<(String, Val)>> { v.as_ref().map(|v| { let v = v.iter().map(|(k, v)| (k.clone(), self.val(v))).collect(); self.turn(v) }) }
    fn obj(&mut self, o: &Obj) -> Obj {
        match o {
            Obj::Cb(a, p, f) => Obj::Cb(a.as_ref().map(|a| self.turn(a.clone())), self.kvs(p), f.clone()),
            Obj::Bundle(t) => Obj::Bundle(t.clone()),
            Obj::Ov(k, p, a) => Obj::Ov(*k, self.kvs(p), self.kvs(a)),
        }
    }
}
/// Another value than `v`: one place of it is changed.
fn other_val(v: &Val, n: u8, s: &str) -> Val {
    match v {
        Val::V(x) => Val::V(format!("{x}{s}z")),
        Val::S(_) => Val::N(s.into()),
        Val::N(x) => Val::N(format!("{x}{s}z")),
        Val::O(o) if !o.is_empty() && n % 3 > 0 => { let mut o = o.clone(); let i = n as usize / 3 % o.len(); if n % 3 == 1 { o[i].1 = other_val(&o[i].1, n / 3, s) } else { o.remove(i); } Val::O(o) }
        Val::O(o) => { let mut o = o.clone(); o.push((fresh(&o, s), Val::V("y".into()))); Val::O(o) }
        Val::A(a) if !a.is_empty() && n % 3 > 0 => { let mut a = a.clone(); let i = n as usize / 3 % a.len(); if n % 3 == 1 { a[i] = other_val(&a[i], n / 3, s) } else { a.remove(i); } Val::A(a) }
        Val::A(a) => { let mut a = a.clone(); a.push(Val::V(s.into())); Val::A(a) }
    }
}
fn fresh<T>(o: &[(String, T)], s: &str) -> String { let mut k = s.to_string(); while o.iter().any(|x| x.0 == k) { k.push('z') } k }
fn other_kvs(v: &Option<Vec<(String, Val)>>, n: u8, s: &str) -> Option<Vec<(String, Val)>> {
    match v { None => Some(vec![]), Some(v) if v.is_empty() && n % 2 == 0 => None, Some(v) => match other_val(&Val::O(v.clone()), n, s) { Val::O(o) => Some(o), _ => unreachable!() } }
}
fn other_obj(o: &Obj, (k, n, s): &(u8, u8, String)) -> Obj {
    match o {
        Obj::Cb(a, p, f) => match k % 4 {
            0 => Obj::Cb(a.clone(), other_kvs(p, *n, s), f.clone()),
            1 => { let mut f = f.clone(); match &mut f { Some(f) => f.push(s.clone()), None => f = Some(vec![]) } Obj::Cb(a.clone(), p.clone(), f) }
            2 => match a { Some(a) => { let mut a = a.clone(); a.push((fresh(&a, s), Some(Ty::Text))); Obj::Cb(Some(a), p.clone(), f.clone()) } None => Obj::Cb(Some(vec![]), p.clone(), f.clone()) },
            _ => match a { Some(a) if !a.is_empty() => { let mut a = a.clone(); let i = *n as usize % a.len(); a[i].1 = Some(Ty::Arr(Box::new(a[i].1.clone().unwrap_or(Ty::Text)))); Obj::Cb(Some(a), p.clone(), f.clone()) } Some(_) => Obj::Cb(None, p.clone(), f.clone()), None => Obj::Cb(Some(vec![]), p.clone(), f.clone()) },
        },
        Obj::Bundle(Ty::Name(x)) => Obj::Bundle(Ty::Name(format!("{x}{s}z"))),
        Obj::Bundle(_) => Obj::Bundle(Ty::Name(s.clone())),
        Obj::Ov(t, p, a) => match k % 4 { 0 => Obj::Ov(*t, other_kvs(p, *n, s), a.clone()), 1 => Obj::Ov(2 + (*t - 2 + 1 + n % 20) % 21, p.clone(), a.clone()), _ => Obj::Ov(*t, p.clone(), other_kvs(a, *n, s)) },
    }
}
fn hashes<T: std::hash::Hash>(x: &T) -> (u64, u64) {
    use std::hash::Hasher;
    /// A hasher that depends on every byte and its position.
    struct Fnv(u64);
    impl Hasher for Fnv { fn finish(&self) -> u64 { self.0 } fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3) } } }
    let (mut a, mut b) = (std::collections::hash_map::DefaultHasher::new(), Fnv(0xcbf29ce484222325));
    x.hash(&mut a); x.hash(&mut b);
    (a.finish(), b.finish())
}
fn as_keys<T: std::hash::Hash + Eq + Clone + std::fmt::Debug>(a: &T, same: &T, other: &T) -> Res {
    ensure!(a == a && a == &a.clone() && a == same && same == a, "equal instructions are told apart: {a:?}\n{same:?}");
    ensure!(a != other && other != a && same != other, "different instructions are taken for equal: {a:?}\n{other:?}");
    ensure_eq!(hashes(same), hashes(a), "hashes of equal instructions {a:?}\n{same:?}");
    ensure_eq!(hashes(&a.clone()), hashes(a), "hashes of an instruction and its copy {a:?}");
    let set: std::collections::HashSet<T> = [a.clone(), same.clone(), other.clone(), a.clone()].into_iter().collect();
    ensure_eq!(set.len(), 2, "a set of two different instructions {set:?}");
    let map: std::collections::HashMap<T, u8> = [(a.clone(), 1), (other.clone(), 2)].into_iter().collect();
    ensure_eq!((map.get(same), map.get(other)), (Some(&1), Some(&2)), "what a map keeps for {same:?}");
    Ok(())
}
fn check35(c: &KeyCase, o: &mut Obs) -> Res {
    let turned = CmdCase { kind: c.cmd.kind, obj: Turns(&c.turn, 0).obj(&c.cmd.obj) };
    let other = CmdCase { kind: c.cmd.kind, obj: other_obj(&c.cmd.obj, &c.edit) };
    o.nontrivial = serde_json::to_string(&turned).unwrap() != serde_json::to_string(&c.cmd).unwrap();
    o.class(match &c.cmd.obj { Obj::Cb(..) => "capture_base".to_string(), Obj::Bundle(_) => "bundle".into(), Obj::Ov(k, ..) => format!("overlay{k:02}") });
    let (a, b, x) = (cmd(&c.cmd), cmd(&turned), cmd(&other));
    guard("comparing", || as_keys(&a.object_kind, &b.object_kind, &x.object_kind))??;
    // the whole instruction, which is more than its object
    let mut k = a.clone(); k.kind = cmd(&CmdCase { kind: (c.cmd.kind + 1 + c.edit.1 % 3) % 4, obj: Obj::Bundle(Ty::Name(String::new())) }).kind;
    ensure!(a == b && a != x && a != k, "instructions compared: {a:?}\n{b:?}\n{x:?}\n{k:?}");
    Ok(())
}
fn check35_tr(c: &TrKeyCase, o: &mut Obs) -> Res {
    let make = |link: bool, p: &Option<Vec<(String, String)>>| { let attributes = p.as_ref().map(|p| p.iter().cloned().collect()); if link { tr::ObjectKind::Link(tr::LinkContent { attributes }) } else { tr::ObjectKind::Rename(tr::RenameContent { attributes }) } };
    let turned = c.pairs.clone().map(|p| Turns(&c.turn, 0).turn(p));
    o.nontrivial = turned != c.pairs;
    o.class(if c.link { "link" } else { "rename" });
    let mut p = c.pairs.clone();
    let other = match (c.edit.0 % 4, &mut p) {
        (0, _) => make(!c.link, &p),
        (1, Some(v)) if !v.is_empty() => { let i = c.edit.1 as usize % v.len(); v[i].1.push_str(&c.edit.2); v[i].1.push('z'); make(c.link, &p) }
        (2, Some(v)) if !v.is_empty() => { let i = c.edit.1 as usize % v.len(); v.remove(i); make(c.link, &p) }
        (_, Some(v)) => { let k = fresh(v, &c.edit.2); v.push((k, "y".into())); make(c.link, &p) }
        (_, None) => make(c.link, &Some(vec![])),
    };
    guard("comparing", || as_keys(&make(c.link, &c.pairs), &make(c.link, &turned), &other))?
}
fn check35_prog(c: &(super::p_parse::ProgCase, Lay), o: &mut Obs) -> Res {
    let (a, b) = (util::parse_ok(&render_meta(&c.0.prog, &c.0.meta, &c.0.lay).text)?, util::parse_ok(&render_meta(&c.0.prog, &[], &c.1).text)?);
    o.nontrivial = super::p_parse::nontrivial(&c.0.prog);
    ensure_eq!(a.commands, b.commands, "instructions of two layouts of a file");
    for (x, y) in a.commands.iter().zip(&b.commands) { ensure_eq!(hashes(&x.object_kind), hashes(&y.object_kind), "hashes of equal instructions {x:?}") }
    // a set holds as many instructions as are pairwise different
    let set: std::collections::HashSet<&ObjectKind> = a.commands.iter().chain(&b.commands).map(|c| &c.object_kind).collect();
    let mut kinds: Vec<&ObjectKind> = vec![];
    for c in &a.commands { if !kinds.contains(&&c.object_kind) { kinds.push(&c.object_kind) } }
    ensure_eq!(set.len(), kinds.len(), "a set of the instructions");
    o.class_if(kinds.len() < a.commands.len(), "repeated");
    Ok(())
}
pub fn p35(ctx: &Ctx) {
    let edit = || (any::<u8>(), any::<u8>(), string());
    ctx.campaign("instructions", 150_000, 8_000_000, || (cmd_case(), vec(any::<u8>(), 1..8), edit()).prop_map(|(cmd, turn, edit)| KeyCase { cmd, turn, edit }).boxed(), check35);
    ctx.campaign("transformations", 60_000, 2_000_000, || (any::<bool>(), proptest::option::weighted(0.9, vec((string(), string()), 0..6).prop_map(uniq)), vec(any::<u8>(), 1..3), edit()).prop_map(|(link, pairs, turn, edit)| TrKeyCase { link, pairs, turn, edit }).boxed(), check35_tr);
    ctx.campaign("programs", 20_000, 1_000_000, || (super::p_parse::prog_case(FULL), lay()).boxed(), check35_prog);
    ctx.campaign("sizes", 10_000, 400_000, || (big(2000), lay(), lay()).prop_map(|(b, lay, other)| (super::p_parse::ProgCase { prog: b.program(), meta: vec![], lay }, other)).boxed(), check35_prog);
}
