//! P10 bundle validator, P11 translations, P12 conditions, P26 error positions, P30 any instructions.
use super::p_build::{ast_of, overlays, value};
use crate::engine::*;
use crate::gen::*;
use crate::model::{self, State};
use crate::{ensure, ensure_eq, util};
use isolang::Language;
use oca_bundle_semantics::state::attribute::Attribute;
use oca_bundle_semantics::state::oca::overlay::conditional::{Conditionals, Error as CondError};
use oca_bundle_semantics::state::oca::{OCABox, OCABundle};
use oca_bundle_semantics::state::validator::{validate, Error as ValError, SemanticValidationStatus, Validator};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub const RULE10: &str = "cases are built bundles (with well-typed conditions) and one tampering: (a) a random edit of the JSON (string altered, value swapped with another of the document, entry added to a content map, key removed or renamed, element removed or duplicated), (b) an edit whose outer identifiers are recomputed so that only one check can notice it. Oracle: the untouched bundle validates without errors, the tampered one does not load or has errors; (c) conditions of which some are broken or mention unknown attributes, against a model of which are at fault. Non-trivial: at least 2 overlays.";
pub const RULE11: &str = "cases are bundles with arbitrary subsets of translations of metadata, labels, information and entries in up to 4 languages, and a set of enforced languages; oracle: a model of what is missing or not enforced, compared as multisets. Non-trivial: at least 2 kinds of translated overlays and 2 enforced languages.";
pub const RULE12: &str = "cases are (a) typed expressions (arithmetic, comparison, logic, strings; up to 14 attributes, repeated mentions) with values, some missing, checked against an independent evaluator, (b) arbitrary texts with mentions in all positions, compared with a model of the stored condition, (c) arbitrary, broken, deeply nested or endless conditions with any values: a truth value or an error that names the attribute, never an abort, and the same after storing and loading. Non-trivial: at least 2 mentions.";
pub const RULE26: &str = "cases are generated programs in a generated layout with one to four failing instructions (undeclared attribute, unknown language, unknown encoding) inserted anywhere; oracle: every reported error carries the line and text of that instruction. Non-trivial: the failing instruction is not the first and the layout has comments, blank lines or continuations before it.";
pub const RULE30: &str = "cases are (a) instruction lists with undeclared attributes, unknown languages, unknown encodings, removals, FROM anywhere, in generated layout, with a model that says which must be reported, (b) mutated and random texts that happen to parse. Oracle: no abort; failure comes with errors, and only with a reason. Non-trivial: at least 2 instructions.";

fn errors(b: &OCABundle) -> Result<Vec<String>, Fail> {
    let a = match guard("validating a bundle", || validate(b))? { Ok(SemanticValidationStatus::Valid) => vec![], Ok(SemanticValidationStatus::Invalid(e)) => { ensure!(!e.is_empty(), "invalid without errors"); e.iter().map(|x| x.to_string()).collect() } Err(e) => return fail(format!("no verdict: {e}")) };
    let v = match guard("validating a bundle", || Validator::new().validate(b))? { Ok(()) => vec![], Err(e) => { ensure!(!e.is_empty(), "invalid without errors"); e.iter().map(|x: &ValError| x.to_string()).collect::<Vec<_>>() } };
    ensure_eq!(a.is_empty(), v.is_empty(), "the two ways of validating disagree");
    Ok(a)
}

// ---------------------------------------------------------------- expressions

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum N { Lit(i32), Ref(u8), Op(u8, Box<N>, Box<N>) }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum B { Lit(bool), Ref(u8), Cmp(u8, N, N), Str(bool, u8, String), Not(Box<B>), And(Box<B>, Box<B>), Or(Box<B>, Box<B>) }
fn num() -> BoxedStrategy<N> {
    prop_oneof![3 => (-9i32..40).prop_map(N::Lit), 5 => any::<u8>().prop_map(N::Ref)].prop_recursive(2, 6, 2, |n| (0u8..3, n.clone(), n).prop_map(|(o, a, b)| N::Op(o, Box::new(a), Box::new(b)))).boxed()
}
fn boolean() -> BoxedStrategy<B> {
    prop_oneof![1 => any::<bool>().prop_map(B::Lit), 2 => any::<u8>().prop_map(B::Ref), 6 => (0u8..6, num(), num()).prop_map(|(o, a, b)| B::Cmp(o, a, b)), 2 => (any::<bool>(), any::<u8>(), "[a-c]{0,2}").prop_map(|(e, r, s)| B::Str(e, r, s))]
        .prop_recursive(3, 12, 2, |b| prop_oneof![b.clone().prop_map(|b| B::Not(Box::new(b))), (b.clone(), b.clone()).prop_map(|(a, b)| B::And(Box::new(a), Box::new(b))), (b.clone(), b).prop_map(|(a, b)| B::Or(Box::new(a), Box::new(b)))]).boxed()
}
/// Attributes by type, for a reference of each sort to pick from.
#[derive(Clone, Debug, Default)]
pub struct Names { num: Vec<String>, boolean: Vec<String>, text: Vec<String> }
fn pick<'a>(v: &'a [String], i: u8) -> Option<&'a String> { if v.is_empty() { None } else { v.get(i as usize % v.len()) } }
fn n_text(n: &N, x: &Names) -> String {
    match n { N::Lit(i) => i.to_string(), N::Ref(r) => pick(&x.num, *r).map_or("7".into(), |a| format!("${{{a}}}")), N::Op(o, a, b) => format!("({} {} {})", n_text(a, x), ["+", "-", "*"][*o as usize], n_text(b, x)) }
}
/// `quote`: text values are substituted bare, so the expression supplies the quotes.
fn b_text(b: &B, x: &Names, quote: bool) -> String {
    match b {
        B::Lit(b) => b.to_string(),
        B::Ref(r) => pick(&x.boolean, *r).map_or("true".into(), |a| format!("${{{a}}}")),
        B::Cmp(o, a, b) => format!("{} {} {}", n_text(a, x), ["<", "<=", ">", ">=", "==", "~="][*o as usize], n_text(b, x)),
        B::Str(e, r, s) => { let m = pick(&x.text, *r).map_or(if quote { "ab".to_string() } else { "'ab'".into() }, |a| format!("${{{a}}}")); let q = if quote { "'" } else { "" }; format!("{q}{m}{q} {} '{s}'", if *e { "==" } else { "~=" }) }
        B::Not(b) => format!("not ({})", b_text(b, x, quote)),
        B::And(a, b) => format!("({}) and ({})", b_text(a, x, quote), b_text(b, x, quote)),
        B::Or(a, b) => format!("({}) or ({})", b_text(a, x, quote), b_text(b, x, quote)),
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum V { I(i32), T(bool), S(String) }
type Env = BTreeMap<String, V>;
fn n_eval(n: &N, x: &Names, e: &Env) -> i64 {
    match n { N::Lit(i) => *i as i64, N::Ref(r) => match pick(&x.num, *r).map(|a| &e[a]) { Some(V::I(i)) => *i as i64, None => 7, _ => unreachable!() }, N::Op(o, a, b) => { let (a, b) = (n_eval(a, x, e), n_eval(b, x, e)); match o { 0 => a.wrapping_add(b), 1 => a.wrapping_sub(b), _ => a.wrapping_mul(b) } } }
}
fn b_eval(b: &B, x: &Names, e: &Env) -> bool {
    match b {
        B::Lit(b) => *b,
        B::Ref(r) => match pick(&x.boolean, *r).map(|a| &e[a]) { Some(V::T(t)) => *t, None => true, _ => unreachable!() },
        B::Cmp(o, p, q) => { let (p, q) = (n_eval(p, x, e), n_eval(q, x, e)); match o { 0 => p < q, 1 => p <= q, 2 => p > q, 3 => p >= q, 4 => p == q, _ => p != q } }
        B::Str(eq, r, s) => { let v = match pick(&x.text, *r).map(|a| &e[a]) { Some(V::S(v)) => v.clone(), None => "ab".into(), _ => unreachable!() }; (v == *s) == *eq }
        B::Not(b) => !b_eval(b, x, e),
        B::And(p, q) => b_eval(p, x, e) && b_eval(q, x, e),
        B::Or(p, q) => b_eval(p, x, e) || b_eval(q, x, e),
    }
}

// ---------------------------------------------------------------- P10

const NOCOND: Cfg = Cfg { conds: false, ..FULL };
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Tamper {
    /// alter the n-th string leaf
    Leaf(u16, u8, char), Swap(u16, u16), Remove(u16), Rename(u16), AddEntry(u16, String), DropItem(u16), DupItem(u16),
    /// replace the n-th identifier
    Id(u16, String),
    /// edits that keep everything consistent except one thing
    ForgeBase(u16, u8, char), ForgeOverlay(u16, u16, u8, char), ForgeLink(u16, String), ForgeBaseId(String), ForgeOverlayId(u16, String),
    /// overlay of no capture base, object without identifier
    ForgeUnlink(u16), Null(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TamperCase { pub prog: Vec<Ins>, pub conds: Vec<(u16, B)>, pub tamper: Tamper, /** which attributes the conditions also use as their types allow */ #[serde(default)] pub uses: Vec<u16> }
fn tampering() -> BoxedStrategy<Tamper> {
    let ch = prop_oneof![Just('A'), Just('z'), Just('é'), Just(' '), Just('0')].boxed();
    let id = proptest::sample::select(said_pool().clone());
    let s = any::<u16>();
    prop_oneof![
        5 => (s, any::<u8>(), ch.clone()).prop_map(|(n, k, c)| Tamper::Leaf(n, k, c)), 2 => (s, s).prop_map(|(a, b)| Tamper::Swap(a, b)), 2 => s.prop_map(Tamper::Remove), 2 => s.prop_map(Tamper::Rename),
        2 => (s, text(FULL)).prop_map(|(n, t)| Tamper::AddEntry(n, t)), 1 => s.prop_map(Tamper::DropItem), 1 => s.prop_map(Tamper::DupItem), 2 => (s, id.clone()).prop_map(|(n, i)| Tamper::Id(n, i)),
        3 => (s, any::<u8>(), ch.clone()).prop_map(|(n, k, c)| Tamper::ForgeBase(n, k, c)), 4 => (s, s, any::<u8>(), ch).prop_map(|(o, n, k, c)| Tamper::ForgeOverlay(o, n, k, c)), 2 => (s, id.clone()).prop_map(|(o, i)| Tamper::ForgeLink(o, i)),
        2 => id.clone().prop_map(Tamper::ForgeBaseId), 2 => (s, id).prop_map(|(o, i)| Tamper::ForgeOverlayId(o, i)),
        2 => s.prop_map(Tamper::ForgeUnlink), 2 => s.prop_map(Tamper::Null),
    ].boxed()
}
fn tamper_case() -> BoxedStrategy<TamperCase> {
    (program(NOCOND), vec((any::<u16>(), boolean()), 0..3), tampering(), vec(any::<u16>(), 0..4)).prop_map(|(prog, conds, tamper, uses)| TamperCase { prog, conds, tamper, uses }).boxed()
}
/// An expression that only works on a value of the type.
fn use_of(e: &str, t: &Ty, n: u16) -> Option<String> {
    Some(match t {
        Ty::Arr(_) if n % 4 == 0 => format!("#({e}) > 0"),
        Ty::Arr(t) => return use_of(&format!("({e})[1]"), t, n),
        Ty::Text | Ty::DateTime | Ty::Ref(_) => format!("{e} .. 'x' ~= ''"),
        Ty::Numeric => format!("{e} + 1 > {e}"),
        Ty::Boolean => format!("({e} == true or {e} == false)"),
        _ => return None,
    })
}
/// The program with conditions over existing attributes of fitting types.
fn with_conditions(prog: &[Ins], conds: &[(u16, B)], uses: &[u16]) -> Vec<Ins> {
    let mut p = prog.to_vec();
    let s = State::of(prog);
    let all: Vec<&String> = s.attrs.keys().collect();
    for (at, b) in conds {
        if all.is_empty() { break }
        let a = all[*at as usize % all.len()];
        let of = |t: &Ty| s.attrs.iter().filter(|(k, x)| *x == t && *k != a).map(|(k, _)| k.clone()).collect::<Vec<_>>();
        let names = Names { num: of(&Ty::Numeric), boolean: of(&Ty::Boolean), text: of(&Ty::Text) };
        let mut e = b_text(b, &names, false);
        for n in uses {
            let k = all[*n as usize % all.len()];
            if k == a { continue }
            if let Some(u) = use_of(&format!("${{{k}}}"), &s.attrs[k], n >> 8) { e = format!("{u} and ({e})") }
        }
        p.push(Ins::Str(SO::Cond, vec![(a.clone(), e)]));
    }
    p
}
type Path = Vec<String>;
/// Paths of all values; array elements by number.
fn paths(v: &Value, at: Path, out: &mut Vec<Path>) {
    out.push(at.clone());
    match v {
        Value::Object(m) => for (k, x) in m { let mut p = at.clone(); p.push(k.clone()); paths(x, p, out) },
        Value::Array(a) => for (i, x) in a.iter().enumerate() { let mut p = at.clone(); p.push(i.to_string()); paths(x, p, out) },
        _ => {}
    }
}
fn at<'a>(v: &'a mut Value, p: &[String]) -> &'a mut Value { p.iter().fold(v, |v, k| match v { Value::Array(a) => &mut a[k.parse::<usize>().unwrap()], v => &mut v[k.as_str()] }) }
fn get<'a>(v: &'a Value, p: &[String]) -> &'a Value { p.iter().fold(v, |v, k| match v { Value::Array(a) => &a[k.parse::<usize>().unwrap()], v => &v[k.as_str()] }) }
fn alter(s: &str, k: u8, c: char) -> String {
    let mut x: Vec<char> = s.chars().collect();
    match k % 4 {
        0 => x.push(c),
        1 => x.insert(0, c),
        2 if !x.is_empty() => { let i = k as usize / 4 % x.len(); x[i] = if x[i] == c { 'w' } else { c } }
        _ => { if x.is_empty() { x.push(c) } else { let i = k as usize / 4 % x.len(); x.remove(i); } }
    }
    x.into_iter().collect()
}
/// Content: not the version string of the document, nor the names under which overlays are listed.
fn counts(p: &Path) -> bool { !(p.is_empty() || p[0] == "v") }
fn content_map(p: &Path, v: &Value) -> bool {
    // maps keyed by attribute, term, code, frame or language property
    // (but not an overlay as a whole: members it does not know are not read)
    if p.first().is_some_and(|k| k == "overlays") && (p.len() < 3 || p.len() == 3 && p[2].parse::<usize>().is_ok()) { return false }
    // (nor a single framing)
    if p.iter().enumerate().any(|(j, k)| j >= 2 && k == "attribute_framing" && p.len() == j + 3) { return false }
    v.is_object() && (p.last().is_some_and(|k| k.starts_with("attribute") || k == "framing_metadata") || p.iter().any(|k| k.starts_with("attribute_e") || k == "attribute_framing")) && !p.iter().any(|k| k == "attribute_dependencies")
}
enum Tampered { Doc(Value, String), Bundle(Box<OCABundle>, String), Nothing }
fn apply(t: &Tamper, doc: &Value) -> Result<Tampered, Fail> {
    let mut d = doc.clone();
    let mut all = vec![];
    paths(doc, vec![], &mut all);
    all.retain(counts);
    let nth = |v: &[Path], n: u16| -> Option<Path> { if v.is_empty() { None } else { v.get(n as usize % v.len()).cloned() } };
    let leaves: Vec<Path> = all.iter().filter(|p| get(doc, p).is_string()).cloned().collect();
    let said_like = |p: &Path| p.last().is_some_and(|k| k == "d" || k == "capture_base") && get(doc, p).is_string() && (p.len() <= 2 || p[0] == "overlays" && p.len() <= 4);
    let says = |p: &Path| format!("/{}", p.join("/"));
    Ok(match t {
        Tamper::Leaf(n, k, c) => { let Some(p) = nth(&leaves, *n) else { return Ok(Tampered::Nothing) }; let s = at(&mut d, &p); *s = json!(alter(s.as_str().unwrap(), *k, *c)); let m = format!("{} altered to {s}", says(&p)); Tampered::Doc(d, m) }
        Tamper::Swap(a, b) => { let (Some(p), Some(q)) = (nth(&leaves, *a), nth(&leaves, *b)) else { return Ok(Tampered::Nothing) };
            // the flags are a set
            if [&p, &q].iter().all(|p| p.iter().any(|k| k == "flagged_attributes")) { return Ok(Tampered::Nothing) }
            let (x, y) = (get(doc, &p).clone(), get(doc, &q).clone()); *at(&mut d, &p) = y; *at(&mut d, &q) = x; Tampered::Doc(d, format!("{} swapped with {}", says(&p), says(&q))) }
        Tamper::Remove(n) | Tamper::Rename(n) => {
            let rename = matches!(t, Tamper::Rename(_));
            // keys of objects, but not the names under which overlays are listed (renaming those changes nothing that is read)
            let keys: Vec<Path> = all.iter().filter(|p| get(doc, &p[..p.len() - 1]).is_object() && !(rename && p.len() == 2 && p[0] == "overlays")).cloned().collect();
            let Some(p) = nth(&keys, *n) else { return Ok(Tampered::Nothing) };
            let (k, parent) = p.split_last().unwrap();
            let m = at(&mut d, parent).as_object_mut().unwrap();
            let x = m.remove(k).unwrap();
            if rename { m.insert(format!("{k}x"), x); }
            Tampered::Doc(d, format!("{} {}", says(&p), if rename { "renamed" } else { "removed" }))
        }
        Tamper::AddEntry(n, s) => {
            let maps: Vec<Path> = all.iter().filter(|p| content_map(p, get(doc, p))).cloned().collect();
            let Some(p) = nth(&maps, *n) else { return Ok(Tampered::Nothing) };
            let m = at(&mut d, &p).as_object_mut().unwrap();
            let v = m.values().next().cloned().unwrap_or(json!(s));
            if m.contains_key(s) { return Ok(Tampered::Nothing) }
            m.insert(s.clone(), v);
            Tampered::Doc(d, format!("{s:?} added to {}", says(&p)))
        }
        Tamper::DropItem(n) | Tamper::DupItem(n) => {
            let items: Vec<Path> = all.iter().filter(|p| get(doc, &p[..p.len() - 1]).is_array()).cloned().collect();
            let Some(p) = nth(&items, *n) else { return Ok(Tampered::Nothing) };
            let (k, parent) = p.split_last().unwrap();
            let a = at(&mut d, parent).as_array_mut().unwrap();
            let i: usize = k.parse().unwrap();
            if matches!(t, Tamper::DropItem(_)) { a.remove(i); } else { let x = a[i].clone(); a.insert(i, x); }
            Tampered::Doc(d, format!("{} {}", says(&p), if matches!(t, Tamper::DropItem(_)) { "dropped" } else { "duplicated" }))
        }
        Tamper::Id(n, id) => {
            let ids: Vec<Path> = all.iter().filter(|p| said_like(p)).cloned().collect();
            let Some(p) = nth(&ids, *n) else { return Ok(Tampered::Nothing) };
            *at(&mut d, &p) = json!(id);
            Tampered::Doc(d, format!("{} replaced by {id}", says(&p)))
        }
        Tamper::ForgeBase(n, k, c) => {
            let l: Vec<Path> = leaves.iter().filter(|p| p[0] == "capture_base" && p[1] != "d" && p[1] != "type").cloned().collect();
            let Some(p) = nth(&l, *n) else { return Ok(Tampered::Nothing) };
            let s = at(&mut d, &p);
            *s = match s.as_str().unwrap() { "Text" => json!("Numeric"), x if p[1] == "attributes" && !x.is_empty() => json!("Text"), x => json!(alter(x, *k, *c)) };
            let m = format!("{} changed to {s}, bundle identifier recomputed", says(&p));
            forged(&d, m, |b| b.fill_said())?
        }
        Tamper::ForgeOverlay(o, n, k, c) => {
            let ovs: BTreeSet<Path> = leaves.iter().filter(|p| p[0] == "overlays").map(|p| p[..p.len().min(if get(doc, &p[..2]).is_array() { 3 } else { 2 })].to_vec()).collect();
            let ovs: Vec<Path> = ovs.into_iter().collect();
            let Some(ov) = nth(&ovs, *o) else { return Ok(Tampered::Nothing) };
            let l: Vec<Path> = leaves.iter().filter(|p| p.starts_with(&ov) && !["d", "capture_base", "type"].contains(&p[ov.len()].as_str())).cloned().collect();
            let Some(p) = nth(&l, *n) else { return Ok(Tampered::Nothing) };
            let s = at(&mut d, &p);
            *s = if p.last().unwrap() == "language" { json!(if s == "fra" { "eng" } else { "fra" }) } else if p.iter().any(|k| k == "attribute_character_encoding") { json!(if s == "utf-8" { "utf-16" } else { "utf-8" }) } else { json!(alter(s.as_str().unwrap(), *k, *c)) };
            let m = format!("{} changed to {s}, bundle identifier recomputed", says(&p));
            forged(&d, m, |b| b.fill_said())?
        }
        Tamper::ForgeLink(o, id) => {
            let n = overlays(doc).len();
            if n == 0 { return Ok(Tampered::Nothing) }
            let o = *o as usize % n;
            forged(&d, format!("overlay {o} linked to {id}, its identifier and the bundle's recomputed"), |b| { use std::str::FromStr; b.overlays[o].sign(&said::SelfAddressingIdentifier::from_str(id).unwrap()); b.fill_said() })?
        }
        Tamper::ForgeUnlink(o) => {
            let l: Vec<Path> = all.iter().filter(|p| p[0] == "overlays" && p.last().unwrap() == "capture_base" && said_like(p)).cloned().collect();
            let Some(p) = nth(&l, *o) else { return Ok(Tampered::Nothing) };
            *at(&mut d, &p) = Value::Null;
            forged(&d, format!("{} emptied, the identifiers of overlays and bundle recomputed", says(&p)), |b| { for o in &mut b.overlays { o.fill_said() } b.fill_said() })?
        }
        Tamper::Null(n) => {
            let l: Vec<Path> = all.iter().filter(|p| said_like(p)).cloned().collect();
            let Some(p) = nth(&l, *n) else { return Ok(Tampered::Nothing) };
            *at(&mut d, &p) = Value::Null;
            Tampered::Doc(d, format!("{} emptied", says(&p)))
        }
        Tamper::ForgeBaseId(id) => forged(&d, format!("capture base identified as {id}, overlays relinked, identifiers recomputed"), |b| { use std::str::FromStr; let i = said::SelfAddressingIdentifier::from_str(id).unwrap(); b.capture_base.said = Some(i.clone()); for o in &mut b.overlays { o.sign(&i) } b.fill_said() })?,
        Tamper::ForgeOverlayId(o, id) => {
            let l: Vec<Path> = all.iter().filter(|p| p[0] == "overlays" && p.last().unwrap() == "d" && said_like(p)).cloned().collect();
            let Some(p) = nth(&l, *o) else { return Ok(Tampered::Nothing) };
            *at(&mut d, &p) = json!(id);
            forged(&d, format!("{} replaced by {id}, bundle identifier recomputed", says(&p)), |b| b.fill_said())?
        }
    })
}
fn forged(d: &Value, m: String, f: impl Fn(&mut OCABundle)) -> Result<Tampered, Fail> {
    let mut b = match util::load(&d.to_string())? { Ok(b) => b, Err(_) => return Ok(Tampered::Nothing) };
    guard("recomputing identifiers", || f(&mut b))?;
    Ok(Tampered::Bundle(Box::new(b), m))
}
/// Whether an identifier or reference in the document is one that aborts the identifier library (K29A).
pub fn has_short_said(d: &Value) -> bool {
    let short = |s: &str| s.starts_with('0') && s.get(1..2).is_none();
    match d {
        Value::Object(m) => m.iter().any(|(k, v)| (k == "d" || k == "capture_base" || k == "said") && v.as_str().is_some_and(short) || has_short_said(v)),
        Value::Array(a) => a.iter().any(has_short_said),
        _ => false,
    }
}
/// The document in a form that is the same for documents that say the same: languages written in three letters, lists of
/// codes sorted (as they are stored), identifiers without the unused bits of their text form.
fn same(mut d: Value) -> Value {
    fn id(o: &mut Value) { for k in ["d", "capture_base"] { if let Some(x) = o.get_mut(k) { if let Some(s) = x.as_str().and_then(|s| s.parse::<said::SelfAddressingIdentifier>().ok()) { *x = json!(s.to_string()) } } } }
    fn sort(v: &mut Value) { match v { Value::Array(a) => a.sort_by_key(|x| x.to_string()), Value::Object(m) => m.values_mut().for_each(sort), _ => {} } }
    fn fix(o: &mut Value) {
        id(o);
        if let Some(l) = o.get_mut("language") { if let Some(x) = l.as_str().and_then(|l| l.parse::<Language>().ok()) { *l = json!(x.to_639_3()) } }
        if let Some(m) = o.get_mut("attribute_entry_codes") { sort(m) }
    }
    if d.get("capture_base").is_some_and(|b| b.is_object()) { id(&mut d["capture_base"]) }
    if let Some(x) = d.get_mut("d") { if let Some(s) = x.as_str().and_then(|s| s.parse::<said::SelfAddressingIdentifier>().ok()) { *x = json!(s.to_string()) } }
    if let Some(m) = d.get_mut("overlays").and_then(|x| x.as_object_mut()) { for v in m.values_mut() { match v { Value::Array(a) => a.iter_mut().for_each(fix), x => fix(x) } } }
    model::canon(d)
}
fn check10(c: &TamperCase, o: &mut Obs) -> Res {
    let prog = with_conditions(&c.prog, &c.conds, &c.uses);
    let text = plain_text(&prog);
    let b = util::build_ok(None, &ast_of(&prog))?.oca_bundle;
    let js = util::encode(&b)?;
    let doc: Value = serde_json::from_str(&js).unwrap();
    o.nontrivial = overlays(&doc).len() >= 2;
    o.class_if(!c.conds.is_empty(), "with-conditions");
    let l = util::load(&js)?.map_err(|e| Fail(format!("bundle cannot be loaded: {e}\n{js}")))?;
    for (how, x) in [("built", &b), ("loaded", &l)] { let e = errors(x)?; ensure!(e.is_empty(), "the {how} bundle of an accepted file is invalid: {e:?}\n{text}"); }
    let (bad, what) = match apply(&c.tamper, &doc)? {
        Tampered::Nothing => { o.class("nothing-to-tamper"); return Ok(()) }
        Tampered::Doc(d, m) => {
            if has_short_said(&d) { o.class("malformed-identifier"); return Ok(()) }
            if same(d.clone()) == same(doc.clone()) { o.class("no-change"); return Ok(()) }
            o.class("document");
            match util::load(&d.to_string())? { Ok(b) => (b, m), Err(_) => { o.class("does-not-load"); return Ok(()) } }
        }
        Tampered::Bundle(b, m) => { if value(&b)? == value(&l)? { o.class("no-change"); return Ok(()) } o.class("forged"); (*b, m) }
    };
    o.sample = Some(format!("{text}# {what}\n"));
    let e = errors(&bad)?;
    ensure!(!e.is_empty(), "tampering is not noticed: {what}\n{text}\n{js}");
    Ok(())
}
/// Conditions of which some mention attributes the bundle lacks or their own, or say nothing.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BadConds { /** for each attribute the condition, if any: what it mentions (0..5 attributes, 5.. unknown ones), how often, and how it is written */ conds: Vec<Option<(Vec<u8>, u8)>>, removed: u8, split: u8, shout: bool }
const COND_NAMES: [&str; 5] = ["alpha", "beta", "gamma", "delta", "epsilon"];
const COND_UNKNOWN: [&str; 3] = ["omega", "psi", "Alpha"];
fn bad_conds() -> BoxedStrategy<BadConds> {
    let cond = (vec(prop_oneof![12 => 0u8..5, 1 => 5u8..8], 0..4), prop_oneof![8 => 0u8..4, 1 => 4u8..8]);
    (vec(proptest::option::weighted(0.6, cond), 5..6), prop_oneof![4 => Just(0u8), 1 => (0u8..5).prop_map(|i| 1 << i), 1 => 0u8..32], 0u8..5, any::<bool>()).prop_map(|(conds, removed, split, shout)| BadConds { conds, removed: if removed == 31 { 0 } else { removed }, split, shout }).boxed()
}
fn check10c(c: &BadConds, o: &mut Obs) -> Res {
    let name = |i: u8| if i < 5 { COND_NAMES[i as usize] } else { COND_UNKNOWN[i as usize - 5] };
    let gone = |i: u8| i >= 5 || c.removed & 1 << i != 0;
    let mut t = format!("ADD ATTRIBUTE {}\n", COND_NAMES.iter().enumerate().map(|(i, n)| format!("{n}={}", ["Text", "Numeric", "Boolean", "Array[Text]", "DateTime"][i])).collect::<Vec<_>>().join(" "));
    let mut bad: BTreeSet<&str> = BTreeSet::new();
    let mut missing: BTreeSet<(&str, &str)> = BTreeSet::new();
    let mut parts: Vec<String> = vec![];
    for (i, cond) in c.conds.iter().enumerate() {
        let Some((m, how)) = cond else { continue };
        let mut e = m.iter().map(|&x| format!("${{{0}}} == ${{{0}}}", name(x))).collect::<Vec<_>>();
        e.insert(0, ["true", "1 < 2", "'a' ~= 'b'", "not false", "(", "true + 1", "'a' < 1", "nothing.at.all"][*how as usize].into());
        parts.push(format!("{}='{}'", COND_NAMES[i], e.join(if i % 2 == 0 { " and " } else { " or " }).replace('\'', "\"")));
        if gone(i as u8) { continue }
        let own = m.contains(&(i as u8));
        if own || *how > 3 || m.iter().any(|&x| gone(x)) { bad.insert(COND_NAMES[i]); }
        if !own { for &x in m { if gone(x) { missing.insert((COND_NAMES[i], name(x))); } } }
    }
    let (first, rest) = parts.split_at((c.split as usize).min(parts.len()));
    for p in [first, rest] { if !p.is_empty() { t.push_str(&format!("ADD CONDITION ATTRS {}\n", p.join(" "))) } }
    let removed: Vec<&str> = COND_NAMES.iter().enumerate().filter(|(i, _)| c.removed & 1 << i != 0).map(|x| *x.1).collect();
    if !removed.is_empty() { t.push_str(&format!("REMOVE ATTRIBUTE {}\n", removed.join(" "))) }
    if c.shout { t = t.replace("ADD CONDITION ATTRS", "add condition attrs") }
    o.sample = Some(t.clone());
    o.nontrivial = parts.len() >= 2 && !bad.is_empty();
    o.class_if(bad.len() > 1, "several-bad");
    o.class_if(bad.is_empty(), "all-good");
    o.class_if(missing.len() > 1, "several-missing");
    let b = util::build_ok(None, &util::parse_ok(&t)?)?.oca_bundle;
    let l = util::load(&util::encode(&b)?)?.map_err(|e| Fail(format!("bundle cannot be loaded: {e}\n{t}")))?;
    for (how, x) in [("built", &b), ("loaded", &l)] {
        let e = errors(x)?;
        ensure_eq!(e.is_empty(), bad.is_empty(), "conditions at fault: {bad:?}; errors of the {how} bundle: {e:?}\n{t}");
        for a in &bad { ensure!(e.iter().any(|m| m.contains(a)), "nothing is said about the condition of {a} ({how}): {e:?}\n{t}"); }
        for (a, d) in &missing { ensure!(e.iter().any(|m| m.contains(a) && m.contains(d)), "nothing is said about {d}, which the condition of {a} mentions ({how}): {e:?}\n{t}"); }
        let allowed: BTreeSet<&str> = bad.iter().copied().chain(missing.iter().map(|x| x.1)).collect();
        for a in COND_NAMES { ensure!(allowed.contains(a) || !e.iter().any(|m| m.contains(a)), "the condition of {a} is fine, but there is an error ({how}): {e:?}\n{t}"); }
    }
    Ok(())
}
pub fn p10(ctx: &Ctx) {
    ctx.campaign("conditions", 15_000, 600_000, bad_conds, check10c);
    ctx.campaign("sizes", 5_000, 200_000, || (big(200), vec((any::<u16>(), boolean()), 0..3), tampering()).prop_map(|(b, conds, tamper)| TamperCase { prog: b.program().into_iter().filter(|i| !matches!(i, Ins::Str(SO::Cond, _))).collect(), conds, tamper, uses: vec![] }).boxed(), check10);
    ctx.campaign("tampering", 60_000, 3_000_000, tamper_case, check10);
}

// ---------------------------------------------------------------- P11

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TransCase { /** per kind (meta, label, information, entry) and language (index): which of 5 keys or attributes */ pub have: Vec<(u8, u8, u8)>, pub enforced: Vec<u8>, pub badcond: bool, /** further attributes or keys, of which each kind and language leaves out some */ #[serde(default)] pub more: u16, #[serde(default)] pub holes: Vec<(u8, u8, u16)> }
const TL: [(&str, Language); 14] = [("en", Language::Eng), ("fr", Language::Fra), ("pl", Language::Pol), ("de", Language::Deu), ("ja", Language::Jpn), ("es", Language::Spa), ("it", Language::Ita), ("pt", Language::Por), ("cs", Language::Ces), ("uk", Language::Ukr), ("zh", Language::Zho), ("ar", Language::Ara), ("fi", Language::Fin), ("sv", Language::Swe)];
fn trans_case() -> BoxedStrategy<TransCase> {
    // mostly complete, with a few holes
    let mask = prop_oneof![3 => Just(0b111u8), 1 => 1u8..32, 1 => Just(0b011u8)];
    (vec((0u8..4, 0u8..4, mask), 0..14), vec(0u8..5, 0..5), any::<u8>()).prop_map(|(have, enforced, b)| TransCase { have, enforced, badcond: b < 20, more: 0, holes: vec![] }).boxed()
}
/// Many languages and many attributes or keys, with a few holes.
fn many_trans() -> BoxedStrategy<TransCase> {
    let n = TL.len() as u8;
    let mask = || prop_oneof![9 => Just(31u8), 1 => 1u8..32];
    (prop_oneof![1 => Just(0u16), 2 => size(80)], vec((0u8..4, 0u8..n, mask()), 0..40), vec(0u8..n, 0..20), vec((0u8..4, 0u8..n, any::<u16>()), 0..3), any::<u8>(), any::<bool>()).prop_map(move |(more, mut have, mut enforced, holes, b, all)| {
        // often nearly everything is there
        if all { let kinds: BTreeSet<u8> = have.iter().map(|h| h.0).collect(); have = kinds.iter().flat_map(|k| (0..n).map(|l| (*k, l, 31))).collect(); if b % 3 == 0 { have.pop(); } if b % 2 == 0 { enforced = (0..n).collect() } }
        TransCase { have, enforced, badcond: b < 20, more, holes }
    }).boxed()
}
fn check11(c: &TransCase, o: &mut Obs) -> Res {
    let attrs = ["a", "b", "c.d", "e", "f"];
    let keys = ["name", "description", "k", "other", "z"];
    let more: Vec<String> = (0..c.more).map(|i| format!("w{i}")).collect();
    let mut prog = vec![Ins::Attrs(attrs.iter().map(|a| a.to_string()).chain(more.iter().cloned()).map(|a| (a, Ty::Text)).collect())];
    let mut have: BTreeMap<(u8, u8), BTreeSet<&str>> = BTreeMap::new();
    for (k, l, m) in &c.have {
        let mut names: Vec<&str> = (0..5).filter(|i| m >> i & 1 == 1).map(|i| if *k == 0 { keys[i] } else { attrs[i] }).collect();
        names.extend(more.iter().enumerate().filter(|(i, _)| !c.holes.iter().any(|h| h.0 == *k && h.1 == *l && h.2 as usize % more.len() == *i)).map(|(_, a)| a.as_str()));
        if names.is_empty() { continue }
        have.entry((*k, *l)).or_default().extend(names.iter().copied());
        let lang = TL[*l as usize].0.to_string();
        let kv: KV = names.iter().map(|n| (n.to_string(), format!("{n} in {lang}"))).collect();
        prog.push(match k { 0 => Ins::Meta(lang, kv), 1 => Ins::Lang(LO::Label, lang, kv), 2 => Ins::Lang(LO::Info, lang, kv), _ => Ins::Entry(lang, kv.into_iter().map(|(a, v)| (a, Ents::Map(vec![("c".into(), v)]))).collect()) });
    }
    if c.badcond { prog.push(Ins::Str(SO::Cond, vec![("a".into(), "${b} > > 3".into())])) }
    let enforced: BTreeSet<u8> = c.enforced.iter().copied().collect();
    let mut want: Vec<(String, String, String)> = vec![]; // overlay, language, what
    if !enforced.is_empty() {
        for k in 0..4u8 {
            let ov = ["meta", "label", "information", "entry"][k as usize];
            let langs: BTreeSet<u8> = have.keys().filter(|x| x.0 == k).map(|x| x.1).collect();
            if langs.is_empty() { continue }
            let l = |i: u8| format!("{:?}", TL[i as usize].1).to_lowercase();
            for x in langs.difference(&enforced) { want.push((ov.into(), l(*x), "not enforced".into())) }
            for x in enforced.difference(&langs) { want.push((ov.into(), l(*x), "missing".into())) }
            let all: BTreeSet<&str> = langs.iter().flat_map(|x| have[&(k, *x)].iter().copied()).collect();
            for x in &langs { for a in all.difference(&have[&(k, *x)]) { want.push((ov.into(), l(*x), format!("missing for {a}"))) } }
        }
    }
    want.sort();
    o.nontrivial = have.keys().map(|k| k.0).collect::<BTreeSet<_>>().len() >= 2 && enforced.len() >= 2;
    o.class(if want.is_empty() { "complete" } else { "incomplete" });
    o.class_if(c.badcond, "bad-condition");
    let text = plain_text(&prog);
    o.sample = Some(format!("{text}# enforced: {:?}\n", enforced.iter().map(|i| TL[*i as usize].0).collect::<Vec<_>>()));
    let b = util::build_ok(None, &ast_of(&prog))?.oca_bundle;
    let loaded = util::load(&util::encode(&b)?)?.map_err(Fail)?;
    for b in [&b, &loaded] {
        // enforced languages may be given at once or one after another
        let langs: Vec<Language> = c.enforced.iter().map(|i| TL[*i as usize].1).collect();
        let v = if c.badcond { langs.iter().fold(Validator::new(), |v, l| v.enforce_translations(vec![*l])) } else { Validator::new().enforce_translations(langs) };
        let errs: Vec<String> = match guard("validating", || v.validate(b))? { Ok(()) => vec![], Err(e) => { ensure!(!e.is_empty(), "invalid without errors"); e.iter().map(|x| x.to_string()).collect() } };
        let (mut got, mut rest) = (vec![], vec![]);
        for e in &errs { match read_error(e) { Some(x) => got.push(x), None => rest.push(e.clone()) } }
        got.sort();
        ensure!(got == want, "translation errors of\n{text}# enforced {:?}\n   got: {got:?}\n  want: {want:?}\n   raw: {errs:?}", enforced.iter().map(|i| TL[*i as usize].0).collect::<Vec<_>>());
        ensure_eq!(!rest.is_empty(), c.badcond, "other errors ({rest:?}) of\n{text}");
    }
    Ok(())
}
/// Overlay, language and what is wrong, out of a message.
fn read_error(e: &str) -> Option<(String, String, String)> {
    let low = e.to_lowercase();
    if !low.contains("translation") { return None }
    let ov = ["meta", "label", "information", "entry"].into_iter().find(|k| low.starts_with(k))?;
    let lang = TL.iter().map(|l| format!("{:?}", l.1).to_lowercase()).find(|l| low.contains(&format!(" {l} ")) || low.ends_with(&format!(" {l}")))?;
    let what = match (e.find('\''), e.rfind('\'')) { (Some(a), Some(b)) if a < b => format!("missing for {}", &e[a + 1..b]), _ if low.contains("not enforced") || low.contains("unexpected") => "not enforced".into(), _ => "missing".into() };
    Some((ov.into(), lang, what))
}
pub fn p11(ctx: &Ctx) {
    ctx.campaign("many", 800, 60_000, many_trans, check11);
    ctx.campaign("translations", 60_000, 3_000_000, trans_case, check11);
}

// ---------------------------------------------------------------- P12

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ExprCase { pub names: Vec<String>, pub values: Vec<(i16, bool, String)>, pub expr: B, pub missing: Vec<u8>, pub own: bool, pub extra: bool }
fn expr_case() -> BoxedStrategy<ExprCase> {
    let name = prop_oneof![2 => attr_name(), 1 => "[a-z]{1,3}", 1 => (0u8..20).prop_map(|i| i.to_string())];
    (vec(name, 3..24), vec((-30i16..30, any::<bool>(), "[a-c]{0,2}"), 24), boolean(), prop_oneof![5 => Just(vec![]), 1 => vec(any::<u8>(), 1..3)], prop_oneof![9 => Just(false), 1 => Just(true)], any::<bool>())
        .prop_map(|(names, values, expr, missing, own, extra)| { let mut s = BTreeSet::new(); ExprCase { names: names.into_iter().filter(|n| s.insert(n.clone())).collect(), values, expr, missing, own, extra } }).boxed()
}
/// As generated, but wide: many attributes mentioned.
fn wide_case() -> BoxedStrategy<ExprCase> {
    (expr_case(), vec((0u8..6, num(), num()), 4..9), any::<u32>()).prop_map(|(mut c, cmps, bits)| {
        let mut e = c.expr;
        for (i, (o, a, b)) in cmps.into_iter().enumerate() { let k = B::Cmp(o, a, b); e = if bits >> i & 1 == 1 { B::And(Box::new(e), Box::new(k)) } else { B::Or(Box::new(k), Box::new(e)) } }
        c.expr = e;
        c
    }).boxed()
}
/// Hundreds of comparisons over hundreds of attributes.
fn long_case() -> BoxedStrategy<ExprCase> {
    (expr_case(), size(400), size(150).prop_flat_map(|n| vec((0u8..6, any::<u8>(), num(), any::<bool>()), n as usize))).prop_map(|(mut c, n, cmps)| {
        c.names.extend((0..n).map(|i| format!("n{i}")));
        let names: BTreeSet<String> = c.names.iter().cloned().collect();
        c.names = names.into_iter().collect();
        let v = c.values.clone();
        c.values = (0..c.names.len()).map(|i| v[i % v.len()].clone()).collect();
        // no deeper than it needs to be
        let mut parts: Vec<B> = cmps.into_iter().map(|(o, a, b, flip)| if flip { B::Cmp(o, b, N::Ref(a)) } else { B::Cmp(o, N::Ref(a), b) }).collect();
        parts.push(c.expr.clone());
        let mut turn: u16 = n;
        while parts.len() > 1 {
            parts = parts.chunks(2).map(|p| match p { [a, b] => { turn = turn.wrapping_mul(31).wrapping_add(7); if turn & 8 == 0 { B::And(Box::new(a.clone()), Box::new(b.clone())) } else { B::Or(Box::new(a.clone()), Box::new(b.clone())) } } _ => p[0].clone() }).collect();
        }
        c.expr = parts.pop().unwrap();
        c
    }).boxed()
}
fn check12(c: &ExprCase, o: &mut Obs) -> Res {
    let me = "conditioned.attr".to_string();
    let mut names = Names::default();
    let mut env = Env::new();
    for (i, n) in c.names.iter().enumerate() {
        if *n == me { continue }
        let v = &c.values[i % c.values.len()];
        match i % 4 { 0 | 1 => { names.num.push(n.clone()); env.insert(n.clone(), V::I(v.0 as i32)); } 2 => { names.boolean.push(n.clone()); env.insert(n.clone(), V::T(v.1)); } _ => { names.text.push(n.clone()); env.insert(n.clone(), V::S(v.2.clone())); } }
    }
    if c.own { names.num.push(me.clone()); env.insert(me.clone(), V::I(3)); }
    let expr = b_text(&c.expr, &names, true);
    let (_, deps) = model::condition(&expr);
    o.nontrivial = deps.len() >= 2;
    o.class_if(deps.len() > 10, "more-than-10-mentioned");
    let gone: BTreeSet<&String> = if deps.is_empty() { Default::default() } else { c.missing.iter().map(|m| &deps[*m as usize % deps.len()]).collect() };
    let own = deps.contains(&me);
    o.sample = Some(format!("{expr} with {env:?} without {gone:?}"));
    let given = || -> BTreeMap<String, Box<dyn std::fmt::Display>> {
        env.iter().filter(|(k, _)| !gone.contains(k) && (c.extra || deps.contains(k))).map(|(k, v)| (k.clone(), match v { V::I(i) => Box::new(*i) as Box<dyn std::fmt::Display>, V::T(t) => Box::new(*t), V::S(s) => Box::new(s.clone()) })).collect()
    };
    // set directly, and as built, stored and loaded
    let mut direct = Attribute::new(me.clone());
    direct.set_condition(expr.clone());
    let mut prog = vec![Ins::Attrs(env.keys().chain([&me]).collect::<BTreeSet<_>>().into_iter().map(|k| (k.clone(), Ty::Text)).collect()), Ins::Str(SO::Cond, vec![(me.clone(), expr.clone())])];
    if c.extra { prog.insert(1, Ins::Str(SO::Cond, vec![(me.clone(), "${x} or ${y}".into())])); }
    let built = util::build_ok(None, &ast_of(&prog))?.oca_bundle;
    let loaded = util::load(&util::encode(&built)?)?.map_err(Fail)?;
    let from = |b: OCABundle| -> Result<Attribute, Fail> { let bx = guard("editing a bundle", || OCABox::from(b))?; bx.get_attribute_by_name(&me).cloned().ok_or(Fail("the attribute is gone".into())) };
    for (how, a) in [("set directly", direct), ("built", from(built)?), ("loaded", from(loaded)?)] {
        let r = guard("checking a condition", || a.check_condition(given()))?;
        if own || !gone.is_empty() {
            o.class("error");
            match r {
                Ok(v) => return fail(format!("condition {how} yields {v} although {} is mentioned{}\n{expr}", if own { "the attribute itself" } else { "an attribute without value" }, if gone.is_empty() { String::new() } else { format!(", without values: {gone:?}") })),
                Err(e) => {
                    let all: Vec<String> = e.iter().map(|CondError::Custom(m)| m.clone()).collect();
                    for g in &gone { ensure!(all.iter().any(|m| m.contains(g.as_str())), "no error names {g}, which has no value: {all:?}\n{expr}"); }
                    ensure!(!own || all.iter().any(|m| m.contains(&me)), "no error names the attribute itself: {all:?}");
                }
            }
        } else {
            let want = b_eval(&c.expr, &names, &env);
            o.class(if want { "true" } else { "false" });
            match r { Ok(v) => ensure_eq!(v, want, "condition ({how}) {expr}\nwith {env:?}"), Err(e) => return fail(format!("condition ({how}) cannot be evaluated: {e:?}\n{expr}\nwith {env:?}")) }
        }
    }
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CondText { pub text: String }
fn cond_text() -> BoxedStrategy<CondText> {
    let piece = prop_oneof![3 => text(FULL), 4 => attr_name().prop_map(|a| format!("${{{a}}}")), 2 => (0u8..14).prop_map(|a| format!("${{{a}}}")), 1 => proptest::sample::select(vec!["${", "}", "$", "${}", "${ a }", "{0}", "$${a}", "${${a}}", "$\\{a}", "${a", "${1}", "${a\nb}", "$ {a}"]).prop_map(String::from), 1 => text(FULL).prop_map(|t| format!("${{{t}}}"))];
    prop_oneof![60 => vec(piece.clone(), 1..18), 1 => size(600).prop_flat_map(move |n| vec(piece.clone(), n as usize))].prop_map(|v| CondText { text: v.concat() }).boxed()
}
fn check12b(c: &CondText, o: &mut Obs) -> Res {
    let (want, deps) = model::condition(&c.text);
    o.nontrivial = deps.len() >= 2;
    o.class_if(deps.len() > 10, "more-than-10-mentioned");
    o.sample = Some(c.text.clone());
    let mut a = Attribute::new("me".into());
    guard("setting a condition", || a.set_condition(c.text.clone()))?;
    ensure_eq!(a.condition, Some(want.clone()), "stored condition of {:?}", c.text);
    ensure_eq!(a.dependencies, Some(deps.clone()), "mentioned attributes of {:?}", c.text);
    Ok(())
}
/// Expressions of any kind over values of any kind, and what is none.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AnyCond { pub text: String, pub values: Vec<AnyVal>, pub types: Vec<Ty>, /** the stored condition is changed so that it mentions what it does not depend on */ pub hole: Option<u8> }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum AnyVal { I(i64), F(f64), T(bool), S(String) }
impl std::fmt::Display for AnyVal { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { match self { AnyVal::I(x) => write!(f, "{x}"), AnyVal::F(x) => write!(f, "{x}"), AnyVal::T(x) => write!(f, "{x}"), AnyVal::S(x) => write!(f, "{x}") } } }
const ANY_NAMES: [&str; 5] = ["a", "b", "c", "d.e", "first-name"];
fn any_expr() -> BoxedStrategy<String> {
    let leaf = prop_oneof![
        4 => proptest::sample::select(ANY_NAMES.to_vec()).prop_map(|n| format!("${{{n}}}")),
        3 => proptest::sample::select(vec!["nil", "true", "false", "0", "1", "-1", "63", "64", "2", "1.5", "1e300", "9223372036854775807", "(-9223372036854775807-1)", "0x10", "'a'", "'5'", "\"x y\"", "''", "{}", "{1, 2}", "{x = true}", "[[t]]", "...", "_ENV", "math.pi", "math.huge", "string", "undefined"]).prop_map(String::from),
    ];
    leaf.prop_recursive(4, 24, 3, |e| prop_oneof![
        8 => (e.clone(), proptest::sample::select(vec!["+", "-", "*", "/", "//", "%", "^", "..", "==", "~=", "<", "<=", ">", ">=", "and", "or", "&", "|", "~", "<<", ">>"]), e.clone()).prop_map(|(a, o, b)| format!("({a} {o} {b})")),
        3 => (proptest::sample::select(vec!["-", "not ", "#", "~"]), e.clone()).prop_map(|(o, a)| format!("{o}({a})")),
        1 => (e.clone(), e.clone()).prop_map(|(a, b)| format!("({a})[{b}]")),
        1 => e.clone().prop_map(|a| format!("({a}).x")),
        2 => (proptest::sample::select(vec!["math.abs", "math.floor", "math.max", "math.ceil", "math.fmod", "math.random", "math.randomseed", "math.tointeger", "math.ult", "math.sqrt", "string.len", "tostring", "type", "select", "pcall", "error", "rawget", "rawset", "next", "ipairs", "pairs", "setmetatable", "getmetatable", "coroutine.create", "coroutine.resume", "coroutine.status", "coroutine.yield", "print_nothing", "string.rep"]), vec(e.clone(), 0..4)).prop_map(|(f, a)| format!("{f}({})", a.join(", "))),
        1 => e.clone().prop_map(|a| format!("(function(...) return {a} end)(1)")),
        1 => (e.clone(), e.clone()).prop_map(|(a, b)| format!("(function() local t = {{}} t[{a}] = {b} return t == t end)()")),
        1 => (e.clone(), e.clone(), e).prop_map(|(a, b, c)| format!("(function() for i = {a}, {b}, {c} do if i then return true end end return false end)()")),
    ]).boxed()
}
fn any_val() -> BoxedStrategy<AnyVal> {
    prop_oneof![3 => prop_oneof![any::<i64>(), -3i64..70].prop_map(AnyVal::I), 1 => any::<f64>().prop_map(AnyVal::F), 2 => any::<bool>().prop_map(AnyVal::T), 2 => proptest::sample::select(vec!["'a'", "a", "'it''s'", "\"", "nil", "{}", "", "'5'", "${a}", "${0}", "--", "end"]).prop_map(|t| AnyVal::S(t.into())), 1 => text(FULL).prop_map(AnyVal::S)].boxed()
}
fn any_cond() -> BoxedStrategy<AnyCond> {
    let junk = prop_oneof![2 => any_expr(), 2 => proptest::sample::select(vec![" end", " and ", "(", ")", "return", "--", "[[", "'", "\"", "\\", "function", "{", "}", "=", "goto x", "::x::", ";", ",", "\n", "\0", "é", "~", "0x", "1e", "..", "...."]).prop_map(String::from), 1 => text(FULL)];
    let depth = size(3_000).prop_flat_map(|n| proptest::sample::select(vec![("(", ")"), ("-", ""), ("not ", ""), ("{", "}"), ("1 + ", ""), ("'a' .. ", ""), ("(function() return ", " end)()"), ("true and ", "")]).prop_map(move |(l, r)| format!("{}true{}", l.repeat(n as usize), r.repeat(n as usize))));
    let text = prop_oneof![12 => any_expr(), 6 => any_expr().prop_map(|e| format!("{e} == true")), 3 => vec(junk, 1..5).prop_map(|v| v.concat()), 1 => depth];
    (text, vec(any_val(), 5), vec(ty(true), 5), prop_oneof![4 => Just(None), 1 => (0u8..6).prop_map(Some)]).prop_map(|(text, values, types, hole)| AnyCond { text, values, types, hole }).boxed()
}
fn check12c(c: &AnyCond, o: &mut Obs) -> Res {
    let me = "conditioned.attr".to_string();
    let (_, deps) = model::condition(&c.text);
    o.sample = Some(format!("{} with {:?}", c.text, c.values));
    let given = || -> BTreeMap<String, Box<dyn std::fmt::Display>> { ANY_NAMES.iter().zip(&c.values).map(|(k, v)| (k.to_string(), Box::new(v.clone()) as Box<dyn std::fmt::Display>)).collect() };
    let mut direct = Attribute::new(me.clone());
    guard("setting a condition", || direct.set_condition(c.text.clone()))?;
    let names: Vec<(String, Ty)> = ANY_NAMES.iter().map(|s| s.to_string()).zip(c.types.iter().cloned()).chain([(me.clone(), Ty::Text)]).collect();
    let built = util::build_ok(None, &ast_of(&[Ins::Attrs(names), Ins::Str(SO::Cond, vec![(me.clone(), c.text.clone())])]))?.oca_bundle;
    let mut v: Value = serde_json::from_str(&util::encode(&built)?).unwrap();
    if let Some(h) = c.hole {
        let ov = &mut v["overlays"]["conditional"];
        let said = format!("{}{}", ov["attribute_conditions"][&me].as_str().unwrap(), ["", " or ${5} == 1", " or ${99999999999999999999999} == 1", " or ${\u{663}} == 1", "", ""][h as usize]);
        ov["attribute_conditions"][&me] = json!(said);
        match h { 0 => { ov["attribute_dependencies"] = json!({}); } 4 => { ov["attribute_dependencies"][&me].as_array_mut().unwrap().pop(); } 5 => { ov["attribute_dependencies"][&me].as_array_mut().unwrap().insert(0, json!(me)); } _ => {} }
        o.class("changed-when-stored");
    }
    let loaded = util::load(&v.to_string())?;
    let mut verdicts = vec![];
    let mut ways = vec![("set directly", direct.clone())];
    if c.hole == Some(0) { direct.dependencies = None; ways.push(("without dependencies", direct)); }
    for (how, b) in [("built", Some(built)), ("loaded", loaded.ok())] {
        let Some(b) = b else { continue };
        if let Err(e) = guard("validating", || oca_bundle_semantics::state::validator::Validator::new().validate(&b))? { ensure!(!e.is_empty(), "rejected without a reason"); }
        if let Some(a) = guard("editing a bundle", || OCABox::from(b))?.get_attribute_by_name(&me) { ways.push((how, a.clone())); }
    }
    for (how, a) in ways {
        if a.condition.is_none() { continue }
        let r = guard("checking a condition", || a.check_condition(given())).map_err(|e| Fail(format!("{} ({how})\n{}\nwith {:?}", e.0, c.text, c.values)))?;
        if let Err(e) = &r {
            ensure!(!e.is_empty(), "no value and no error for {}", c.text);
            ensure!(e.iter().any(|CondError::Custom(m)| m.contains(&me) || m.contains("Missing dependency")), "no error names the attribute: {e:?}");
        }
        if c.hole.is_none() || how == "set directly" || how == "built" { verdicts.push(r.ok()); }
    }
    o.class(match verdicts[0] { Some(true) => "true", Some(false) => "false", None => "error" });
    o.nontrivial = deps.iter().any(|d| ANY_NAMES.contains(&d.as_str()));
    if !["random", "tostring"].iter().any(|w| c.text.contains(w)) { ensure!(verdicts.windows(2).all(|w| w[0] == w[1]), "set directly, built and loaded differ: {verdicts:?}\n{}\nwith {:?}", c.text, c.values); }
    Ok(())
}
const ENDLESS: [&str; 5] = ["(function() while true do end end)()", "(function() repeat until false end)()", "(function() for i = 1, 3, 0 do end return true end)()", "(function() local f; f = function() return f() end; return f() end)()", "(function() ::a:: goto a end)()"];
fn endless(text: &str) -> Res {
    let mut a = Attribute::new("me".into());
    a.set_condition(text.into());
    ensure!(guard("checking a condition", || a.check_condition(BTreeMap::new()))?.is_err(), "an endless condition has a value: {text}");
    let b = util::build_ok(None, &ast_of(&[Ins::Attrs(vec![("me".into(), Ty::Text)]), Ins::Str(SO::Cond, vec![("me".into(), text.into())])]))?.oca_bundle;
    ensure!(guard("validating", || oca_bundle_semantics::state::validator::Validator::new().validate(&b))?.is_err(), "an endless condition is valid: {text}");
    Ok(())
}
pub fn p12(ctx: &Ctx) {
    ctx.probe("endless", "endless conditions", || {
        let (tx, rx) = std::sync::mpsc::channel();
        for t in ENDLESS { let tx = tx.clone(); std::thread::spawn(move || { let _ = tx.send(endless(t)); }); }
        for _ in ENDLESS { match rx.recv_timeout(std::time::Duration::from_secs(100)) { Ok(r) => r?, Err(_) => return fail("an endless condition is checked without end") } }
        Ok(())
    });
    ctx.campaign("anything", 12_000, 600_000, any_cond, check12c);
    ctx.campaign("expressions", 30_000, 1_500_000, expr_case, check12);
    ctx.campaign("long", 2_000, 100_000, long_case, check12);
    ctx.campaign("wide", 20_000, 1_000_000, wide_case, check12);
    ctx.campaign("texts", 100_000, 5_000_000, cond_text, check12b);
}

// ---------------------------------------------------------------- P26

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BadCase { pub prog: Vec<Ins>, pub at: u16, pub kind: u8, pub sel: u16, pub text: String, pub meta: KV, pub lay: Lay, /** how many leading instructions the starting bundle holds */ pub from: Option<u16>, /** further ones that are wrong */ #[serde(default)] pub more: Vec<(u16, u8, u16)>, /** blank lines at the top */ #[serde(default)] pub lead: u32 }
fn bad_case() -> BoxedStrategy<BadCase> {
    (program(FULL), any::<u16>(), 0u8..10, any::<u16>(), text(FULL), super::p_parse::metas(), lay(), proptest::option::of(any::<u16>()), prop_oneof![2 => Just(vec![]), 1 => vec((any::<u16>(), 0u8..10, any::<u16>()), 1..4)]).prop_map(|(prog, at, kind, sel, text, mut meta, lay, from, more)| {
        meta.retain(|m| m.0 != "precompiler");
        BadCase { prog, at, kind, sel, text, meta, lay, from, more, lead: 0 }
    }).boxed()
}
/// An instruction that cannot be built where it stands, and nothing else wrong.
pub fn bad(kind: u8, sel: u16, text: &str, existing: &[String]) -> Ins {
    // a name nobody declared, which may look like one that is declared
    let like = |n: &String| -> Vec<String> { vec![n.to_lowercase(), n.to_uppercase(), format!("{n}x"), n[..n.len() - 1].to_string(), n.replace(['.', '-', '_'], "")] };
    let near: Vec<String> = existing.iter().flat_map(like).filter(|n| n.starts_with(|c: char| c.is_ascii_alphabetic()) && !existing.contains(n)).collect();
    let ghost = if sel % 3 == 0 || near.is_empty() { "ghost.attr".to_string() } else { near[sel as usize / 3 % near.len()].clone() };
    let kv = || { let mut v = vec![(ghost.clone(), text.to_string())]; if let Some(e) = existing.get(sel as usize % existing.len().max(1)) { if sel % 2 == 0 { v.insert(0, (e.clone(), text.to_string())) } } v };
    let frame = vec![("term".to_string(), text.to_string(), "j".to_string())];
    match kind {
        0 => Ins::Lang(LO::Label, "en".into(), kv()),
        1 => Ins::Lang(LO::Info, "fr".into(), kv()),
        2 => Ins::Str([SO::Format, SO::Conf, SO::Cond, SO::Card, SO::Unit][sel as usize % 5], kv()),
        3 => Ins::Str(SO::Enc, vec![(ghost, "utf-8".into())]),
        4 => match existing.first() { Some(a) => Ins::Str(SO::Enc, vec![(a.clone(), "utf-99".into())]), None => Ins::Str(SO::Enc, vec![(ghost, "utf-8".into())]) },
        5 => Ins::Meta("xx".into(), vec![("name".into(), text.to_string())]),
        6 => match existing.first() { Some(a) => Ins::Lang(LO::Label, "zz".into(), vec![(a.clone(), text.to_string())]), None => Ins::Lang(LO::Label, "zz".into(), vec![(ghost, "x".into())]) },
        7 => Ins::Entry("en".into(), vec![(ghost, Ents::Map(vec![("k".into(), text.to_string())]))]),
        8 => if sel % 2 == 0 { Ins::EntryCode(vec![(ghost, Codes::List(vec![text.to_string()]))]) } else { Ins::Link(Ty::Ref(said_pool()[0].clone()), vec![(ghost, "x".into())]) },
        _ => Ins::Framing(vec![("id".into(), "f".into())], vec![(ghost, frame)]),
    }
}
/// Line and text an error carries.
pub fn position(e: &impl Serialize) -> Option<(u64, String)> { let v = serde_json::to_value(e).ok()?; Some((v.get("ln")?.as_u64()?, v.get("c")?.as_str()?.to_string())) }
fn check26(c: &BadCase, o: &mut Obs) -> Res {
    let cut = c.from.map_or(0, |f| f as usize % c.prog.len());
    // instructions that are wrong where they stand, the rest being built as if they were not there
    let mut wrong: Vec<(usize, Ins)> = [(c.at, c.kind, c.sel)].iter().chain(&c.more).map(|(at, kind, sel)| {
        let at = cut + *at as usize % (c.prog.len() - cut + 1);
        let existing: Vec<String> = State::of(&c.prog[..at]).attrs.into_keys().collect();
        o.class(format!("kind{kind}"));
        (at, bad(*kind, *sel, &c.text, &existing))
    }).collect();
    wrong.sort_by_key(|w| w.0);
    let head = c.prog[..cut].to_vec();
    let from = c.from.is_some() && cut > 0;
    let base = if from { Some(util::build_ok(None, &ast_of(&head))?.oca_bundle) } else { None };
    let mut file: Vec<Ins> = vec![];
    if let Some(b) = &base { file.push(Ins::From(util::said(b))) }
    let mut bads: Vec<usize> = vec![];
    for n in cut..=c.prog.len() {
        for (_, i) in wrong.iter().filter(|w| w.0 == n) { bads.push(file.len()); file.push(i.clone()) }
        if n < c.prog.len() { file.push(c.prog[n].clone()) }
    }
    let mut r = render_meta(&file, &c.meta, &c.lay);
    if c.lead > 0 { r.text.insert_str(0, &"\n".repeat(c.lead as usize)); for a in &mut r.at { a.0 += c.lead as usize } }
    let places: Vec<(usize, String)> = bads.iter().map(|i| r.at[*i].clone()).collect();
    let line = places[0].0;
    let before: String = r.text.split_inclusive('\n').take(line - 1).collect();
    o.nontrivial = bads[0] > 0 && (before.contains('#') || before.contains("\n\n") || before.contains("\\\n") || before.contains("\\\r"));
    o.class_if(from, "from-bundle");
    o.class_if(bads.len() > 1, "several-wrong");
    let line: Vec<usize> = places.iter().map(|p| p.0).collect();
    o.sample = Some(format!("{}\n--- wrong are the instructions on lines {line:?}", r.text));
    let mut ast = util::parse_ok(&r.text)?;
    if from { ast.commands.remove(0); } // as the facade does
    let e = match guard("building", || oca_bundle_semantics::build::from_ast(base.clone(), &ast))? { Ok(_) => return fail(format!("accepted, but the instructions on lines {line:?} are wrong\n{}", r.text)), Err(e) => e };
    let norm = |s: &str| s.replace("\r\n", "\n").trim_end_matches(['\n', '\r', ' ', '\t']).to_string();
    let ok = |all: Vec<Option<(u64, String)>>, what: &str| -> Res {
        ensure!(!all.is_empty(), "rejected without errors\n{}", r.text);
        for p in &all {
            let Some((l, t)) = p else { return fail(format!("{what}: an error carries no position\n{}", r.text)) };
            let Some((_, txt)) = places.iter().find(|p| p.0 == *l as usize) else { return fail(format!("{what}: an error is reported on line {l}, failing instructions are on lines {line:?}\n{}", r.text)) };
            ensure!(norm(t) == norm(txt), "{what}: the error on line {l} shows {t:?}, the failing instruction is {txt:?}\n{}", r.text);
        }
        for l in &line { ensure!(all.iter().flatten().any(|p| p.0 as usize == *l), "{what}: no error is reported on line {l}, failing instructions are on lines {line:?}\n{}", r.text); }
        Ok(())
    };
    ok(e.iter().map(position).collect(), "build")?;
    if !from {
        match guard("building", || oca_rs::facade::build::build_from_ocafile(r.text.clone()))? {
            Err(oca_rs::facade::build::Error::ValidationError(v)) => ok(v.iter().map(position).collect(), "facade")?,
            x => return fail(format!("build_from_ocafile answers {x:?}\n{}", r.text)),
        }
    }
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BadFile { pub bad: BadCase, pub stored: bool }
/// The same through a facade, in files which start from a bundle that is stored, or from one that is not.
fn check26f(c: &BadFile, o: &mut Obs) -> Res {
    let b = &c.bad;
    let cut = if c.stored { b.from.map_or(0, |f| f as usize % b.prog.len()) } else { 0 };
    let at = cut + b.at as usize % (b.prog.len() - cut + 1);
    let existing: Vec<String> = State::of(&b.prog[..at]).attrs.into_keys().collect();
    let mut file = b.prog[cut..].to_vec();
    file.insert(at - cut, bad(b.kind, b.sel, &b.text, &existing));
    let mut f = super::p_facade::memory();
    let from = match (c.stored, cut) {
        (true, 0) => None,
        (true, _) => match guard("building", || f.build_from_ocafile(plain_text(&b.prog[..cut])))? { Ok(x) => Some(util::said(&x)), Err(e) => return fail(format!("{e:?}")) },
        _ => Some(said_pool()[b.sel as usize % said_pool().len()].clone()),
    };
    o.class(match (&from, c.stored) { (None, _) => "no FROM", (_, true) => "FROM a stored bundle", _ => "FROM an unknown bundle" });
    let off = usize::from(from.is_some());
    if let Some(s) = from { file.insert(0, Ins::From(s)) }
    let r = render_meta(&file, &b.meta, &b.lay);
    let (line, txt) = &r.at[at - cut + off];
    o.nontrivial = *line > 1 + off;
    o.sample = Some(format!("{}\n--- the instruction on line {line} is wrong", r.text));
    let norm = |s: &str| s.replace("\r\n", "\n").trim_end_matches(['\n', '\r', ' ', '\t']).to_string();
    let e = match guard("building", || f.build_from_ocafile(r.text.clone()))? { Err(oca_rs::facade::build::Error::ValidationError(v)) => v, x => return fail(format!("build_from_ocafile answers {x:?}\n{}", r.text)) };
    let e2 = match guard("validating", || f.validate_ocafile(r.text.clone()))? { Err(v) => v, Ok(_) => return fail(format!("validated although line {line} is wrong\n{}", r.text)) };
    for v in [e, e2] {
        ensure!(!v.is_empty(), "rejected without errors\n{}", r.text);
        for x in &v {
            // a bundle that is not there is another matter
            let p = position(x);
            if off == 1 && !c.stored && p.as_ref().is_some_and(|p| p.0 as usize == r.at[0].0) { continue }
            ensure_eq!(p.as_ref().map(|p| p.0 as usize), Some(*line), "line of {x:?}, which is the matter with line {line} of\n{}", r.text);
            ensure_eq!(norm(&p.unwrap().1), norm(txt), "text of the error in\n{}", r.text);
        }
    }
    Ok(())
}
pub fn p26(ctx: &Ctx) {
    ctx.campaign("facade", 4_000, 200_000, || (bad_case(), any::<bool>()).prop_map(|(bad, stored)| BadFile { bad, stored }).boxed(), check26f);
    ctx.campaign("far", 1_000, 60_000, || (bad_case(), big(60), size(30_000)).prop_map(|(mut bad, b, lead)| { bad.lead = lead as u32 * 3; let mut p = b.program(); p.truncate(1); let lines = b.attrs; bad.prog = p.into_iter().chain((0..lines).map(|i| Ins::Lang(LO::Label, ["en", "fr"][i as usize % 2].into(), vec![(format!("a{}", i / 2), format!("label {i}"))]))).collect(); bad }).boxed(), check26);
    ctx.campaign("layouts", 40_000, 2_000_000, bad_case, check26);
}

// ---------------------------------------------------------------- P30

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WildCase { pub prog: Vec<Ins>, pub extra: Vec<(u16, Ins)>, pub lay: Lay }
fn wild_ins() -> BoxedStrategy<Ins> {
    let a = || proptest::sample::select(vec!["a", "b", "c", "name", "nope", "d", "A", "B", "Name", "na", "names"]).prop_map(String::from);
    let lang = || proptest::sample::select(vec!["en", "fr", "xx", "zz", "en-US", "pl-PL", "aa"]).prop_map(String::from);
    let t = || text(FULL);
    prop_oneof![
        3 => (lang(), proptest::sample::select(vec!["name", "lang", "type", "d", "language", "k"]), t()).prop_map(|(l, k, v)| Ins::Meta(l, vec![(k.into(), v)])),
        3 => (prop_oneof![Just(LO::Label), Just(LO::Info)], lang(), a(), t()).prop_map(|(k, l, a, v)| Ins::Lang(k, l, vec![(a, v)])),
        3 => (prop_oneof![Just(SO::Enc), Just(SO::Format), Just(SO::Conf), Just(SO::Cond), Just(SO::Card), Just(SO::Unit)], a(), t(), any::<bool>()).prop_map(|(k, a, v, g)| Ins::Str(k, vec![(a, if g { "utf-8".into() } else { v })])),
        1 => (a(), t()).prop_map(|(a, v)| Ins::EntryCode(vec![(a, Codes::List(vec![v]))])),
        1 => (a(), t()).prop_map(|(a, v)| Ins::EntryCode(vec![(a, Codes::Groups(vec![(v, vec![])]))])),
        1 => (lang(), a(), t()).prop_map(|(l, a, v)| Ins::Entry(l, vec![(a, Ents::Map(vec![(v, "x".into())]))])),
        1 => (prop_oneof![proptest::sample::select(said_pool().clone()).prop_map(Ty::Ref), Just(Ty::Name("zzz".into()))], a(), t()).prop_map(|(r, a, v)| Ins::Link(r, vec![(a, v)])),
        1 => (0..12usize, a(), t()).prop_map(|(f, a, v)| Ins::Framing(frame_meta(f), vec![(a, vec![("t".into(), v, "j".into())])])),
        1 => (a(), t()).prop_map(|(a, v)| Ins::Framing(vec![("label".into(), v.clone())], vec![(a, vec![("t".into(), v, "j".into())])])),
        1 => vec(a(), 1..3).prop_map(Ins::RmAttrs), 1 => Just(Ins::RmClass), 1 => t().prop_map(Ins::Class),
        1 => proptest::sample::select(said_pool().clone()).prop_map(Ins::From), 2 => vec(a(), 1..3).prop_map(Ins::Flagged),
        1 => (lang(), vec(a(), 0..3), any::<bool>()).prop_map(|(l, v, m)| { let mut s = BTreeSet::new(); let v = v.into_iter().filter(|x| s.insert(x.clone())).collect(); if m { Ins::RmMeta(l, v) } else { Ins::RmLabel(l, v) } }), 1 => (a(), t()).prop_map(|(k, v)| Ins::EncProps(vec![(k, v)])),
        2 => vec((a(), prop_oneof![ty(true), Just(Ty::Name("zzz".into())), Just(Ty::Arr(Box::new(Ty::Name("zzz".into()))))]), 1..3).prop_map(|v| { let mut s = BTreeSet::new(); Ins::Attrs(v.into_iter().filter(|x| s.insert(x.0.clone())).collect()) }),
    ].boxed()
}
fn wild_case() -> BoxedStrategy<WildCase> {
    (prop_oneof![1 => Just(vec![]), 4 => program(Cfg { max_ops: 4, ..FULL })], vec((any::<u16>(), wild_ins()), 1..6), lay()).prop_map(|(prog, extra, lay)| WildCase { prog, extra, lay }).boxed()
}
/// Must the instruction be refused? `None`: either is acceptable.
fn refused(i: &Ins, have: &BTreeSet<String>) -> Option<bool> {
    let known = |l: &str| isolang::Language::from_639_1(l).is_some();
    let missing = |mut it: Box<dyn Iterator<Item = &String> + '_>| it.any(|a| !have.contains(a));
    Some(match i {
        Ins::Attrs(_) | Ins::RmAttrs(_) | Ins::RmClass | Ins::Class(_) | Ins::EncProps(_) => false,
        Ins::Flagged(v) => missing(Box::new(v.iter())),
        Ins::From(_) | Ins::RmMeta(..) | Ins::RmLabel(..) => true,
        // a property called lang replaces the language
        Ins::Meta(_, kv) if kv.iter().any(|k| k.0 == "lang") => return None,
        Ins::Meta(l, kv) => !known(l) || kv.iter().any(|k| ["d", "type", "capture_base", "language"].contains(&k.0.as_str())),
        Ins::Lang(_, l, kv) => !known(l) || missing(Box::new(kv.iter().map(|x| &x.0))),
        Ins::Entry(l, v) => !known(l) || missing(Box::new(v.iter().map(|x| &x.0))),
        Ins::Str(SO::Enc, kv) => missing(Box::new(kv.iter().map(|x| &x.0))) || kv.iter().any(|x| !ENCODINGS.contains(&x.1.as_str())),
        Ins::Str(_, kv) => missing(Box::new(kv.iter().map(|x| &x.0))),
        Ins::EntryCode(v) => missing(Box::new(v.iter().map(|x| &x.0))),
        Ins::Link(Ty::Name(_), _) => true,
        Ins::Link(_, kv) => missing(Box::new(kv.iter().map(|x| &x.0))),
        Ins::Framing(m, v) => !m.iter().any(|k| k.0 == "id") || missing(Box::new(v.iter().map(|x| &x.0))),
    })
}
fn check30(c: &WildCase, o: &mut Obs) -> Res {
    let mut prog = c.prog.clone();
    for (at, i) in &c.extra { prog.insert(*at as usize % (prog.len() + 1), i.clone()) }
    let r = render(&prog, &c.lay);
    o.sample = Some(r.text.clone());
    o.nontrivial = prog.len() >= 2;
    let ast = match util::parse(&r.text)? { Ok(a) => a, Err(_) => { o.class("does-not-parse"); return Ok(()) } };
    ensure_eq!(ast.commands.len(), prog.len(), "number of instructions");
    let (mut have, mut must, mut sure) = (BTreeSet::new(), false, true);
    for i in &prog {
        match refused(i, &have) { Some(true) => must = true, Some(false) => {}, None => sure = false }
        match i { Ins::Attrs(a) => have.extend(a.iter().map(|x| x.0.clone())), Ins::RmAttrs(a) => for x in a { have.remove(x); }, _ => {} }
    }
    o.class(if must { "must-fail" } else if sure { "must-build" } else { "either" });
    match guard("building", || oca_bundle_semantics::build::from_ast(None, &ast))? {
        Ok(b) => { ensure!(!must, "an instruction that cannot be built was accepted silently\n{}", r.text); ensure_eq!(b.steps.len(), prog.len(), "number of steps"); total(&b.oca_bundle)?; }
        Err(e) => { ensure!(!e.is_empty(), "rejected without errors\n{}", r.text); ensure!(must || !sure, "rejected although nothing is wrong: {e:?}\n{}", r.text); }
    }
    match guard("building", || oca_rs::facade::build::build_from_ocafile(r.text.clone()))? {
        Ok(_) => ensure!(!must, "accepted by the facade\n{}", r.text),
        Err(oca_rs::facade::build::Error::ValidationError(v)) => ensure!(!v.is_empty(), "rejected without errors\n{}", r.text),
        Err(e) => return fail(format!("{e:?}")),
    }
    Ok(())
}
/// What can be asked of any bundle, without a verdict being expected.
pub fn total(b: &OCABundle) -> Res {
    guard("validating", || { let _ = validate(b); })?;
    guard("converting to an OCAfile", || { let _ = oca_rs::facade::build::parse_oca_bundle_to_ocafile(b); })?;
    guard("regenerating", || { let _ = OCABox::from(b.clone()).generate_bundle(); })?;
    guard("enforcing translations", || { let _ = Validator::new().enforce_translations(vec![Language::Eng]).validate(b); })?;
    Ok(())
}
fn check30b(c: &super::p_parse::TextCase, o: &mut Obs) -> Res {
    let ast = match util::parse(&c.text)? { Ok(a) => a, Err(_) => { o.class("does-not-parse"); return Ok(()) } };
    o.nontrivial = ast.commands.len() >= 2;
    o.sample = Some(c.text.clone());
    match guard("building", || oca_bundle_semantics::build::from_ast(None, &ast))? {
        Ok(b) => { o.class("builds"); ensure_eq!(b.steps.len(), ast.commands.len(), "number of steps"); total(&b.oca_bundle) }
        Err(e) => { o.class("rejected"); ensure!(!e.is_empty(), "rejected without errors\n{}", c.text); Ok(()) }
    }
}
/// Framing values of any form: what is not a predicate with a justification must be reported.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum FVal { Text(String), Obj(Vec<(String, FVal)>) }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FrameCase { frames: Vec<Vec<(String, FVal)>>, spaced: bool }
fn frame_case() -> BoxedStrategy<FrameCase> {
    let t = || "[a-z:]{1,4}".prop_map(FVal::Text).boxed();
    let key = || proptest::sample::select(vec!["predicate_id", "framing_justification", "Predicate_ID", "note"]).prop_map(String::from);
    let wrong = vec((key(), prop_oneof![5 => t(), 1 => vec(("[a-c]{1,2}", t()), 1..3).prop_map(FVal::Obj).boxed()]), 1..4).prop_map(FVal::Obj);
    let good = ("[a-z:]{1,4}", "[a-z:]{1,4}", any::<bool>()).prop_map(|(p, j, swap)| { let mut v = vec![("predicate_id".to_string(), FVal::Text(p)), ("framing_justification".to_string(), FVal::Text(j))]; if swap { v.reverse() } FVal::Obj(v) });
    (vec(vec(("[a-cA-C]{1,2}", prop_oneof![20 => good, 2 => wrong, 1 => t()]), 1..4), 1..4), any::<bool>()).prop_map(|(frames, spaced)| FrameCase { frames, spaced }).boxed()
}
impl FVal {
    fn text(&self, sp: &str) -> String { match self { FVal::Text(t) => format!("{t:?}"), FVal::Obj(v) => format!("{{{sp}{}{sp}}}", v.iter().map(|(k, v)| format!("{k:?}:{sp}{}", v.text(sp))).collect::<Vec<_>>().join(&format!(",{sp}"))) } }
    /// keys are read in lower case, a later one replaces an earlier one
    pub fn map(v: &[(String, FVal)]) -> BTreeMap<String, &FVal> { v.iter().map(|(k, v)| (k.to_lowercase(), v)).collect() }
}
fn check30c(c: &FrameCase, o: &mut Obs) -> Res {
    let sp = if c.spaced { " " } else { "" };
    let text = format!("ADD ATTRIBUTE {}\nADD ATTR_FRAMING id=\"f\" ATTRS {}\n", (0..c.frames.len()).map(|i| format!("a{i}=Text")).collect::<Vec<_>>().join(" "), c.frames.iter().enumerate().map(|(i, f)| format!("a{i}={}", FVal::Obj(f.clone()).text(sp))).collect::<Vec<_>>().join(" "));
    o.sample = Some(text.clone());
    o.nontrivial = c.frames.iter().map(|f| f.len()).sum::<usize>() >= 2;
    let ast = util::parse_ok(&text)?;
    let mut want = serde_json::Map::new();
    let mut must = false;
    for (i, f) in c.frames.iter().enumerate() {
        let mut m = serde_json::Map::new();
        for (term, v) in FVal::map(f) {
            let FVal::Obj(v) = v else { must = true; continue };
            let v = FVal::map(v);
            match (v.get("predicate_id"), v.get("framing_justification")) { (Some(FVal::Text(p)), Some(FVal::Text(j))) => { m.insert(term, json!({"predicate_id": p, "framing_justification": j})); } _ => must = true }
        }
        want.insert(format!("a{i}"), Value::Object(m));
    }
    o.class(if must { "must-fail" } else { "must-build" });
    match guard("building", || oca_bundle_semantics::build::from_ast(None, &ast))? {
        Ok(b) => {
            ensure!(!must, "a framing without predicate and justification was accepted silently\n{text}");
            let j = util::bundle_json(&b.oca_bundle)?;
            ensure_eq!(j["overlays"]["attribute_framing"][0]["attribute_framing"], Value::Object(want), "framings\n{text}");
        }
        Err(e) => { ensure!(must, "rejected although nothing is wrong: {e:?}\n{text}"); for x in &e { ensure!(position(x).is_some_and(|p| p.0 == 2), "the error does not name the instruction: {x:?}\n{text}") } }
    }
    match guard("building", || oca_rs::facade::build::build_from_ocafile(text.clone()))? {
        Ok(_) => ensure!(!must, "accepted by the facade\n{text}"),
        Err(oca_rs::facade::build::Error::ValidationError(v)) => ensure!(must && !v.is_empty(), "rejected without errors or reason\n{text}"),
        Err(e) => return fail(format!("{e:?}")),
    }
    Ok(())
}
/// Instructions of any kind with any content, as they can be read from JSON or composed: never an abort.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Commands { prog: Vec<Ins>, cmds: Vec<(u16, super::p_ast::CmdCase)>, known: bool }
fn commands() -> BoxedStrategy<Commands> {
    (program(FULL), vec((any::<u16>(), super::p_ast::cmd_case()), 1..4), any::<bool>()).prop_map(|(prog, cmds, known)| Commands { prog, cmds, known }).boxed()
}
fn check30d(c: &Commands, o: &mut Obs) -> Res {
    let mut ast = ast_of(&c.prog);
    let names: Vec<String> = State::of(&c.prog).attrs.into_keys().collect();
    for (at, x) in &c.cmds {
        let mut cmd = super::p_ast::cmd(x);
        // half of them speak of attributes that exist
        if c.known && !names.is_empty() {
            if let oca_ast_semantics::ast::ObjectKind::Overlay(_, content) = &mut cmd.object_kind {
                if let Some(a) = &mut content.attributes { *a = std::mem::take(a).into_iter().enumerate().map(|(n, (_, v))| (names[(n + *at as usize) % names.len()].clone(), v)).collect() }
            }
        }
        ast.commands.insert(*at as usize % (ast.commands.len() + 1), cmd);
    }
    let shown = serde_json::to_string(&ast.commands).unwrap_or_default();
    o.sample = Some(shown.clone());
    o.nontrivial = ast.commands.len() >= 3;
    let r = guard("building", || oca_bundle_semantics::build::from_ast(None, &ast)).map_err(|f| Fail(format!("{}\n{shown}", f.0)))?;
    // MODIFY has no written form
    ast.commands.retain(|c| c.kind != oca_ast_semantics::ast::CommandType::Modify);
    guard("printing", || oca_file_semantics::ocafile::generate_from_ast(&ast)).map_err(|f| Fail(format!("{}\n{shown}", f.0)))?;
    match r {
        Ok(b) => { o.class("built"); util::bundle_json(&b.oca_bundle)?; }
        Err(e) => { o.class("rejected"); ensure!(!e.is_empty() && e.iter().all(|x| !x.to_string().is_empty()), "rejected without errors\n{shown}") }
    }
    Ok(())
}
pub fn p30(ctx: &Ctx) {
    ctx.campaign("commands", 20_000, 1_000_000, commands, check30d);
    ctx.campaign("wild", 60_000, 3_000_000, wild_case, check30);
    ctx.campaign("sizes", 1_000, 50_000, || (big(1000), vec((any::<u16>(), wild_ins()), 0..2)).prop_map(|(b, extra)| WildCase { prog: b.program(), extra, lay: Lay::default() }).boxed(), check30);
    ctx.campaign("texts", 150_000, 6_000_000, super::p_parse::any_text, check30b);
    ctx.campaign("frames", 20_000, 1_000_000, frame_case, check30c);
}
