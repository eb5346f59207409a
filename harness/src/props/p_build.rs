//! P06 content of built bundles, P07 identifiers, P08 JSON, P09 OCAfile of a bundle, P13 steps.
use crate::engine::*;
use crate::gen::*;
use crate::model::{self, State};
use crate::{ensure, ensure_eq, util};
use oca_ast_semantics::ast::OCAAst;
use oca_bundle_semantics::build::OCABuild;
use oca_bundle_semantics::state::oca::{OCABox, OCABundle};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeSet;

pub const RULE06: &str = "cases are generated programs (all overlays, replacing declarations, removals, references, groups, framings); after every instruction the bundle is compared, as canonical JSON without identifiers, with a model of what has been declared so far; each overlay must carry the capture base's identifier. Non-trivial: at least 3 instructions of at least 3 kinds.";
pub const RULE07: &str = "cases are a program, a random reordering, splitting and regrouping of the content it declares, and one random edit of that content; oracle: same content gives the same encoded bundle and identifiers (also built twice and in other processes), the edited content another bundle identifier; every identifier is recomputed by an independent digest of the object's JSON. Non-trivial: at least 6 declared facts and 2 overlays.";
pub const RULE08: &str = "cases are bundles built from generated programs; oracle: encode, load, encode again, and regenerate from the editable form give the same bytes and identifiers. Non-trivial: at least 2 overlays.";
pub const RULE09: &str = "cases are bundles built from generated programs; oracle: the OCAfile printed from the bundle builds to a bundle with the same bytes. Non-trivial: at least 2 overlays.";
pub const RULE13: &str = "cases are programs and split points; oracle: chain and result of every step against independent builds of every prefix, and continuation from the prefix bundle (in memory and reloaded from JSON) against the whole build. Non-trivial: at least 4 instructions and a split strictly inside.";

pub fn ast_of(p: &[Ins]) -> OCAAst { let mut a = OCAAst::new(); a.commands = p.iter().map(model::command).collect(); a }
pub fn value(b: &OCABundle) -> Result<Value, Fail> { guard("serializing a bundle", || serde_json::to_value(b))?.map_err(|e| Fail(e.to_string())) }
/// Compares what a bundle holds with what was declared, and checks that overlays point at the capture base.
pub fn holds(v: &Value, s: &State, when: &str) -> Res {
    let got = model::observed(v).map_err(|e| Fail(format!("{when}: {e}")))?;
    let want = s.expected();
    ensure!(got == want, "the bundle does not hold what was declared, {when}\n   got: {got}\n  want: {want}");
    let cb = v["capture_base"]["d"].as_str().ok_or(Fail("capture base without identifier".into()))?;
    for o in overlays(v) { ensure_eq!(o["capture_base"].as_str(), Some(cb), "{when}: capture base of the {} overlay", o["type"]); ensure!(o["d"].is_string(), "{when}: overlay without identifier"); }
    Ok(())
}
pub fn overlays(v: &Value) -> Vec<Value> { v["overlays"].as_object().into_iter().flatten().flat_map(|(_, o)| o.as_array().cloned().unwrap_or_else(|| vec![o.clone()])).collect() }
fn nt_bundle(p: &[Ins]) -> bool { State::of(p).overlay_count() >= 2 }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prog { pub prog: Vec<Ins> }
fn progs() -> BoxedStrategy<Prog> { program(FULL).prop_map(|prog| Prog { prog }).boxed() }

fn bigs() -> BoxedStrategy<Prog> { big(2000).prop_map(|b| Prog { prog: b.program() }).boxed() }

fn check06(c: &Prog, o: &mut Obs) -> Res {
    o.nontrivial = super::p_parse::nontrivial(&c.prog);
    super::p_parse::classes(&c.prog, o);
    let text = plain_text(&c.prog);
    o.sample = Some(text.clone());
    let b = util::build_ok(None, &util::parse_ok(&text)?)?;
    ensure_eq!(b.steps.len(), c.prog.len(), "number of steps");
    let mut s = State::default();
    for (n, (i, st)) in c.prog.iter().zip(&b.steps).enumerate() {
        s.apply(i);
        holds(&value(&st.result)?, &s, &format!("after instruction {} of\n{text}", n + 1))?;
    }
    o.class_if(s.attrs.is_empty(), "no-attributes-left");
    holds(&util::bundle_json(&b.oca_bundle)?, &s, &format!("in the final bundle of\n{text}"))
}
pub fn p06(ctx: &Ctx) {
    ctx.probe("flagged", "ADD ATTRIBUTE a=Text\nADD FLAGGED_ATTRIBUTES a\n", || {
        let b = util::build_text("ADD ATTRIBUTE a=Text\nADD FLAGGED_ATTRIBUTES a\n")?;
        ensure_eq!(value(&b.oca_bundle)?["capture_base"]["flagged_attributes"], serde_json::json!(["a"]), "flagged attributes");
        Ok(())
    });
    ctx.probe("K06B", "ADD ATTRIBUTE a=Text\nADD CHARACTER_ENCODING PROPS k=\"utf-8\"\n", || {
        let b = util::build_text("ADD ATTRIBUTE a=Text\nADD CHARACTER_ENCODING PROPS k=\"utf-8\"\n")?;
        ensure!(overlays(&value(&b.oca_bundle)?).len() == 1, "nothing was built from CHARACTER_ENCODING PROPS");
        Ok(())
    });
    ctx.campaign("programs", 40_000, 2_000_000, progs, check06);
    ctx.campaign("sizes", 3_000, 150_000, bigs, check06);
}

// ---------------------------------------------------------------- P07

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct IdCase { pub prog: Vec<Ins>, pub shuffle: Vec<u16>, pub edit: (u16, u16, String) }
/// The facts a state declares, one per instruction.
pub fn facts(s: &State) -> (Vec<Ins>, Vec<Ins>) {
    let one = |k: &String, v: &String| vec![(k.clone(), v.clone())];
    let attrs = s.attrs.iter().map(|(k, t)| Ins::Attrs(vec![(k.clone(), t.clone())])).collect();
    let mut f = vec![];
    if !s.class.is_empty() { f.push(Ins::Class(s.class.clone())) }
    for k in &s.flags { f.push(Ins::Flagged(vec![k.clone()])) }
    for (l, m) in &s.meta { for (k, v) in m { f.push(Ins::Meta(l.clone(), one(k, v))) } }
    for (o, ls) in &s.lang { for (l, m) in ls { for (k, v) in m { f.push(Ins::Lang(*o, l.clone(), one(k, v))) } } }
    for (o, m) in &s.strs { for (k, v) in m { f.push(Ins::Str(*o, one(k, v))) } }
    for (k, c) in &s.codes { f.push(Ins::EntryCode(vec![(k.clone(), c.clone())])) }
    for (l, m) in &s.ents { for (k, e) in m { f.push(Ins::Entry(l.clone(), vec![(k.clone(), e.clone())])) } }
    for (t, m) in &s.links { for (k, v) in m { f.push(Ins::Link(Ty::Ref(t.clone()), one(k, v))) } }
    for (id, (meta, m)) in &s.framing {
        let mut kv: KV = meta.iter().map(|(k, v)| (k.trim_start_matches("frame_").to_string(), v.clone())).collect();
        kv.sort_by_key(|x| x.0 != "id");
        assert_eq!(&kv[0].1, id);
        for (a, fs) in m { for (t, (p, j)) in fs { f.push(Ins::Framing(kv.clone(), vec![(a.clone(), vec![(t.clone(), p.clone(), j.clone())])])) } }
    }
    (attrs, f)
}
/// Joins two instructions of one kind that may be written as one.
fn join(a: &Ins, b: &Ins) -> Option<Ins> {
    let cat = |x: &KV, y: &KV| { let mut z = x.clone(); z.extend(y.clone()); z };
    Some(match (a, b) {
        (Ins::Attrs(x), Ins::Attrs(y)) => { let mut z = x.clone(); z.extend(y.clone()); Ins::Attrs(z) }
        (Ins::Flagged(x), Ins::Flagged(y)) => Ins::Flagged(x.iter().chain(y).cloned().collect()),
        (Ins::Meta(l, x), Ins::Meta(m, y)) if l == m => Ins::Meta(l.clone(), cat(x, y)),
        (Ins::Lang(o, l, x), Ins::Lang(p, m, y)) if o == p && l == m => Ins::Lang(*o, l.clone(), cat(x, y)),
        (Ins::Str(o, x), Ins::Str(p, y)) if o == p => Ins::Str(*o, cat(x, y)),
        (Ins::EntryCode(x), Ins::EntryCode(y)) => { let mut z = x.clone(); z.extend(y.clone()); Ins::EntryCode(z) }
        (Ins::Entry(l, x), Ins::Entry(m, y)) if l == m => { let mut z = x.clone(); z.extend(y.clone()); Ins::Entry(l.clone(), z) }
        (Ins::Link(t, x), Ins::Link(u, y)) if t == u => Ins::Link(t.clone(), cat(x, y)),
        (Ins::Framing(m, x), Ins::Framing(n, y)) if m == n && x[0].0 != y[0].0 && !x.iter().any(|q| q.0 == y[0].0) => { let mut z = x.clone(); z.extend(y.clone()); Ins::Framing(m.clone(), z) }
        _ => return None,
    })
}
/// The content of a state declared in another order and grouping.
pub fn reexpress(s: &State, shuffle: &[u16]) -> Vec<Ins> {
    let (attrs, facts) = facts(s);
    let r = |i: usize| -> u64 { let x = shuffle.get(i % shuffle.len().max(1)).copied().unwrap_or(0) as u64; (x + 1).wrapping_mul(0x9e3779b97f4a7c15).wrapping_add((i as u64) << 32).wrapping_mul(0xbf58476d1ce4e5b9) >> 20 };
    // every attribute comes before the facts about it: attributes get early random ranks, facts later ones, and the two
    // overlap only where the fact mentions no attribute that is declared later
    let mut order: Vec<(u64, Ins)> = attrs.into_iter().enumerate().map(|(i, x)| (r(i) % 1000, x)).collect();
    order.extend(facts.into_iter().enumerate().map(|(i, x)| (if matches!(x, Ins::Meta(..) | Ins::Class(_)) { r(i + 77) % 3000 } else { 1000 + r(i + 77) % 2000 }, x)));
    order.sort_by_key(|x| x.0);
    let mut out: Vec<Ins> = vec![];
    for (i, (_, x)) in order.into_iter().enumerate() {
        // sometimes attach to the most recent instruction of the same kind
        if r(i + 500) % 2 == 0 {
            let after_attrs = !matches!(x, Ins::Attrs(_));
            if let Some((p, j)) = out.iter().enumerate().rev().find_map(|(p, y)| join(y, &x).map(|j| (p, j))) {
                // an attribute may always be declared earlier; a fact may not move before the declarations it needs
                let needs_ok = !after_attrs || out[p..].iter().all(|y| !matches!(y, Ins::Attrs(_)));
                if needs_ok { out[p] = j; continue }
            }
        }
        out.push(x);
    }
    out
}
/// One change of the declared content.
fn edit(s: &State, e: &(u16, u16, String)) -> State {
    let (mut attrs, mut f) = facts(s);
    let n = attrs.len() + f.len();
    let at = e.0 as usize % (n + 1);
    let bump = |v: &String| if e.1 % 3 == 0 && !e.2.is_empty() { e.2.clone() } else if e.1 % 3 == 1 { format!("{v}x") } else { let mut c: Vec<char> = v.chars().collect(); if c.is_empty() { c.push('y') } else { let i = (e.1 / 3) as usize % c.len(); c[i] = if c[i] == 'q' { 'r' } else { 'q' } } c.into_iter().collect() };
    if at == n { f.push(Ins::Meta("de".into(), vec![("zz".into(), e.2.clone())])); }
    else if at < attrs.len() {
        let Ins::Attrs(a) = &mut attrs[at] else { unreachable!() };
        match e.1 % 3 {
            0 => a[0].1 = Ty::Arr(Box::new(a[0].1.clone())),
            1 => a[0].1 = if a[0].1 == Ty::Text { Ty::Numeric } else { Ty::Text },
            _ => { let name = format!("{}_new", a[0].0); attrs.push(Ins::Attrs(vec![(name, Ty::Text)])); }
        }
    } else {
        let at = at - attrs.len();
        if e.1 % 5 == 0 { f.remove(at); }
        else { match &mut f[at] {
            Ins::Class(c) => *c = bump(c),
            Ins::Meta(_, kv) | Ins::Lang(_, _, kv) | Ins::Link(_, kv) => kv[0].1 = bump(&kv[0].1),
            Ins::Str(SO::Enc, kv) => kv[0].1 = ENCODINGS[(ENCODINGS.iter().position(|x| *x == kv[0].1).unwrap() + 1 + e.1 as usize % 5) % 6].into(),
            Ins::Str(_, kv) => kv[0].1 = bump(&kv[0].1),
            Ins::EntryCode(v) => v[0].1 = match &v[0].1 { Codes::Ref(_) => Codes::List(vec!["x".into()]), Codes::List(l) => { let mut l = l.clone(); if l.is_empty() || e.1 % 2 == 0 { l.push(e.2.clone()) } else { l[0] = bump(&l[0]) } Codes::List(l) } Codes::Groups(g) => { let mut g = g.clone(); if g.is_empty() || e.1 % 2 == 0 { if !g.iter().any(|x| x.0 == e.2) { g.push((e.2.clone(), vec![])) } } else { g[0].1.push(e.2.clone()) } Codes::Groups(g) } },
            Ins::Entry(_, v) => v[0].1 = match &v[0].1 { Ents::Ref(_) => Ents::Map(vec![("x".into(), "y".into())]), Ents::Map(m) => { let mut m = m.clone(); if m.is_empty() || e.1 % 2 == 0 { if !m.iter().any(|x| x.0 == e.2) { m.push((e.2.clone(), "1".into())) } } else { m[0].1 = bump(&m[0].1) } Ents::Map(m) } },
            Ins::Framing(_, v) => { let fr = &mut v[0].1[0]; match e.1 % 3 { 0 => fr.0 = format!("{}x", fr.0), 1 => fr.1 = bump(&fr.1), _ => fr.2 = bump(&fr.2) } }
            _ => {}
        } }
    }
    attrs.extend(f);
    State::of(&attrs)
}
/// Identifier of a JSON object computed independently: the digest of its text with the identifier blanked out.
pub fn digest(v: &Value) -> String {
    let mut v = v.clone();
    v["d"] = serde_json::json!("#".repeat(44));
    said_of(&v.to_string())
}
pub fn check_digests(v: &Value) -> Res {
    ensure_eq!(v["capture_base"]["d"].as_str().unwrap_or(""), digest(&v["capture_base"]), "identifier of the capture base");
    for o in overlays(v) { ensure_eq!(o["d"].as_str().unwrap_or(""), digest(&o), "identifier of the overlay {o}"); }
    ensure_eq!(v["d"].as_str().unwrap_or(""), digest(v), "identifier of the bundle {v}");
    Ok(())
}
fn id_case() -> BoxedStrategy<IdCase> {
    (program(FULL), vec(any::<u16>(), 1..30), (any::<u16>(), any::<u16>(), text(FULL))).prop_map(|(prog, shuffle, edit)| IdCase { prog, shuffle, edit }).boxed()
}
fn check07(c: &IdCase, o: &mut Obs) -> Res {
    let s = State::of(&c.prog);
    o.nontrivial = s.facts() >= 6 && s.overlay_count() >= 2;
    let p2 = reexpress(&s, &c.shuffle);
    if p2.is_empty() { o.class("empty"); return Ok(()); }
    assert_eq!(State::of(&p2).expected(), s.expected(), "harness: re-expressed content differs");
    o.sample = Some(format!("{}--- the same declared as\n{}", plain_text(&c.prog), plain_text(&p2)));
    let a = util::build_ok(None, &ast_of(&c.prog))?;
    let b = util::build_ok(None, &ast_of(&p2))?;
    let (ja, jb) = (util::encode(&a.oca_bundle)?, util::encode(&b.oca_bundle)?);
    ensure!(ja == jb, "the same content declared in another order gives another bundle\n{}---\n{}\n{ja}\n{jb}", plain_text(&c.prog), plain_text(&p2));
    ensure_eq!(util::encode(&a.oca_bundle)?, ja, "two encodings of one bundle differ");
    let again = util::build_ok(None, &ast_of(&c.prog))?;
    ensure_eq!(util::encode(&again.oca_bundle)?, ja, "building twice gives different bundles");
    ensure_eq!(util::said(&b.oca_bundle), util::said(&a.oca_bundle), "identifiers");
    let v: Value = serde_json::from_str(&ja).unwrap();
    ensure_eq!(v["d"].as_str().unwrap_or(""), util::said(&a.oca_bundle), "identifier inside the JSON");
    check_digests(&v)?;
    // one edit
    let e = edit(&s, &c.edit);
    let same = e.expected() == s.expected();
    let (mut pe, f) = facts(&e);
    pe.extend(f);
    if pe.is_empty() { return Ok(()); }
    let d = util::build_ok(None, &ast_of(&pe))?;
    o.class(if same { "edit-without-effect" } else { "edit" });
    ensure!((util::said(&d.oca_bundle) == util::said(&a.oca_bundle)) == same, "bundle identifiers are {} for contents that are {}\n{}---\n{}", if same { "different" } else { "equal" }, if same { "equal" } else { "different" }, plain_text(&c.prog), plain_text(&pe));
    if !same {
        let ve: Value = serde_json::from_str(&util::encode(&d.oca_bundle)?).unwrap();
        // the objects that differ have other identifiers, the others the same
        let strip = |v: &Value| -> BTreeSet<(String, String)> { overlays(v).into_iter().map(|o| { let d = o["d"].as_str().unwrap().to_string(); let mut x = o.clone(); x.as_object_mut().unwrap().remove("d"); (d, model::canon(x).to_string()) }).collect() };
        for (da, xa) in strip(&v) { for (de, xe) in strip(&ve) { ensure!((da == de) == (xa == xe), "overlay identifiers {da} and {de} for\n{xa}\n{xe}"); } }
        let same_cb = e.expected()["capture_base"] == s.expected()["capture_base"];
        ensure_eq!(v["capture_base"]["d"] == ve["capture_base"]["d"], same_cb, "capture base identifiers equal, for contents equal");
    }
    Ok(())
}
fn check07b(c: &IdCase, o: &mut Obs) -> Res {
    use std::io::Write;
    use std::process::{Command, Stdio};
    o.nontrivial = nt_bundle(&c.prog);
    let text = plain_text(&c.prog);
    let here = util::bundle_json(&util::build_text(&text)?.oca_bundle)?;
    let mut ch = Command::new(std::env::current_exe().unwrap()).args(["child", "--only", "dump"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
    ch.stdin.take().unwrap().write_all(text.as_bytes()).unwrap();
    let out = ch.wait_with_output().unwrap();
    ensure!(out.status.success(), "another process fails to build\n{text}");
    let s = String::from_utf8_lossy(&out.stdout).to_string();
    let there: Value = serde_json::from_str(s.rsplit("=====\n").next().unwrap_or("").trim()).map_err(|e| Fail(format!("another process answers {s}: {e}")))?;
    ensure!(there.to_string() == here.to_string(), "another process builds another bundle of\n{text}\n{here}\n{there}");
    Ok(())
}
pub fn p07(ctx: &Ctx) {
    ctx.campaign("orders", 30_000, 1_500_000, id_case, check07);
    ctx.campaign("sizes", 250, 10_000, || (big(200), vec(any::<u16>(), 1..30), (any::<u16>(), any::<u16>(), text(FULL))).prop_map(|(b, shuffle, edit)| IdCase { prog: b.program(), shuffle, edit }).boxed(), check07);
    ctx.campaign("processes", 160, 4_000, id_case, check07b);
}

// ---------------------------------------------------------------- P08

fn same_bundle(a: &OCABundle, b: &OCABundle, what: &str) -> Res {
    ensure_eq!(util::said(a), util::said(b), "bundle identifier, {what}");
    ensure_eq!(a.capture_base.said, b.capture_base.said, "capture base identifier, {what}");
    let ids = |x: &OCABundle| -> BTreeSet<String> { x.overlays.iter().map(|o| format!("{:?} {:?}", o.said(), o.overlay_type())).collect() };
    ensure_eq!(ids(a), ids(b), "overlay identifiers, {what}");
    ensure_eq!(util::encode(a)?, util::encode(b)?, "encoded bundle, {what}");
    Ok(())
}
fn check08(c: &Prog, o: &mut Obs) -> Res {
    o.nontrivial = nt_bundle(&c.prog);
    super::p_parse::classes(&c.prog, o);
    let text = plain_text(&c.prog);
    o.sample = Some(text.clone());
    let b = util::build_ok(None, &ast_of(&c.prog))?.oca_bundle;
    let js = util::encode(&b)?;
    let l = match util::load(&js)? { Ok(l) => l, Err(e) => return fail(format!("an encoded bundle cannot be loaded: {e}\n{text}\n{js}")) };
    same_bundle(&l, &b, &format!("after loading\n{text}"))?;
    ensure_eq!(value(&l)?, value(&b)?, "loaded bundle of\n{text}");
    // the plain serialization, as it is stored
    let l2: OCABundle = guard("loading", || serde_json::from_str::<OCABundle>(&js))?.map_err(|e| Fail(format!("{e}\n{js}")))?;
    same_bundle(&l2, &b, "after deserializing")?;
    for (how, x) in [("loaded", l), ("built", b.clone())] {
        let again = guard("regenerating a bundle", || OCABox::from(x).generate_bundle())?;
        same_bundle(&again, &b, &format!("after regenerating the {how} bundle of\n{text}"))?;
    }
    Ok(())
}
pub fn p08(ctx: &Ctx) {
    for k in ["type", "d", "capture_base", "language"] {
        let t = format!("ADD META en PROPS {k}=\"x\"\n");
        ctx.probe(&format!("meta-{k}"), &t, || {
            // refused, or read back
            let Ok(b) = util::build(None, &util::parse_ok(&t)?)? else { return Ok(()) };
            let js = util::encode(&b.oca_bundle)?;
            match util::load(&js)? { Ok(l) => same_bundle(&l, &b.oca_bundle, "after loading"), Err(e) => fail(format!("an encoded bundle cannot be loaded: {e}\n{js}")) }
        });
    }
    ctx.campaign("programs", 40_000, 2_000_000, progs, check08);
    ctx.campaign("sizes", 3_000, 150_000, bigs, check08);
}

// ---------------------------------------------------------------- P09

fn check09(c: &Prog, o: &mut Obs) -> Res {
    o.nontrivial = nt_bundle(&c.prog);
    super::p_parse::classes(&c.prog, o);
    let b = util::build_ok(None, &ast_of(&c.prog))?.oca_bundle;
    let s = State::of(&c.prog);
    let text = guard("converting to an OCAfile", || oca_rs::facade::build::parse_oca_bundle_to_ocafile(&b))?;
    o.sample = Some(text.clone());
    if s.facts() == 0 && s.class.is_empty() { o.class("nothing-declared"); return Ok(()); }
    let again = match guard("building", || oca_rs::facade::build::build_from_ocafile(text.clone()))? { Ok(b) => b, Err(e) => return fail(format!("the OCAfile of a bundle does not build: {e:?}\n{text}--- from\n{}", plain_text(&c.prog))) };
    same_bundle(&again, &b, &format!("rebuilt from\n{text}--- which comes from\n{}", plain_text(&c.prog)))?;
    // the same for the bundle loaded from JSON
    if let Ok(l) = util::load(&util::encode(&b)?)? {
        let t2 = guard("converting to an OCAfile", || oca_rs::facade::build::parse_oca_bundle_to_ocafile(&l))?;
        let again = match guard("building", || oca_rs::facade::build::build_from_ocafile(t2.clone()))? { Ok(b) => b, Err(e) => return fail(format!("the OCAfile of a loaded bundle does not build: {e:?}\n{t2}")) };
        same_bundle(&again, &b, "rebuilt from the loaded bundle")?;
    }
    Ok(())
}
pub fn p09(ctx: &Ctx) {
    ctx.probe("K09A", "ADD ATTRIBUTE a=Text\nREMOVE ATTRIBUTE a\n", || {
        let b = util::build_text("ADD ATTRIBUTE a=Text\nREMOVE ATTRIBUTE a\n")?.oca_bundle;
        let text = oca_rs::facade::build::parse_oca_bundle_to_ocafile(&b);
        match oca_rs::facade::build::build_from_ocafile(text.clone()) { Ok(x) => same_bundle(&x, &b, "rebuilt"), Err(e) => fail(format!("the OCAfile {text:?} of an empty bundle does not build: {e:?}")) }
    });
    let t = "ADD ATTRIBUTE a=Text --b=Text\nADD ATTR_FRAMING id=f ATTRS a={\"t\": {\"predicate_id\": \"p\", \"framing_justification\": \"j\"}} --b={\"t\": {\"predicate_id\": \"p\", \"framing_justification\": \"j\"}}\n";
    ctx.probe("K09B", t, || {
        // the order of attributes in the printed text is random
        for _ in 0..60 {
            let b = util::build_text(t)?.oca_bundle;
            let text = oca_rs::facade::build::parse_oca_bundle_to_ocafile(&b);
            match oca_rs::facade::build::build_from_ocafile(text.clone()) { Ok(x) => same_bundle(&x, &b, "rebuilt")?, Err(e) => return fail(format!("the OCAfile of a bundle does not build: {e:?}\n{text}")) }
        }
        Ok(())
    });
    ctx.campaign("programs", 40_000, 2_000_000, progs, check09);
    ctx.campaign("sizes", 2_000, 100_000, bigs, check09);
}

// ---------------------------------------------------------------- P13

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SplitCase { pub prog: Vec<Ins>, pub cut: u16 }
fn part(a: &OCAAst, from: usize, to: usize) -> OCAAst { let mut x = OCAAst::new(); x.commands = a.commands[from..to].to_vec(); x }
fn same_build(a: &OCABuild, b: &OCABuild, what: &str) -> Res {
    ensure_eq!(a.steps.len(), b.steps.len(), "number of steps, {what}");
    for (n, (x, y)) in a.steps.iter().zip(&b.steps).enumerate() {
        ensure_eq!(x.parent_said, y.parent_said, "parent of step {}, {what}", n + 1);
        ensure_eq!(x.command, y.command, "instruction of step {}, {what}", n + 1);
        ensure_eq!(x.result.said, y.result.said, "result of step {}, {what}", n + 1);
    }
    same_bundle(&a.oca_bundle, &b.oca_bundle, what)
}
fn check13(c: &SplitCase, o: &mut Obs) -> Res {
    let ast = util::parse_ok(&plain_text(&c.prog))?;
    let n = ast.commands.len();
    let cut = 1 + c.cut as usize % n;
    o.nontrivial = n >= 4 && cut < n;
    let text = plain_text(&c.prog);
    o.sample = Some(format!("{text}# split after instruction {cut}\n"));
    let all = util::build_ok(None, &ast)?;
    ensure_eq!(all.steps.len(), n, "number of steps of\n{text}");
    let mut prev = None;
    for (i, st) in all.steps.iter().enumerate() {
        ensure_eq!(st.parent_said, prev, "parent of step {} of\n{text}", i + 1);
        ensure_eq!(st.command, ast.commands[i], "instruction of step {} of\n{text}", i + 1);
        ensure_eq!(format!("{:?}", st.command), format!("{:?}", ast.commands[i]), "instruction of step {} of\n{text}", i + 1);
        let p = util::build_ok(None, &part(&ast, 0, i + 1))?;
        same_bundle(&st.result, &p.oca_bundle, &format!("step {} against building the prefix alone\n{text}", i + 1))?;
        prev = st.result.said.clone();
    }
    same_bundle(&all.oca_bundle, &all.steps[n - 1].result, "final bundle against the last step")?;
    // continue from the prefix
    let head = util::build_ok(None, &part(&ast, 0, cut))?;
    let loaded = util::load(&util::encode(&head.oca_bundle)?)?.map_err(|e| Fail(format!("prefix bundle cannot be loaded: {e}")))?;
    for (how, base) in [("the prefix bundle", head.oca_bundle.clone()), ("the loaded prefix bundle", loaded)] {
        let tail = util::build_ok(Some(base), &part(&ast, cut, n))?;
        let want = OCABuild { oca_bundle: all.oca_bundle.clone(), steps: vec![] };
        ensure_eq!(tail.steps.len(), n - cut, "number of steps from {how}");
        for (x, y) in tail.steps.iter().zip(&all.steps[cut..]) { ensure_eq!(x.parent_said, y.parent_said, "parent of a step from {how}\n{text}"); ensure_eq!(x.command, y.command, "instruction"); same_bundle(&x.result, &y.result, &format!("continuing from {how} (after {cut} instructions)\n{text}"))?; }
        same_bundle(&tail.oca_bundle, &want.oca_bundle, &format!("continuing from {how} (after {cut} instructions)\n{text}"))?;
    }
    same_build(&util::build_ok(None, &ast)?, &all, "a second build")
}
pub fn p13(ctx: &Ctx) {
    ctx.campaign("splits", 12_000, 600_000, || (program(FULL), any::<u16>()).prop_map(|(prog, cut)| SplitCase { prog, cut }).boxed(), check13);
    ctx.campaign("sizes", 1_000, 50_000, || (big(1000), any::<u16>()).prop_map(|(b, cut)| SplitCase { prog: b.program(), cut }).boxed(), check13);
}
