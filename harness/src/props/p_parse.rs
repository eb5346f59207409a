//! P01 parser totality, P02 parse fidelity, P03 print/parse round trip.
use crate::engine::*;
use crate::gen::*;
use super::p_valid::FVal;
use crate::{ensure, ensure_eq, model, util};
use indexmap::IndexMap;
use oca_ast_semantics::ast::{NestedValue, OCAAst, ObjectKind, OverlayType};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub const RULE01: &str = "cases are texts: rendered valid programs with 1-6 random edits (delete, duplicate, swap, insert token or character), random token sequences from the grammar's vocabulary, and arbitrary unicode; each goes through all three parsers twice. Non-trivial: at least 8 characters and at least one parser got past the first line or rejected with a position after it.";
pub const RULE02: &str = "cases are generated programs (all overlays, nested types, references, removals, FROM) with generated layout (keyword case, spacing, continuations with comments and blank lines, quoting style, CRLF, missing final newline); oracle: the command list built from the abstract program. Non-trivial: at least 3 instructions of at least 3 kinds.";
pub const RULE03: &str = "cases are parsed generated programs; oracle: print then parse gives the same command list, compared including key order. Non-trivial: at least 3 instructions of at least 3 kinds.";

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TextCase { pub text: String }

const TOKENS: &[&str] = &[
    "ADD ", "add ", "REMOVE ", "MODIFY ", "FROM ", "RENAME ", "LINK ", "ATTRIBUTE ", "ATTRS ", "PROPS ", "META ", "LABEL ", "INFORMATION ", "CHARACTER_ENCODING ", "FORMAT ", "CONFORMANCE ", "CONDITION ",
    "CARDINALITY ", "ENTRY_CODE ", "ENTRY ", "UNIT ", "ATTR_FRAMING ", "FLAGGED_ATTRIBUTES ", "CLASSIFICATION ", "Text", "Numeric", "Array[", "]", "refs:", "refn:", "a", "b.c", "a=Text ", "a=Array[Text] ", "a=\"x\" ", "a='y' ",
    "=", "\"", "'", "{", "}", "[", "[]", "{}", ",", ":", " ", "\t", "\\", "\\\n", "\n", "\r\n", "\r", "#", "# c\n", "-- ", "-- name=foo\n", "-- version=1\n", "-- precompiler=semantics\n", "-- precompiler=transformation\n", "-- precompiler=zzz\n",
    "-- source=refs:x\n", "-- target=y\n", "->", "a -> b ", "en ", "pl-PL ", "xx ", "zz ", "id=\"f\" ", "label=x ", "{\"k\": {\"predicate_id\": \"p\", \"framing_justification\": \"j\"}}", "{\"g\": [\"c\"]}", "[\"a\", \"b\"]", "é", "\u{0}", "\u{1f}", "\u{feff}",
    "EJVVlVSZJqVNnuAMLHLkeSQgwfxYLWTKBELi9e8j1PW0", "refs:EJVVlVSZJqVNnuAMLHLkeSQgwfxYLWTKBELi9e8j1PW0", "E", "${a}",
];
#[derive(Clone, Debug)]
enum Edit { Del(u16, u8), Dup(u16, u8), Tok(u16, usize), Chr(u16, char), Cut(u16), Swap(u16, u16) }
fn edit() -> BoxedStrategy<Edit> {
    prop_oneof![
        (any::<u16>(), 1u8..12).prop_map(|(p, n)| Edit::Del(p, n)), (any::<u16>(), 1u8..30).prop_map(|(p, n)| Edit::Dup(p, n)),
        (any::<u16>(), 0..TOKENS.len()).prop_map(|(p, t)| Edit::Tok(p, t)), (any::<u16>(), any::<char>()).prop_map(|(p, c)| Edit::Chr(p, c)),
        any::<u16>().prop_map(Edit::Cut), (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Edit::Swap(a, b)),
    ].boxed()
}
fn mutate(text: &str, edits: &[Edit]) -> String {
    let mut c: Vec<char> = text.chars().collect();
    for e in edits {
        let n = c.len().max(1);
        let at = |p: &u16| (*p as usize) % n;
        match e {
            Edit::Del(p, k) => { let a = at(p).min(c.len()); let b = (a + *k as usize).min(c.len()); c.drain(a..b); }
            Edit::Dup(p, k) => { let a = at(p).min(c.len()); let b = (a + *k as usize).min(c.len()); let s: Vec<char> = c[a..b].to_vec(); c.splice(b..b, s); }
            Edit::Tok(p, t) => { let a = at(p).min(c.len()); c.splice(a..a, TOKENS[*t].chars()); }
            Edit::Chr(p, x) => { let a = at(p).min(c.len()); c.insert(a, *x) }
            Edit::Cut(p) => { let a = at(p).min(c.len()); c.truncate(a) }
            Edit::Swap(a, b) => { if !c.is_empty() { let (a, b) = (at(a), at(b)); c.swap(a, b) } }
        }
    }
    c.into_iter().collect()
}
/// Transformation files, valid by construction.
pub fn trans_text() -> BoxedStrategy<String> {
    let line = prop_oneof![
        Just("-- source=refs:EJVVlVSZJqVNnuAMLHLkeSQgwfxYLWTKBELi9e8j1PW0\n".to_string()), Just("-- target=refs:EJVVlVSZJqVNnuAMLHLkeSQgwfxYLWTKBELi9e8j1PW0\n".to_string()), Just("-- precompiler=transformation\n".to_string()),
        vec(("[a-z_0-9-]{1,5}", "[a-z_0-9-]{1,5}"), 1..4).prop_map(|v| format!("RENAME ATTRIBUTE {}\n", v.iter().map(|(a, b)| format!("{a}={b}")).collect::<Vec<_>>().join(" "))),
        vec(("[a-z_0-9-]{1,5}", "[a-z_0-9-]{1,5}"), 1..4).prop_map(|v| format!("LINK ATTRIBUTE {}\n", v.iter().map(|(a, b)| format!("{a} -> {b}")).collect::<Vec<_>>().join(" "))),
        Just("# c\n".to_string()), Just("\n".to_string()),
    ];
    vec(line, 1..6).prop_map(|v| v.concat()).boxed()
}
/// Identifiers with something wrong: cut, another derivation code, a foreign character.
pub fn mangled_said() -> BoxedStrategy<String> {
    (proptest::sample::select(said_pool().clone()), 0usize..46, proptest::sample::select(vec!["", "0", "E", "0D", "1", "-", "é", "日", "0é", "F", "0A", "="]), 0u8..4).prop_map(|(s, n, x, k)| match k {
        0 => s[..n.min(s.len())].to_string(),
        1 => format!("{x}{}", &s[..n.min(s.len())]),
        2 => { let mut v: Vec<char> = s.chars().collect(); let n = n.min(v.len() - 1); v.splice(n..n + 1, x.chars()); v.into_iter().collect() }
        _ => { let mut v: Vec<char> = s.chars().collect(); let l = x.chars().count(); v.splice(0..l, x.chars()); v.into_iter().collect() }
    }).prop_map(|s| if s.is_empty() { "0".into() } else { s }).boxed()
}
pub fn any_text() -> BoxedStrategy<TextCase> {
    let valid = (program(FULL), lay(), prop_oneof![2 => Just(vec![]), 1 => Just(vec![("precompiler".to_string(), "semantics".to_string()), ("name".to_string(), "x".to_string())])])
        .prop_map(|(p, l, m)| render_meta(&p, &m, &l).text);
    let base = prop_oneof![3 => valid.boxed(), 1 => trans_text()];
    prop_oneof![
        4 => (base, vec(edit(), 1..7)).prop_map(|(t, e)| mutate(&t, &e)),
        4 => vec(0..TOKENS.len(), 1..30).prop_map(|v| v.into_iter().map(|i| TOKENS[i]).collect::<String>()),
        1 => vec(any::<char>(), 0..40).prop_map(|v| v.into_iter().collect::<String>()),
        1 => (1usize..60, proptest::sample::select(vec!["Array[", "{\"a\":", "\\\"", "(", "[", "\\\n"])).prop_map(|(n, s)| format!("ADD ATTRIBUTE a={}", s.repeat(n))),
        2 => mangled_said().prop_flat_map(|id| proptest::sample::select(vec!["FROM {}", "ADD ATTRIBUTE a=refs:{}", "ADD ATTRIBUTE a=Array[refs:{}]", "ADD ATTRIBUTE a=Text\nADD LINK refs:{} ATTRS a=\"b\"", "ADD ATTRIBUTE a=Text\nADD ENTRY_CODE ATTRS a=\"{}\"", "ADD ATTRIBUTE a=Text\nADD ENTRY_CODE ATTRS a=refs:{}",
            "ADD ATTRIBUTE a=Text\nADD ENTRY en ATTRS a=refs:{}", "ADD ATTRIBUTE a=Text\nADD LABEL en ATTRS a=\"refs:{}\"", "-- precompiler=transformation\n-- source=refs:{}\n-- target=refs:{}\nRENAME ATTRIBUTE a=b"]).prop_map(move |f| format!("{}\n", f.replace("{}", &id)))),
        1 => (1usize..40).prop_map(|n| format!("ADD ATTR_FRAMING id=x ATTRS a={}\"v\"{}", "{\"k\": ".repeat(n), "}".repeat(n))),
    ].prop_map(|text| TextCase { text }).boxed()
}

fn check01(c: &TextCase, o: &mut Obs) -> Res {
    let t = &c.text;
    o.sample = Some(t.clone());
    let mut ok = vec![];
    for (name, f) in [
        ("semantic", (|t: &str| format!("{:?}", oca_file_semantics::ocafile::parse_from_string(t.to_string()).map(|a| { let mut m: Vec<_> = a.meta.into_iter().collect(); m.sort(); (a.version, a.commands, a.commands_meta, m) }))) as fn(&str) -> String),
        ("transformation", |t: &str| format!("{:?}", oca_file_transformation::ocafile::parse_from_string(t.to_string()).map(|a| { let mut m: Vec<_> = a.meta.into_iter().collect(); m.sort(); (a.version, a.commands, a.commands_meta, m) }))),
        ("top-level", |t: &str| match oca_file::ocafile::parse_from_string(t.to_string()) {
            Ok(oca_file::ocafile::OCAAst::SemanticsAst(a)) => { let mut m: Vec<_> = a.meta.into_iter().collect(); m.sort(); format!("Ok({:?})", (a.version, a.commands, a.commands_meta, m)) }
            Ok(oca_file::ocafile::OCAAst::TransformationAst(a)) => { let mut m: Vec<_> = a.meta.into_iter().collect(); m.sort(); format!("Ok({:?})", (a.version, a.commands, a.commands_meta, m)) }
            Err(e) => format!("Err({e:?})"),
        }),
    ] {
        let r1 = guard(&format!("{name} parser"), || f(t))?;
        let r2 = guard(&format!("{name} parser"), || f(t))?;
        ensure_eq!(r1, r2, "{name} parser gives two results for one text");
        ok.push(r1.starts_with("Ok"));
        o.class(format!("{name}:{}", if r1.starts_with("Ok") { "ok" } else if r1.contains("GrammarError") { "grammar-error" } else { "other-error" }));
        if r1.contains("line_number") && !r1.contains("line_number: 1,") || r1.starts_with("Ok") { o.nontrivial = t.len() >= 8; }
    }
    Ok(())
}
pub fn p01(ctx: &Ctx) {
    for (id, what) in [("K01A", "nest-array"), ("K01B", "nest-framing"), ("K01C", "escapes")] {
        ctx.probe(id, what, || child_ok(what));
    }
    ctx.campaign("texts", 400_000, 12_000_000, any_text, check01);
    ctx.campaign("nested", 2_000, 100_000, nested, check01);
    ctx.campaign("sizes", 8_000, 300_000, || (big(1000), lay(), vec(edit(), 0..4)).prop_map(|(b, l, e)| TextCase { text: mutate(&render_meta(&b.program(), &[], &l).text, &e) }).boxed(), check01);
}
/// Types and framing values nested up to 300 levels deep, sometimes left open.
fn nested() -> BoxedStrategy<TextCase> {
    (1usize..300, 0usize..3, any::<bool>(), "[a-z]{1,3}").prop_map(|(n, cut, arrays, k)| {
        let (head, open, mid, close) = if arrays { ("ADD ATTRIBUTE a=", "Array[".to_string(), "Text".to_string(), "]") } else { ("ADD ATTRIBUTE a=Text\nADD ATTR_FRAMING id=x ATTRS a=", if n % 2 == 0 { format!("{{\"p\": {{\"q\": \"r\"}}, \"{k}\": ") } else { format!("{{\"{k}\":") }, "\"v\"".to_string(), "}") };
        TextCase { text: format!("{head}{}{mid}{}\n", open.repeat(n), close.repeat(n.saturating_sub(cut))) }
    }).boxed()
}
/// Runs a piece of work in its own process on an ordinary stack.
pub fn child_ok(what: &str) -> Res {
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.arg("child").arg("--only").arg(what).stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    let st = c.status().map_err(|e| Fail(e.to_string()))?;
    ensure!(st.success(), "the process ended with {st} on input {what}");
    Ok(())
}
pub fn child(what: &str) {
    let t = match what {
        "nest-array" => format!("ADD ATTRIBUTE a={}Text{}\n", "Array[".repeat(100_000), "]".repeat(100_000)),
        "nest-framing" => format!("ADD ATTR_FRAMING id=x ATTRS a={}\"v\"{}\n", "{\"k\": ".repeat(50_000), "}".repeat(50_000)),
        "escapes" => format!("ADD LABEL en ATTRS a=\"{}\"\n", "\\n".repeat(200_000)),
        _ => panic!("unknown child {what}"),
    };
    let r = oca_file_semantics::ocafile::parse_from_string(t);
    // the result is large and recursive; leave it to the end of the process
    std::mem::forget(r);
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ProgCase { pub prog: Vec<Ins>, pub meta: Vec<(String, String)>, pub lay: Lay }
pub fn metas() -> BoxedStrategy<Vec<(String, String)>> {
    vec((proptest::sample::select(vec!["name", "version", "precompiler"]).prop_map(String::from), prop_oneof![3 => "[A-Za-z0-9._/:-]{1,8}".boxed(), 1 => text(FULL).prop_map(|s| if s.is_empty() { "x y".to_string() } else { s })]), 0..3).boxed()
}
pub fn prog_case(cfg: Cfg) -> BoxedStrategy<ProgCase> {
    let names = "[A-Za-z][A-Za-z0-9._:/-]{0,7}";
    let extra = prop_oneof![
        3 => Just(None),
        1 => proptest::sample::select(said_pool().clone()).prop_map(|s| Some((true, Ins::From(s)))),
        1 => (names, names, 0u8..4).prop_map(|(k, n, d)| Some((false, Ins::Attrs(vec![(format!("zz.{k}").replace(['/', ':'], "_"), (0..d).fold(Ty::Name(n), |t, _| Ty::Arr(Box::new(t))))])))),
        1 => (names, text(cfg)).prop_map(|(n, v)| Some((false, Ins::Link(Ty::Name(n), vec![("a".into(), v)])))),
        1 => vec(prop_oneof![3 => attr_name(), 1 => text(cfg)], 1..4).prop_map(|v| Some((false, Ins::Flagged(v)))),
        2 => ("[A-Za-z]{2}(-[A-Za-z]{2})?", vec(prop_oneof![2 => proptest::sample::select(vec!["name", "description", "d", "en", "attrs", "PROPS"]).prop_map(String::from), 1 => "[A-Za-z0-9][A-Za-z0-9_-]{0,5}"], 0..4), any::<bool>()).prop_map(|(l, v, meta)| { let mut s = std::collections::BTreeSet::new(); let v = v.into_iter().filter(|x| x != "lang" && s.insert(x.clone())).collect(); Some((false, if meta { Ins::RmMeta(l, v) } else { Ins::RmLabel(l, v) })) }),
        1 => vec(("[A-Za-z][A-Za-z0-9_-]{0,5}", text(cfg)), 1..4).prop_map(|v| { let mut s = std::collections::BTreeSet::new(); Some((false, Ins::EncProps(v.into_iter().filter(|x| s.insert(x.0.clone())).collect()))) }),
    ];
    // languages with a region, which parse but do not build, attributes named twice in one instruction, nothing to remove
    let twist = prop_oneof![6 => Just(None), 1 => (any::<u8>(), any::<u8>(), "[A-Za-z]{2}", text(cfg)).prop_map(Some)];
    (program(cfg), extra, metas(), lay(), twist).prop_map(move |(mut prog, extra, meta, lay, twist)| {
        if let Some((how, at, region, v)) = twist { if how % 8 == 7 { prog.insert(1 + at as usize % prog.len(), Ins::RmAttrs(vec![])) } for (n, i) in prog.iter_mut().enumerate() {
            if n % 3 != at as usize % 3 { continue }
            match i {
                // the second mention of an attribute counts, in the place of the first
                Ins::Attrs(a) if how % 3 == 2 && !a.is_empty() => { let (k, t) = a[at as usize % a.len()].clone(); let t = if how % 2 == 0 { Ty::Arr(Box::new(t)) } else if t == Ty::Text { Ty::Numeric } else { Ty::Text }; a.push((k, t)) }
                Ins::RmAttrs(a) if how % 3 == 2 && !a.is_empty() => { let k = a[at as usize % a.len()].clone(); a.push(k) }
                // so does the last of the groups and entries of one name
                Ins::EntryCode(a) if how % 6 == 5 && matches!(a.last(), Some((_, Codes::Groups(g))) if !g.is_empty()) => { let Some((_, Codes::Groups(g))) = a.last_mut() else { continue }; let k = g[at as usize % g.len()].0.clone(); g.push((k, vec![region.clone(), v.clone()])) }
                Ins::Entry(_, a) if how % 6 == 5 && matches!(a.last(), Some((_, Ents::Map(m))) if !m.is_empty()) => { let Some((_, Ents::Map(m))) = a.last_mut() else { continue }; let k = m[at as usize % m.len()].0.clone(); m.push((k, v.clone())) }
                Ins::EntryCode(a) if how % 3 == 2 && !a.is_empty() => { let k = a[at as usize % a.len()].0.clone(); a.push((k, Codes::List(vec![region.clone()]))) }
                Ins::Entry(_, a) if how % 3 == 2 && !a.is_empty() => { let k = a[at as usize % a.len()].0.clone(); a.push((k, Ents::Map(vec![(region.clone(), v.clone())]))) }
                Ins::Link(_, a) if how % 3 == 2 && !a.is_empty() => { let k = a[at as usize % a.len()].0.clone(); a.push((k, v.clone())) }
                Ins::RmClass | Ins::RmAttrs(_) | Ins::RmMeta(..) | Ins::RmLabel(..) => {}
                Ins::Meta(l, _) | Ins::Lang(_, l, _) | Ins::Entry(l, _) if how % 3 == 0 => { if how % 2 == 0 { *l = region.clone() } else { *l = format!("{l}-{region}") } }
                Ins::Meta(_, kv) | Ins::Lang(_, _, kv) | Ins::Str(_, kv) if how % 3 == 1 && !kv.is_empty() => { let k = kv[at as usize % kv.len()].0.clone(); kv.push((k, v.clone())) }
                _ => {}
            }
        } }
        match extra { Some((true, i)) if cfg.refs => prog.insert(0, i), Some((false, i)) if cfg.refs => prog.push(i), _ => {} }
        ProgCase { prog, meta, lay }
    }).boxed()
}
pub fn big_case() -> BoxedStrategy<ProgCase> { (big(2000), lay()).prop_map(|(b, lay)| ProgCase { prog: b.program(), meta: vec![], lay }).boxed() }
pub fn nontrivial(p: &[Ins]) -> bool { p.len() >= 3 && p.iter().map(|i| i.tag()).collect::<std::collections::BTreeSet<_>>().len() >= 3 }
pub fn classes(p: &[Ins], o: &mut Obs) { for t in p.iter().map(|i| i.tag()).collect::<std::collections::BTreeSet<_>>() { o.class(t) } }

fn check02(c: &ProgCase, o: &mut Obs) -> Res {
    let r = render_meta(&c.prog, &c.meta, &c.lay);
    o.sample = Some(r.text.clone());
    o.nontrivial = nontrivial(&c.prog);
    classes(&c.prog, o);
    o.class_if(r.text.contains("\r\n"), "crlf");
    o.class_if(r.text.contains("\\\n") || r.text.contains("\\\r"), "continuation");
    o.class_if(!r.text.ends_with('\n'), "no-final-newline");
    let ast = util::parse_ok(&r.text)?;
    ensure_eq!(ast.commands.len(), c.prog.len(), "number of instructions of\n{}", r.text);
    for (got, want) in ast.commands.iter().zip(&c.prog) { ensure_eq!(model::show_unordered(got), model::show_unordered(&model::command(want)), "instruction parsed wrongly in\n{}", r.text); }
    let want: std::collections::BTreeMap<_, _> = c.meta.iter().cloned().collect();
    let got: std::collections::BTreeMap<_, _> = ast.meta.into_iter().collect();
    ensure_eq!(got, want, "meta comments of\n{}", r.text);
    // the same text handed to the parser for files of unknown kind
    if !c.meta.iter().any(|m| m.0 == "precompiler") {
        match guard("top-level parser", || oca_file::ocafile::parse_from_string(r.text.clone()))? {
            Ok(oca_file::ocafile::OCAAst::SemanticsAst(a)) => ensure_eq!(a.commands, ast.commands, "top-level parser"),
            Ok(_) => return fail("a semantic file was taken for a transformation"),
            Err(e) => return fail(format!("top-level parser rejects a well-formed file: {e}")),
        }
    }
    Ok(())
}
// framing values of any form, nested into each other
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NestCase { attrs: Vec<(String, Vec<(String, FVal)>)>, id: String, after: String, lay: Lay }
fn nest_case() -> BoxedStrategy<NestCase> {
    let key = || prop_oneof![3 => proptest::sample::select(vec!["predicate_id", "framing_justification", "Note", "a", "A", "ADD", "id", ""]).prop_map(String::from).boxed(), 2 => text(FULL)];
    let leaf = prop_oneof![8 => text(FULL), 1 => vec(text(FULL), 20..60).prop_map(|v| v.join(" ")).prop_filter("quotable", |t| !(unescaped(t, '"') && unescaped(t, '\'')))].prop_map(FVal::Text);
    let val = leaf.prop_recursive(5, 30, 4, move |inner| vec((key(), inner), 1..4).prop_map(FVal::Obj));
    let val = (val, prop_oneof![20 => Just(0usize), 1 => 1..40usize]).prop_map(|(v, n)| (0..n).fold(v, |v, i| FVal::Obj(vec![(format!("k{i}"), v)])));
    let key = || prop_oneof![1 => "[a-zA-Z]{1,6}", 1 => text(FULL)];
    (vec((attr_name(), vec((key(), val), 1..4)), 1..4), "[A-Za-z0-9/:.]{1,8}", "[a-z]{1,4}", lay()).prop_map(|(attrs, id, after, lay)| { let mut s = std::collections::BTreeSet::new(); NestCase { attrs: attrs.into_iter().filter(|a| s.insert(a.0.clone())).collect(), id, after, lay } }).boxed()
}
fn nest_text(v: &FVal, l: &mut Lay, s: &mut String) {
    const GAPS: [&str; 5] = ["", " ", "\n", "\n  ", "\t"];
    match v {
        FVal::Text(t) => quote(t, l, s),
        FVal::Obj(v) => {
            s.push('{');
            for (i, (k, x)) in v.iter().enumerate() {
                s.push_str(GAPS[l.of(5) as usize]);
                quote(k, l, s);
                s.push_str(["", " "][l.of(2) as usize]); s.push(':'); s.push_str(["", " ", "\n"][l.of(3) as usize]);
                nest_text(x, l, s);
                if i + 1 < v.len() || l.of(3) == 1 { s.push_str(["", " "][l.of(2) as usize]); s.push(',') }
            }
            s.push_str(GAPS[l.of(5) as usize]);
            s.push('}');
        }
    }
}
fn quote(v: &str, l: &mut Lay, s: &mut String) {
    let (dq, sq) = (!unescaped(v, '"'), !unescaped(v, '\''));
    let c = if !dq || sq && l.of(4) == 1 { '\'' } else { '"' };
    s.push(c); s.push_str(v); s.push(c);
}
fn nest_value(v: &FVal) -> NestedValue {
    match v { FVal::Text(t) => NestedValue::Value(t.clone()), FVal::Obj(v) => NestedValue::Object(FVal::map(v).into_iter().map(|(k, v)| (k, nest_value(v))).collect()) }
}
fn nest_file(c: &NestCase) -> String {
    let mut l = c.lay.clone();
    let mut t = format!("ADD ATTR_FRAMING id=\"{}\" ATTRS", c.id);
    for (k, v) in &c.attrs { t.push_str(&format!(" {k}=")); nest_text(&FVal::Obj(v.clone()), &mut l, &mut t) }
    format!("{t}\nADD ATTRIBUTE {}=Text\n", c.after)
}
fn depth(v: &FVal) -> usize { match v { FVal::Text(_) => 0, FVal::Obj(v) => 1 + v.iter().map(|x| depth(&x.1)).max().unwrap_or(0) } }
fn nest_ast(c: &NestCase, o: &mut Obs) -> Result<(String, OCAAst), Fail> {
    let text = nest_file(c);
    o.sample = Some(text.clone());
    let d = c.attrs.iter().map(|a| depth(&FVal::Obj(a.1.clone()))).max().unwrap_or(0);
    o.nontrivial = d >= 3;
    o.class(format!("depth:{}", d.min(8)));
    let ast = util::parse_ok(&text)?;
    ensure_eq!(ast.commands.len(), 2, "number of instructions of\n{text}");
    Ok((text, ast))
}
fn check02n(c: &NestCase, o: &mut Obs) -> Res {
    let (text, ast) = nest_ast(c, o)?;
    let ObjectKind::Overlay(OverlayType::AttributeFraming(_), content) = &ast.commands[0].object_kind else { return fail(format!("no framing: {:?}", ast.commands[0])) };
    let want: IndexMap<String, NestedValue> = c.attrs.iter().map(|(k, v)| (k.clone(), nest_value(&FVal::Obj(v.clone())))).collect();
    ensure_eq!(content.attributes.as_ref(), Some(&want), "framings of\n{text}");
    Ok(())
}
fn check03n(c: &NestCase, o: &mut Obs) -> Res {
    let (text, ast) = nest_ast(c, o)?;
    let printed = guard("printing", || oca_file_semantics::ocafile::generate_from_ast(&ast))?;
    let again = match util::parse(&printed)? { Ok(a) => a, Err(e) => return fail(format!("printed OCAfile does not parse: {e}\n--- printed\n{printed}\n--- from\n{text}")) };
    ensure_eq!(again.commands, ast.commands, "changed by printing\n{printed}\n--- from\n{text}");
    Ok(())
}
const RM_META: &str = "ADD ATTRIBUTE a=Text\nADD META en PROPS k=\"v\" j=\"w\"\nADD LABEL fr ATTRS a=\"l\"\n";
pub fn p02(ctx: &Ctx) {
    for (id, l) in [("remove-meta", "REMOVE META en PROPS k\n"), ("remove-label", "REMOVE LABEL fr ATTRS a\n")] {
        let t = format!("{RM_META}{l}");
        ctx.probe(id, &t, || {
            let ast = util::parse_ok(&t)?;
            let c = format!("{:?}", ast.commands.last());
            let lang = if id == "remove-meta" { "\"en\"" } else { "\"fr\"" };
            ensure!(c.contains(lang), "the language is lost: {c}");
            ensure!(c.contains(if id == "remove-meta" { "\"k\"" } else { "\"a\"" }), "the key to remove is lost: {c}");
            Ok(())
        });
    }
    ctx.campaign("programs", 200_000, 6_000_000, || prog_case(FULL), check02);
    ctx.campaign("framings", 15_000, 800_000, nest_case, check02n);
    ctx.campaign("sizes", 5_000, 200_000, big_case, check02);
}

fn check03(c: &ProgCase, o: &mut Obs) -> Res {
    let text = render(&c.prog, &c.lay).text;
    o.nontrivial = nontrivial(&c.prog);
    classes(&c.prog, o);
    let ast = util::parse_ok(&text)?;
    let printed = guard("printing", || oca_file_semantics::ocafile::generate_from_ast(&ast))?;
    o.sample = Some(printed.clone());
    let again = match util::parse(&printed)? { Ok(a) => a, Err(e) => return fail(format!("printed OCAfile does not parse: {e}\n--- printed\n{printed}\n--- from\n{text}")) };
    ensure_eq!(again.commands.len(), ast.commands.len(), "number of instructions after printing\n{printed}");
    for (a, b) in again.commands.iter().zip(&ast.commands) { ensure_eq!(model::show(a), model::show(b), "instruction changed by printing\n{printed}"); }
    Ok(())
}
pub fn p03(ctx: &Ctx) {
    for (id, l) in [("remove-meta", "REMOVE META en PROPS k\n"), ("remove-label", "REMOVE LABEL fr ATTRS a\n")] {
        let t = format!("{RM_META}{l}");
        ctx.probe(id, &t, || {
            let ast = util::parse_ok(&t)?;
            let printed = guard("printing", || oca_file_semantics::ocafile::generate_from_ast(&ast))?;
            let again = util::parse_ok(&printed)?;
            ensure_eq!(again.commands, ast.commands, "changed by printing");
            Ok(())
        });
    }
    ctx.campaign("programs", 200_000, 6_000_000, || prog_case(FULL), check03);
    ctx.campaign("framings", 15_000, 800_000, nest_case, check03n);
    ctx.campaign("sizes", 5_000, 200_000, big_case, check03);
}
