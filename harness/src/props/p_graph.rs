//! P37 the version graph (`oca_dag_semantics::versioning`).
use super::p_build::ast_of;
use crate::engine::*;
use crate::gen::*;
use crate::{ensure, ensure_eq, model, util};
use oca_ast_semantics::ast::{BundleContent, Command, CommandType, OCAAst, ObjectKind, RefValue, ReferenceAttrType};
use oca_bundle_semantics::build::apply_command;
use oca_bundle_semantics::state::oca::OCABox;
use oca_dag_semantics::data_storage::{DataStorage, SledDataStorage};
use oca_dag_semantics::versioning::{ocafile::build_oca, Graph};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::str::FromStr;
use std::sync::{Arc, Mutex};

pub const RULE37: &str = "cases are (a) histories of builds into one store (fresh, from any version stored before or from an unknown one; with a failing instruction; with the store failing once, or reopened), the whole store being compared with the versions, parents and instructions of a step-by-step build, (b) graphs of nodes with names of any length and script, read back. Non-trivial: at least 2 builds and 4 instructions, or at least 3 nodes of which two share a parent.";

/// A store in memory which fails at one chosen write.
#[derive(Clone, Default)]
struct Mem { map: Arc<Mutex<BTreeMap<String, Vec<u8>>>>, left: Arc<Mutex<Option<usize>>> }
impl DataStorage for Mem {
    fn open(_: &str) -> Self { Self::default() }
    fn get(&self, key: &str) -> Result<Option<Vec<u8>>, String> { Ok(self.map.lock().unwrap().get(key).cloned()) }
    fn insert(&self, key: &str, value: &[u8]) -> Result<(), String> {
        let mut left = self.left.lock().unwrap();
        if *left == Some(0) { return Err("the disk is full".into()) }
        if let Some(n) = left.as_mut() { *n -= 1 }
        self.map.lock().unwrap().insert(key.into(), value.into());
        Ok(())
    }
}
/// A database is closed in the background; until then it cannot be opened again.
fn sled(path: &str) -> Box<dyn DataStorage> {
    for _ in 0..20_000 {
        let db = SledDataStorage::open(path);
        if db.get("").is_ok() { return Box::new(db) }
        std::thread::sleep(std::time::Duration::from_millis(1));
    }
    Box::new(SledDataStorage::open(path))
}
/// The blocks of a record: each is its length (bytes of 255 that are to be continued, and a last one) and its content.
fn blocks(mut r: &[u8]) -> Result<Vec<String>, Fail> {
    let mut out = vec![];
    while !r.is_empty() {
        let mut len = 0;
        loop { let Some((b, rest)) = r.split_first() else { return fail("a record ends in a length") }; r = rest; len += *b as usize; if *b < 255 { break } }
        ensure!(len <= r.len(), "a record ends within a block");
        let (b, rest) = r.split_at(len);
        out.push(String::from_utf8(b.to_vec()).map_err(|e| Fail(e.to_string()))?);
        r = rest;
    }
    Ok(out)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Run { /** the version to start from, if any: one stored before, or an unknown one */ from: Option<u16>, prog: Vec<Ins>, ghost: Option<u16>, fault: Option<u16>, reopen: bool }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct GraphCase { runs: Vec<Run>, sled: bool }
fn run(prog: BoxedStrategy<Vec<Ins>>, faults: bool) -> BoxedStrategy<Run> {
    (proptest::option::weighted(0.6, any::<u16>()), prog, proptest::option::weighted(0.1, any::<u16>()), if faults { proptest::option::weighted(0.3, 0u16..40).boxed() } else { Just(None).boxed() }, any::<bool>()).prop_map(|(from, prog, ghost, fault, reopen)| Run { from, prog, ghost, fault, reopen }).boxed()
}
fn runs(sled: bool) -> BoxedStrategy<GraphCase> { vec(run(program(FULL), !sled), 1..5).prop_map(move |runs| GraphCase { runs, sled }).boxed() }
fn from(said: &str) -> Result<Command, Fail> {
    let said = said::SelfAddressingIdentifier::from_str(said).map_err(|e| Fail(e.to_string()))?;
    Ok(Command { kind: CommandType::From, object_kind: ObjectKind::OCABundle(BundleContent { said: ReferenceAttrType::Reference(RefValue::Said(said)) }) })
}
fn check37(c: &GraphCase, o: &mut Obs) -> Res {
    let scratch = tempfile::tempdir().map_err(|e| Fail(e.to_string()))?;
    let path = scratch.path().join("graph");
    let path = path.to_str().unwrap();
    let mem = Mem::default();
    let open = || -> Box<dyn DataStorage> { if c.sled { sled(path) } else { Box::new(mem.clone()) } };
    let mut db = open();
    // identifier -> (document, records of each way it came to be)
    let mut want: BTreeMap<String, (String, Vec<Vec<String>>)> = BTreeMap::new();
    let mut bundles = BTreeMap::new();
    let mut log = String::new();
    o.nontrivial = c.runs.len() >= 2 && c.runs.iter().map(|r| r.prog.len()).sum::<usize>() >= 4;
    for r in &c.runs {
        if r.reopen && c.sled {
            drop(std::mem::replace(&mut db, Box::new(Mem::default())));
            db = open();
            o.class("reopened");
        }
        let known: Vec<&String> = want.keys().collect();
        let mut cmds: Vec<Command> = r.prog.iter().map(model::command).collect();
        let ghost = r.ghost.map(|g| g as usize % (cmds.len() + 1));
        if let Some(g) = ghost { cmds.insert(g, model::command(&Ins::Lang(LO::Label, "en".into(), vec![("no such attribute".into(), "x".into())]))); o.class("failing-instruction") }
        let mut base = None;
        let mut unknown = false;
        let start_at = r.from.filter(|f| f % 8 == 0 || !known.is_empty());
        if let Some(f) = start_at {
            let said = match if f % 8 == 0 { None } else { Some(f as usize / 8 % known.len()) } { Some(i) => known[i].clone(), None => { unknown = true; said_pool()[f as usize / 8 % said_pool().len()].clone() } };
            log.push_str(&format!("# FROM {said}{}\n", if unknown { " (unknown)" } else { "" }));
            base = bundles.get(&said).cloned();
            cmds.insert(0, from(&said)?);
            o.class(if unknown { "from-unknown" } else { "from-known" });
        } else { log.push_str("# from nothing\n") }
        log.push_str(&plain_text(&r.prog));
        if let Some(g) = ghost { log.push_str(&format!("# with an unknown attribute before instruction {}\n", g + 1)) }
        // what each instruction makes, one at a time
        let mut made: Vec<(String, String, Vec<String>)> = vec![];
        let mut failed = unknown;
        let start = base.clone();
        let mut cur: Option<OCABox> = start.clone().map(OCABox::from);
        if !unknown {
            for cmd in cmds.iter().skip(start_at.is_some() as usize) {
                match guard("applying an instruction", || apply_command(cur.clone(), cmd.clone()))? {
                    Ok(mut x) => {
                        let b = guard("generating a bundle", || x.generate_bundle())?;
                        let said = util::said(&b);
                        made.push((said.clone(), util::encode(&b)?, vec![base.as_ref().map(util::said).unwrap_or_default(), serde_json::to_string(cmd).unwrap()]));
                        bundles.insert(said, b.clone());
                        base = Some(b);
                        cur = Some(x);
                    }
                    Err(_) => { failed = true; break }
                }
            }
            // the same instructions as a file (which may not declare an attribute twice)
            let mut all = OCAAst::new();
            all.commands = cmds[start_at.is_some() as usize..].to_vec();
            match util::build(start, &all)? {
                Ok(b) => ensure!(!failed && base.as_ref().map(util::said) == Some(util::said(&b.oca_bundle)), "built at once: {}, one at a time: {:?}\n{log}", util::said(&b.oca_bundle), base.as_ref().map(util::said)),
                Err(e) => { ensure!(failed || start_at.is_some() || all.commands.is_empty(), "rejected: {e:?}\n{log}"); o.class_if(!failed && start_at.is_some(), "declared-again") }
            }
        }
        let go = |db: &Box<dyn DataStorage>, log: &str| guard("building into the graph", || build_oca(db.clone(), cmds.clone())).map_err(|Fail(m)| Fail(format!("{m}\n{log}")));
        *mem.left.lock().unwrap() = r.fault.map(|f| f as usize);
        let mut res = go(&db, &log)?;
        if mem.left.lock().unwrap().take() == Some(0) && res.is_err() && !c.sled {
            o.class("fault");
            log.push_str(&format!("# after {} writes the store fails once\n", r.fault.unwrap()));
            // nothing is there that should not be; a version is not there without a way it came to be
            let m = mem.map.lock().unwrap().clone();
            for (k, v) in &m {
                let Some(k) = k.strip_prefix("oca.") else { return fail(format!("unexpected record {k:?}\n{log}")) };
                let (id, op) = match k.strip_suffix(".operation") { Some(id) => (id, true), None => (k, false) };
                let old = want.get(id);
                let new: Vec<_> = made.iter().filter(|x| x.0 == id).collect();
                ensure!(old.is_some() || !new.is_empty(), "a record of {id}, which was not made\n{log}");
                if op { let b = blocks(v)?; ensure!(old.is_some_and(|x| x.1.contains(&b)) || new.iter().any(|x| x.2 == b), "wrong operation of {id}: {b:?}\n{log}") }
                else { let t = String::from_utf8_lossy(v); ensure!(old.is_some_and(|x| x.0 == t) || new.iter().any(|x| x.1 == t), "wrong document of {id}: {t}\n{log}") }
            }
            res = go(&db, &log)?;
        }
        for (said, doc, op) in made { let e = want.entry(said).or_insert((doc, vec![])); e.1.push(op) }
        match &res {
            Ok(b) => {
                ensure!(!failed, "a build that cannot be carried out was reported as done: {}\n{log}", util::said(b));
                ensure_eq!(Some(util::said(b)), base.as_ref().map(util::said), "result of\n{log}");
                ensure_eq!(util::encode(b)?, util::encode(base.as_ref().unwrap())?, "result of\n{log}");
            }
            Err(e) => ensure!(failed || base.is_none(), "a build failed: {e}\n{log}"),
        }
        // the whole store
        if !c.sled { let n = mem.map.lock().unwrap().len(); ensure_eq!(n, 2 * want.len(), "number of records of\n{log}") }
        for (said, (doc, ops)) in &want {
            let g = |k: String| -> Result<Option<Vec<u8>>, Fail> { guard("reading the graph", || db.get(&k))?.map_err(Fail) };
            let got = g(format!("oca.{said}"))?.map(|v| String::from_utf8_lossy(&v).to_string());
            ensure_eq!(got.as_ref(), Some(doc), "stored version {said} of\n{log}");
            let Some(op) = g(format!("oca.{said}.operation"))? else { return fail(format!("no operation of version {said}\n{log}")) };
            let op = blocks(&op)?;
            ensure!(ops.contains(&op), "operation of version {said}: {op:?}, made by {ops:?}\n{log}");
        }
    }
    o.sample = Some(log);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Nodes { adds: Vec<(u8, Option<u8>)>, names: Vec<String>, sled: bool }
fn nodes() -> BoxedStrategy<Nodes> {
    let name = prop_oneof![4 => "[a-zA-Z0-9_.-]{1,12}", 2 => text(FULL), 1 => ("[a-z]{1,3}", 1usize..400).prop_map(|(s, n)| s.repeat(n)), 1 => ("[a-z]", proptest::sample::select(vec![253usize, 254, 255, 256, 509, 510, 511, 765])).prop_map(|(s, n)| s.repeat(n))];
    (vec((any::<u8>(), proptest::option::weighted(0.8, any::<u8>())), 1..30), vec(name, 2..9), proptest::bool::weighted(0.02)).prop_map(|(adds, names, sled)| Nodes { adds, names, sled }).boxed()
}
fn check37n(c: &Nodes, o: &mut Obs) -> Res {
    let scratch = tempfile::tempdir().map_err(|e| Fail(e.to_string()))?;
    let path = scratch.path().join("graph");
    let db: Box<dyn DataStorage> = if c.sled { sled(path.to_str().unwrap()) } else { Box::new(Mem::default()) };
    let graph = Graph { db: db.clone() };
    let name = |i: u8| c.names[i as usize % c.names.len()].as_str();
    let mut parents: BTreeMap<&str, Vec<String>> = BTreeMap::new();
    let mut children: BTreeMap<&str, Vec<String>> = BTreeMap::new();
    for (new, to) in &c.adds {
        let (new, to) = (name(*new), to.map(name));
        match guard("adding a node", || graph.add(new, to)).map_err(|Fail(m)| Fail(format!("{m}: {new:?} to {to:?}")))? { Ok(()) => {} Err(e) => return fail(format!("adding {new:?} to {to:?}: {e}")) }
        parents.insert(new, to.iter().map(|t| t.to_string()).collect());
        if let Some(to) = to { children.entry(to).or_default().push(new.to_string()) }
    }
    o.nontrivial = parents.len() >= 3 && children.values().any(|v| v.len() > 1);
    o.class_if(c.names.iter().any(|n| n.len() >= 255), "long-name");
    o.sample = Some(format!("{:?}", c.adds.iter().map(|(n, t)| (name(*n), t.map(name))).collect::<Vec<_>>()));
    for n in &c.names {
        for (kind, m) in [("upscending", &parents), ("downscending", &children)] {
            let got = guard("reading the graph", || db.get(&format!("{n}.{kind}")))?.map_err(Fail)?;
            let got = match got { Some(r) => Some(blocks(&r)?), None => None };
            ensure_eq!(got.as_ref(), m.get(n.as_str()), "{kind} of {n:?} after {:?}", c.adds.iter().map(|(n, t)| (name(*n), t.map(name))).collect::<Vec<_>>());
        }
    }
    Ok(())
}
pub fn p37(ctx: &Ctx) {
    ctx.probe("nothing", "no instructions", || match guard("building nothing", || build_oca(Box::new(Mem::default()), vec![]))? { Ok(_) => fail("a bundle without instructions"), Err(_) => Ok(()) });
    for (id, v) in [("no-text", vec![0xffu8, 0xfe]), ("no-document", b"{}".to_vec()), ("empty", vec![])] {
        ctx.probe(id, "FROM a stored version that cannot be read", || {
            let said = said_pool()[0].clone();
            let m = Mem::default();
            m.insert(&format!("oca.{said}"), &v).unwrap();
            let cmds: Vec<Command> = vec![from(&said)?].into_iter().chain(ast_of(&[Ins::Attrs(vec![("a".into(), Ty::Text)])]).commands).collect();
            match guard("building from an unreadable version", || build_oca(Box::new(m), cmds))? { Err(_) => Ok(()), Ok(_) => fail("built from a version that cannot be read") }
        });
    }
    ctx.campaign("nodes", 20_000, 1_000_000, nodes, check37n);
    ctx.campaign("builds", 6_000, 300_000, || runs(false), check37);
    ctx.campaign("sizes", 300, 15_000, || vec(run(big(100).prop_map(|b| b.program()).boxed(), true), 1..3).prop_map(|runs| GraphCase { runs, sled: false }).boxed(), check37);
    ctx.campaign("sled", 300, 15_000, || runs(true), check37);
}
