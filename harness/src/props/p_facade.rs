//! P14–P21, P27, P28, P31: histories of a facade, compared with a model of everything ever accepted.
use super::p_build::{ast_of, holds, overlays};
use super::p_valid;
use crate::engine::*;
use crate::gen::*;
use crate::model::State;
use crate::{ensure, ensure_eq, util};
use oca_ast_semantics::ast::{self, ObjectKind};
use oca_bundle_semantics::build::OCABuild;
use oca_bundle_semantics::state::oca::OCABundle;
use oca_rs::data_storage::{DataStorage, FileSystemStorage, FileSystemStorageConfig, InMemoryDataStorage, Namespace, SledDataStorage, SledDataStorageConfig};
use oca_rs::facade::build::{Error, ValidationError};
use oca_rs::repositories::SQLiteConfig;
use oca_rs::Facade;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::str::FromStr;
use std::sync::{Arc, Mutex};

#[path = "p_facade_more.rs"]
mod p_facade_more;
pub use p_facade_more::{p13, p20, p28, p31, p33, p36};

pub const RULE14: &str = "cases are histories of a facade over in-memory, sled and file system stores (new files, files starting from earlier bundles and steps, names, references, resubmissions, rejected files, restarts); oracle: after every operation every identifier handed out so far fetches the very bundle an independent build gives, resubmission leaves the listings unchanged. Non-trivial: at least 3 accepted files, one of them a resubmission or a restart in between.";
pub const RULE15: &str = "cases are histories of a facade in a small content space, so that earlier versions are reached again by other ways; oracle: for every known identifier reading the history ends (reads are counted), starts from nothing, is linked, every step is one of the derivations that were submitted, and both regenerated forms rebuild the identifier. Non-trivial: at least 4 steps, and either a file starting from an earlier bundle or a version reached twice.";
pub const RULE16: &str = "cases are histories ending in rejected files of nine kinds (syntax, undeclared attributes, rules, unknown names in four positions, unknown starting bundle with or without further instructions, starting bundle with a later error, transformation file, no instructions), built or only validated; oracle: exact snapshots of both stores, the listings, search and names before and after, and the error naming what is wrong. Non-trivial: something was stored before.";
pub const RULE17: &str = "cases are histories with references (direct, in arrays, in nested arrays; by identifier or name; to bundles, steps and unknown identifiers); oracle: transitive closure over the model. Non-trivial: a bundle with at least two dependencies, or a missing one.";
pub const RULE18: &str = "cases are histories with names given again and again and references to known and unknown names in four positions; oracle: a name table and an independent build of the file with the identifiers written out. Non-trivial: a name is used after being given.";
pub const RULE19: &str = "cases are histories in a small content space (shared capture bases), then every page of every page size up to two more than there are items; oracle: the set of accepted bundles and their capture bases. Non-trivial: at least 3 bundles.";
pub const RULE20: &str = "cases are sets of bundles whose metadata is made of a small vocabulary in several languages, and queries of words and parts of words in any case, and arbitrary query text; oracle: substring match per language for word queries; no abort and an unharmed facade for every text. Non-trivial: a word query that finds some but not all bundles, or a query text with a character that is not alphanumeric.";
pub const RULE21: &str = "cases are histories in a small content space (shared capture bases and overlays); oracle: the relation between bundles, capture bases and overlays of the accepted files, for every known identifier and for never stored ones. Non-trivial: a capture base or an overlay belongs to two bundles.";
pub const RULE27: &str = "cases are histories and lists of identifiers; oracle: the objects inside the bundles, as JSON. Non-trivial: at least 2 bundles and a list of at least 3 identifiers.";
pub const RULE28: &str = "cases are (a) builds of generated programs compared with a reference version graph, step by step, (b) histories of a facade whose stored version records are decoded and compared with the graphs of everything accepted. Non-trivial: at least 4 steps over at least 2 kinds of objects.";
pub const RULE31: &str = "cases are histories whose last file is interrupted (the process dies) before a chosen store write, followed by a restart and resubmission; oracle: an uninterrupted run of the same history. Non-trivial: the interruption happens after the first and before the last write.";
pub const RULE33: &str = "cases are histories whose last file is built while one or more reads or writes of the stores, or transactions of the search database, fail, followed by a restart and resubmission; oracle: a run of the same history without faults. Non-trivial: a fault was met.";
pub const RULE36: &str = "cases are histories after which one to three stored records are removed, emptied, cut short, overwritten with bytes that are no text, changed in one byte, continued or replaced by another record, or rows, tables or the file of the search database are damaged, followed by every reading operation and one more build; oracle: the answers before the damage, and which records each operation looks at. Non-trivial: some operation looks at a damaged record.";

// ---------------------------------------------------------------- a store that can be inspected, cut off and watched

#[derive(Default)]
struct Inner { map: BTreeMap<(String, String), Vec<u8>>, reads: u64, looked: Option<BTreeSet<(String, Option<String>)>> }
/// Counts what is asked of the stores and of the search database of one world, and decides when they stop working.
#[derive(Default)]
struct Clock { writes: u64, fail_at: Option<u64>, dead: bool, asked: u64, faulty: Option<(u64, u64)>, faults: u64 }
impl Clock {
    /// One more write; whether the process has ended before it.
    fn write(&mut self) -> bool { if self.fail_at == Some(self.writes) { self.dead = true } if !self.dead { self.writes += 1 } self.dead }
    /// One more read or write; whether it fails.
    fn fails(&mut self) -> bool { let n = self.asked; self.asked += 1; let f = self.faulty.is_some_and(|(at, len)| n >= at && n - at < len); if f { self.faults += 1 } f }
}
type Shared = Arc<Mutex<Clock>>;
thread_local! { static SEARCH: std::cell::RefCell<Option<Shared>> = const { std::cell::RefCell::new(None) }; }
/// Every transaction of the search database that a planned end or fault prevents is rolled back: the hook is installed
/// in every connection this process opens and looks at the clock of the world its thread is working with.
fn watch_search() {
    use rusqlite::ffi::{sqlite3, sqlite3_api_routines, sqlite3_auto_extension, sqlite3_commit_hook};
    use std::os::raw::{c_char, c_int, c_void};
    unsafe extern "C" fn commit(_: *mut c_void) -> c_int {
        let c = SEARCH.with(|c| c.borrow().clone());
        match c { None => 0, Some(c) => { let mut c = c.lock().unwrap_or_else(|e| e.into_inner()); let end = c.write(); (end || c.fails()) as c_int } }
    }
    unsafe extern "C" fn opened(db: *mut sqlite3, _: *mut *mut c_char, _: *const sqlite3_api_routines) -> c_int { sqlite3_commit_hook(db, Some(commit), std::ptr::null_mut()); 0 }
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| unsafe { sqlite3_auto_extension(Some(std::mem::transmute::<unsafe extern "C" fn(*mut sqlite3, *mut *mut c_char, *const sqlite3_api_routines) -> c_int, unsafe extern "C" fn()>(opened))); });
}
#[derive(Clone)]
struct Mem { inner: Arc<Mutex<Inner>>, clock: Shared }
const READ_LIMIT: u64 = 200_000;
const FAULT: &str = "planned fault of the store";
impl Mem {
    fn pair() -> (Mem, Mem) { let clock = Arc::new(Mutex::new(Clock::default())); (Mem { inner: Default::default(), clock: clock.clone() }, Mem { inner: Default::default(), clock }) }
    fn dump(&self) -> BTreeMap<(String, String), Vec<u8>> { self.inner.lock().unwrap_or_else(|e| e.into_inner()).map.clone() }
    fn clock(&self) -> std::sync::MutexGuard<'_, Clock> { self.clock.lock().unwrap_or_else(|e| e.into_inner()) }
    fn writes(&self) -> u64 { self.clock().writes }
    fn plan_crash(&self, at: Option<u64>) { *self.clock() = Clock { fail_at: at, ..Clock::default() }; SEARCH.with(|s| *s.borrow_mut() = Some(self.clock.clone())); }
    fn plan_fault(&self, at: u64, len: u64) { *self.clock() = Clock { faulty: Some((at, len)), ..Clock::default() }; SEARCH.with(|s| *s.borrow_mut() = Some(self.clock.clone())); }
    fn unplan(&self) { *self.clock() = Clock::default(); SEARCH.with(|s| *s.borrow_mut() = None); }
    fn read(&self) -> Result<(), String> {
        let n = { let mut i = self.inner.lock().unwrap_or_else(|e| e.into_inner()); i.reads += 1; i.reads };
        if n > READ_LIMIT { panic!("more than {READ_LIMIT} reads of the store: this does not end") }
        if self.clock().fails() { Err(FAULT.into()) } else { Ok(()) }
    }
    /// What is looked up from now on, for `looked`.
    fn watch(&self) { self.inner.lock().unwrap_or_else(|e| e.into_inner()).looked = Some(BTreeSet::new()) }
    fn look(&self, ns: &Namespace, key: Option<&str>) { if let Some(l) = &mut self.inner.lock().unwrap_or_else(|e| e.into_inner()).looked { l.insert((ns.as_str().to_string(), key.map(|k| k.to_string()))); } }
    fn looked(&self) -> BTreeSet<(String, Option<String>)> { self.inner.lock().unwrap_or_else(|e| e.into_inner()).looked.take().unwrap_or_default() }
    fn put(&self, at: &(String, String), value: Option<Vec<u8>>) { let mut i = self.inner.lock().unwrap_or_else(|e| e.into_inner()); match value { Some(v) => { i.map.insert(at.clone(), v); } None => { i.map.remove(at); } } }
    fn fresh_reads(&self) { self.inner.lock().unwrap_or_else(|e| e.into_inner()).reads = 0 }
}
impl DataStorage for Mem {
    fn get(&self, ns: Namespace, key: &str) -> Result<Option<Vec<u8>>, String> { self.look(&ns, Some(key)); self.read()?; Ok(self.inner.lock().unwrap_or_else(|e| e.into_inner()).map.get(&(ns.as_str().to_string(), key.to_string())).cloned()) }
    fn get_all(&self, ns: Namespace) -> Result<HashMap<String, Vec<u8>>, String> { self.look(&ns, None); self.read()?; Ok(self.inner.lock().unwrap_or_else(|e| e.into_inner()).map.iter().filter(|((n, _), _)| n == ns.as_str()).map(|((_, k), v)| (k.clone(), v.clone())).collect()) }
    fn insert(&mut self, ns: Namespace, key: &str, value: &[u8]) -> Result<(), String> {
        let stop = self.clock().write();
        if stop { panic!("planned end of the process") }
        if self.clock().fails() { return Err(FAULT.into()) }
        self.inner.lock().unwrap_or_else(|e| e.into_inner()).map.insert((ns.as_str().to_string(), key.to_string()), value.to_vec());
        Ok(())
    }
    fn new() -> Self { Mem::pair().0 }
    fn config(&self, _: HashMap<String, String>) -> Self { self.clone() }
}

// ---------------------------------------------------------------- operations

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RefUse { pos: u8, target: u16, by_name: bool, depth: u8 }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    New { ops: Cont, name: Option<u8>, refs: Vec<RefUse>, lay: Lay, only_validate: bool },
    Extend { base: u16, ops: Cont, name: Option<u8>, refs: Vec<RefUse>, lay: Lay, only_validate: bool },
    Again(u16),
    Bad { kind: u8, sel: u16, ops: Cont, name: Option<u8>, text: String, lay: Lay, only_validate: bool },
    Reopen,
    /// a file of given content
    File { ins: Vec<Ins>, name: Option<u8>, refs: Vec<RefUse> },
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Kind { Mem, InMemory, Sled, Files }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist { ops: Vec<Op>, kind: Kind, sel: Vec<u16> }
pub const NAMES: [&str; 6] = ["entry", "Entry", "b.c", "A-1", "dir/x:1", "c_2"];

#[derive(Clone, Copy)]
struct W { small: bool, new: u32, extend: u32, again: u32, bad: u32, reopen: u32, refs: bool, named: bool, validate: bool, len: usize }
const PLAIN: W = W { small: false, new: 5, extend: 4, again: 1, bad: 1, reopen: 1, refs: true, named: true, validate: true, len: 7 };
fn op(w: W) -> BoxedStrategy<Op> {
    let cfg = Cfg { small: w.small, max_ops: if w.small { 4 } else { 6 }, ..FULL };
    let name = move || if w.named { proptest::option::of(0u8..NAMES.len() as u8).boxed() } else { Just(None).boxed() };
    let refs = move || if w.refs { vec((0u8..4, any::<u16>(), any::<bool>(), 2u8..4).prop_map(|(pos, target, by_name, depth)| RefUse { pos, target, by_name, depth }), 0..3).boxed() } else { Just(vec![]).boxed() };
    let only = move || if w.validate { prop_oneof![9 => Just(false), 1 => Just(true)].boxed() } else { Just(false).boxed() };
    let mut o: Vec<(u32, BoxedStrategy<Op>)> = vec![(w.new, (new_ops(cfg), name(), refs(), lay(), only()).prop_map(|(ops, name, refs, lay, only_validate)| Op::New { ops, name, refs, lay, only_validate }).boxed())];
    if w.extend > 0 { o.push((w.extend, (any::<u16>(), fmt_ops(cfg, 0..4), name(), refs(), lay(), only()).prop_map(|(base, ops, name, refs, lay, only_validate)| Op::Extend { base, ops, name, refs, lay, only_validate }).boxed())) }
    if w.again > 0 { o.push((w.again, any::<u16>().prop_map(Op::Again).boxed())) }
    if w.bad > 0 { o.push((w.bad, (0u8..KINDS, any::<u16>(), new_ops(cfg), name(), text(Cfg { dq: false, nl: false, esc: false, ..FULL }), lay(), any::<bool>()).prop_map(|(kind, sel, ops, name, text, lay, v)| Op::Bad { kind, sel, ops, name, text, lay, only_validate: v }).boxed())) }
    if w.reopen > 0 { o.push((w.reopen, Just(Op::Reopen).boxed())) }
    proptest::strategy::Union::new_weighted(o).boxed()
}
fn hist_of(w: W, kinds: Vec<(u32, Kind)>) -> BoxedStrategy<Hist> {
    let k = proptest::strategy::Union::new_weighted(kinds.into_iter().map(|(n, k)| (n, Just(k))).collect());
    (vec(op(w), 1..w.len), k, vec(any::<u16>(), 1..8)).prop_map(|(ops, kind, sel)| Hist { ops, kind, sel }).boxed()
}
/// Histories of a few large files.
fn sizes(max: u16) -> BoxedStrategy<Hist> {
    let op = prop_oneof![6 => big(max).prop_map(|b| Op::File { ins: b.program(), name: None, refs: vec![] }), 1 => any::<u16>().prop_map(Op::Again), 2 => Just(Op::Reopen)];
    (vec(op, 1..5), proptest::sample::select(vec![Kind::Mem, Kind::Mem, Kind::Sled, Kind::Files, Kind::InMemory]), prop_oneof![3 => Just(8u16).boxed(), 1 => size(max)].prop_flat_map(|n| vec(any::<u16>(), 1..n as usize + 1))).prop_map(|(ops, kind, sel)| Hist { ops, kind, sel }).boxed()
}
/// Histories of a small file or two and of large ones that refer to them, in the middle of what else they declare.
fn sizes_with_refs(max: u16) -> BoxedStrategy<Hist> {
    let refs = || vec((0u8..6, any::<u16>(), any::<bool>(), 2u8..4).prop_map(|(pos, target, by_name, depth)| RefUse { pos, target, by_name, depth }), 1..4);
    let small = (0u8..3, proptest::option::of(0u8..NAMES.len() as u8)).prop_map(|(n, name)| Op::File { ins: vec![Ins::Attrs(vec![(format!("s{n}"), Ty::Text)])], name, refs: vec![] });
    let large = (big(max), proptest::option::of(0u8..NAMES.len() as u8), refs()).prop_map(|(b, name, refs)| Op::File { ins: b.program(), name, refs });
    (vec(small, 1..3), vec(large, 1..4), vec(any::<u16>(), 1..8)).prop_map(|(mut ops, more, sel)| { ops.extend(more); Hist { ops, kind: Kind::Mem, sel } }).boxed()
}
/// Histories of many small files, which share capture bases and overlays, and refer to each other.
fn many(max: u16, refs: usize) -> BoxedStrategy<Hist> { many_of(max, refs, 67, 3, NAMES.len() as u8) }
/// Files over the given number of capture bases, each with one of the given number of labels.
fn many_of(max: u16, refs: usize, bases: u16, labels: u8, names: u8) -> BoxedStrategy<Hist> {
    let file = (0u16..bases * 3, 0u8..labels, vec((0u8..3, any::<u16>(), any::<bool>(), 2u8..4).prop_map(|(pos, target, by_name, depth)| RefUse { pos, target, by_name, depth }), 0..refs + 1), proptest::option::of(0u8..names)).prop_map(|(a, l, refs, name)| {
        let mut ins = vec![Ins::Attrs(vec![(format!("m{}", a / 3), Ty::Text), ("common".into(), Ty::Numeric)])];
        if l > 0 { ins.push(Ins::Lang(LO::Label, "en".into(), vec![("common".into(), format!("label {l}"))])); }
        if a % 3 > 0 { ins.push(Ins::Str(SO::Unit, vec![("common".into(), format!("u{}", a % 3))])); }
        Op::File { ins, name, refs }
    });
    (size(max).prop_flat_map(move |n| vec(prop_oneof![30 => file.clone(), 1 => any::<u16>().prop_map(Op::Again), 1 => Just(Op::Reopen)], n as usize)), vec(any::<u16>(), 1..8)).prop_map(|(ops, sel)| Hist { ops, kind: Kind::Mem, sel }).boxed()
}
fn hist(w: W) -> BoxedStrategy<Hist> { hist_of(w, vec![(1, Kind::Mem)]) }

// ---------------------------------------------------------------- the world

pub struct Known { pub state: State, pub bundle: OCABundle }
/// A file accepted once: its abstract form, to be submitted again.
#[derive(Clone)]
struct Sub { ins: Vec<Ins>, name: Option<String>, lay: Lay }
struct World {
    facade: Option<Facade>,
    mems: (Mem, Mem),
    dir: Option<tempfile::TempDir>,
    kind: Kind,
    known: BTreeMap<String, Known>,
    order: Vec<String>,
    built: Vec<String>,
    names: BTreeMap<String, String>,
    subs: Vec<Sub>,
    /// for every identifier, the (parent, instruction) pairs it was derived by
    derivs: BTreeMap<String, Vec<(Option<String>, String)>>,
    builds: Vec<OCABuild>,
    log: String,
    /// the files as submitted; those only validated start with `?`
    texts: Vec<String>,
    accepted: usize,
    strict: Strict,
}
/// What a file should do.
struct Plan { text: String, expect: Expect, sub: Option<Sub>, only_validate: bool }
enum Expect { Accept { build: Box<OCABuild>, state: State, states: Vec<State>, name: Option<String> }, Reject { kind: u8, mention: Option<String> } }
#[derive(Debug)]
enum Did { Accepted(String), Validated(String), Rejected, Reopened, Nothing }

pub fn scratch() -> tempfile::TempDir { tempfile::Builder::new().prefix("ocacheck").tempdir_in(if std::path::Path::new("/dev/shm").is_dir() { std::path::PathBuf::from("/dev/shm") } else { std::env::temp_dir() }).or_else(|_| tempfile::tempdir()).unwrap() }
pub fn sai(s: &str) -> said::SelfAddressingIdentifier { said::SelfAddressingIdentifier::from_str(s).unwrap() }

/// A dropped sled database gives its lock back a little later, so opening it again may need patience.
pub fn open_sled(path: &std::path::Path) -> SledDataStorage {
    for n in 0.. {
        let s = SledDataStorage::new().config(SledDataStorageConfig::build().path(path.to_path_buf()).unwrap());
        if n == 400 || s.get(Namespace::OCA, "?").is_ok() { return s }
        std::thread::sleep(std::time::Duration::from_millis(50));
    }
    unreachable!()
}
impl World {
    fn new(kind: Kind, on_disk: bool) -> World {
        SEARCH.with(|s| *s.borrow_mut() = None);
        let dir = if on_disk || matches!(kind, Kind::Sled | Kind::Files) { Some(scratch()) } else { None };
        let mut w = World { facade: None, mems: Mem::pair(), dir, kind, known: BTreeMap::new(), order: vec![], built: vec![], names: BTreeMap::new(), subs: vec![], derivs: BTreeMap::new(), builds: vec![], log: String::new(), texts: vec![], accepted: 0, strict: Strict::No };
        w.open();
        w
    }
    fn open(&mut self) {
        self.facade = None;
        let mut q = SQLiteConfig::build();
        if let Some(d) = &self.dir { q = q.path(d.path().to_path_buf()) }
        let (a, b): (Box<dyn DataStorage>, Box<dyn DataStorage>) = match self.kind {
            Kind::Mem => (Box::new(self.mems.0.clone()), Box::new(self.mems.1.clone())),
            Kind::InMemory => (Box::new(InMemoryDataStorage::new()), Box::new(InMemoryDataStorage::new())),
            Kind::Sled => { let o = |n: &str| open_sled(&self.dir.as_ref().unwrap().path().join(n)); (Box::new(o("db")), Box::new(o("cache"))) }
            Kind::Files => { let o = |n: &str| FileSystemStorage::new().config(FileSystemStorageConfig::build().path(self.dir.as_ref().unwrap().path().join(n)).unwrap()); (Box::new(o("db")), Box::new(o("cache"))) }
        };
        self.facade = Some(Facade::new(a, b, q.unwrap()));
    }
    fn f(&self) -> &Facade { self.mems.0.fresh_reads(); self.mems.1.fresh_reads(); self.facade.as_ref().unwrap() }
    fn fm(&mut self) -> &mut Facade { self.mems.0.fresh_reads(); self.mems.1.fresh_reads(); self.facade.as_mut().unwrap() }
    fn state(&self, said: &str) -> &State { &self.known[said].state }
    fn target(&self, r: &RefUse) -> Ty {
        let names: Vec<&String> = self.names.keys().collect();
        if r.by_name && !names.is_empty() { return Ty::Name(names[r.target as usize % names.len()].clone()) }
        if self.order.is_empty() || r.target % 23 == 0 { return Ty::Ref(said_pool()[r.target as usize % 5].clone()) }
        let from = if r.target % 3 > 0 && !self.built.is_empty() { &self.built } else { &self.order };
        Ty::Ref(from[r.target as usize / 3 % from.len()].clone())
    }
    fn with_refs(&self, mut ins: Vec<Ins>, before: &State, refs: &[RefUse]) -> Vec<Ins> {
        for r in refs {
            let mut s = before.clone();
            for i in &ins { s.apply(&self.resolved(i)) }
            let t = self.target(r);
            if r.pos == 3 { if let Some(a) = s.attrs.keys().next() { ins.push(Ins::Link(t, vec![(a.clone(), "linked".into())])) } continue }
            let name = (0..).map(|n| format!("r{n}")).find(|n| !s.attrs.contains_key(n)).unwrap();
            let depth = match r.pos { 0 => 0, 1 => 1, _ => r.depth };
            // among the attributes that are there already, at either end
            if r.pos >= 4 { if let Some(Ins::Attrs(a)) = ins.iter_mut().find(|i| matches!(i, Ins::Attrs(_))) { let at = if r.pos == 4 { a.len() } else { 0 }; a.insert(at, (name, (0..r.depth - 2).fold(t, |t, _| Ty::Arr(Box::new(t))))); continue } }
            ins.push(Ins::Attrs(vec![(name, (0..depth).fold(t, |t, _| Ty::Arr(Box::new(t))))]));
        }
        ins
    }
    fn resolve_ty(&self, t: &Ty) -> Ty { match t { Ty::Name(n) => Ty::Ref(self.names[n].clone()), Ty::Arr(t) => Ty::Arr(Box::new(self.resolve_ty(t))), t => t.clone() } }
    /// The instruction with names replaced by what they stand for now.
    fn resolved(&self, i: &Ins) -> Ins {
        match i {
            Ins::Attrs(a) => Ins::Attrs(a.iter().map(|(k, t)| (k.clone(), self.resolve_ty(t))).collect()),
            Ins::Link(t, a) => Ins::Link(self.resolve_ty(t), a.clone()),
            i => i.clone(),
        }
    }
    fn accept(&self, sub: Sub, only_validate: bool) -> Result<Plan, Fail> {
        let meta: Vec<(String, String)> = sub.name.iter().map(|n| ("name".to_string(), n.clone())).collect();
        let text = render_meta(&sub.ins, &meta, &sub.lay).text;
        let (base, rest) = match sub.ins.first() { Some(Ins::From(s)) => (Some(s.clone()), &sub.ins[1..]), _ => (None, &sub.ins[..]) };
        let rest: Vec<Ins> = rest.iter().map(|i| self.resolved(i)).collect();
        let mut state = base.as_ref().map_or(State::default(), |b| self.state(b).clone());
        let states: Vec<State> = rest.iter().map(|i| { state.apply(i); state.clone() }).collect();
        let build = util::build_ok(base.as_ref().map(|b| self.known[b].bundle.clone()), &ast_of(&rest))?;
        ensure_eq!(build.steps.len(), rest.len(), "steps of\n{text}");
        let name = sub.name.clone();
        Ok(Plan { text, expect: Expect::Accept { build: Box::new(build), state, states, name }, sub: Some(sub), only_validate })
    }
    fn plan(&self, op: &Op) -> Result<Option<Plan>, Fail> {
        let nm = |n: &Option<u8>| n.map(|n| NAMES.get(n as usize).map_or_else(|| format!("{}{n}", ["n", "N", "entry", "a/b."][n as usize % 4]), |n| n.to_string()));
        Ok(match op {
            Op::Reopen => None,
            Op::New { ops, name, refs, lay, only_validate } => {
                let ins = self.with_refs(ops.clone().resolve(vec![], false), &State::default(), refs);
                Some(self.accept(Sub { ins, name: nm(name), lay: lay.clone() }, *only_validate)?)
            }
            Op::Extend { base, ops, name, refs, lay, only_validate } => {
                if self.order.is_empty() { return Ok(None) }
                let said = self.order[*base as usize % self.order.len()].clone();
                let s = self.state(&said);
                let mut ins = self.with_refs(ops.clone().resolve(s.attrs.keys().cloned().collect(), !s.class.is_empty()), s, refs);
                ins.insert(0, Ins::From(said));
                Some(self.accept(Sub { ins, name: nm(name), lay: lay.clone() }, *only_validate)?)
            }
            Op::File { ins, name, refs } => { let ins = self.with_refs(ins.clone(), &State::default(), refs); Some(self.accept(Sub { ins, name: nm(name), lay: Lay::default() }, false)?) }
            Op::Again(n) => { if self.subs.is_empty() { return Ok(None) } Some(self.accept(self.subs[*n as usize % self.subs.len()].clone(), false)?) }
            Op::Bad { kind, sel, ops, name, text, lay, only_validate } => self.bad(*kind, *sel, ops, nm(name), text, lay, *only_validate),
        })
    }
    fn bad(&self, kind: u8, sel: u16, ops: &Cont, name: Option<String>, text: &str, lay: &Lay, only_validate: bool) -> Option<Plan> {
        let mut ins = ops.clone().resolve(vec![], false);
        let meta: Vec<(String, String)> = name.iter().map(|n| ("name".to_string(), n.clone())).collect();
        let s = State::of(&ins);
        let have: Vec<String> = s.attrs.keys().cloned().collect();
        let mut mention = None;
        let at = 1 + sel as usize % ins.len();
        let ghost = said_of(&format!("never stored {text}"));
        // one attribute that is not there, alone or among some that are
        let missing = |have: &[String]| { let mut v: Vec<String> = have.iter().take(sel as usize / 64 % 3).cloned().collect(); let at = sel as usize / 256 % (v.len() + 1); v.insert(at, "q.absent".into()); v };
        let text = match kind {
            0 => { let t = render_meta(&ins, &meta, lay).text; let junk = ["ADD NONSENSE x", "ADD ATTRIBUTE", "REMOVE", "ADD ATTRIBUTE q=Foo", "ADD META en PROPS", "gibberish", "MODIFY LABEL en ATTRS a=\"x\"", "ADD CLASSIFICATION a b"]; format!("{t}\n{}\n", junk[sel as usize % junk.len()]) }
            1 => { let b = p_valid::bad((sel % 10) as u8, sel / 10, text, &State::of(&ins[..at]).attrs.into_keys().collect::<Vec<_>>()); ins.insert(at, b); render_meta(&ins, &meta, lay).text }
            2 => { let a = have.get(sel as usize % have.len().max(1))?; mention = Some(a.clone()); ins.push(Ins::Attrs(vec![("q.new".into(), Ty::Text), (a.clone(), Ty::Text)])); render_meta(&ins, &meta, lay).text }
            3 => { if sel % 2 == 0 && !ins.iter().any(|i| matches!(i, Ins::Class(_))) { ins.push(Ins::RmClass) } else { ins.push(Ins::RmAttrs(missing(&have))) } render_meta(&ins, &meta, lay).text }
            4 => {
                let n = ["nobody", "entry.2", "x/y", "ENTRY"][sel as usize % 4].to_string();
                mention = Some(n.clone());
                let t = Ty::Name(n);
                let arr = |n: u16| (0..n).fold(t.clone(), |t, _| Ty::Arr(Box::new(t)));
                let i = match sel / 4 % 4 { 3 if !have.is_empty() => Ins::Link(t.clone(), vec![(have[0].clone(), "z".into())]), d => Ins::Attrs(vec![("q.ref".into(), if d >= 2 { arr(d) } else { arr(d) })]) };
                ins.push(i);
                render_meta(&ins, &meta, lay).text
            }
            // with further, acceptable instructions: known finding K16A
            5 => { if sel % 3 == 0 { ins.clear() } else { let kv = vec![("q.absent".to_string(), "kg".to_string())]; ins.push(if sel % 3 == 1 { Ins::Lang(LO::Label, "en".into(), kv) } else { Ins::Str(SO::Unit, kv) }) } ins.insert(0, Ins::From(ghost)); render_meta(&ins, &meta, lay).text }
            6 => {
                let said = self.order.get(sel as usize % self.order.len().max(1))?.clone();
                let ex: Vec<String> = self.state(&said).attrs.keys().cloned().collect();
                let mut ins = vec![Ins::From(said), Ins::Meta("en".into(), vec![("name".into(), text.to_string())])];
                if sel % 3 == 0 && !ex.is_empty() { mention = Some(ex[0].clone()); ins.push(Ins::Attrs(vec![(ex[0].clone(), Ty::Text)])) } else if sel % 3 == 1 { ins.push(Ins::RmAttrs(missing(&ex))) } else { ins.push(p_valid::bad((sel % 10) as u8, sel / 10, text, &ex)) }
                render_meta(&ins, &meta, lay).text
            }
            7 => format!("-- precompiler=transformation\n{}RENAME ATTRIBUTE a=b\n", if name.is_some() { "-- name=entry\n" } else { "" }),
            _ => format!("{}\n# nothing\n", if name.is_some() { "-- name=entry" } else { "" }),
        };
        if kind == 7 && only_validate { return None } // validation is offered for semantic files
        Some(Plan { text, expect: Expect::Reject { kind, mention }, sub: None, only_validate })
    }
    /// Hands the file to the facade; `None` stands for a planned end of the process.
    fn submit(&mut self, p: &Plan) -> Result<Result<OCABundle, String>, Fail> {
        let t = p.text.clone();
        let only = p.only_validate;
        let f = self.fm();
        guard("submitting a file", || {
            if only { f.validate_ocafile(t).map(|b| b.oca_bundle).map_err(|e| if e.is_empty() { String::new() } else { describe(&e) }) }
            else { f.build_from_ocafile(t).map_err(|e| match e { Error::Deprecated => "Deprecated".into(), Error::ValidationError(e) => if e.is_empty() { String::new() } else { describe(&e) }, #[allow(unreachable_patterns)] e => e.to_string() }) }
        }).map_err(|Fail(m)| Fail(format!("{m}\n{}{}", self.log, p.text)))
    }
    /// Records what an accepted file stands for from now on.
    fn record(&mut self, p: Plan) -> String {
        let Expect::Accept { build, state, states, name } = p.expect else { unreachable!() };
        let said = util::said(&build.oca_bundle);
        if let Some(n) = name { self.names.insert(n, said.clone()); }
        if p.only_validate { return said }
        for (st, s) in build.steps.iter().zip(states) {
            let id = util::said(&st.result);
            let d = self.derivs.entry(id.clone()).or_default();
            let x = (st.parent_said.as_ref().map(|s| s.to_string()), serde_json::to_string(&st.command).unwrap());
            if !d.contains(&x) { d.push(x) }
            if !self.known.contains_key(&id) { self.order.push(id.clone()); self.known.insert(id, Known { state: s, bundle: st.result.clone() }); }
        }
        self.known.entry(said.clone()).or_insert(Known { state, bundle: build.oca_bundle.clone() });
        if !self.built.contains(&said) { self.built.push(said.clone()) }
        self.subs.push(p.sub.unwrap());
        self.builds.push(*build);
        self.accepted += 1;
        said
    }
    fn run(&mut self, op: &Op) -> Result<Did, Fail> {
        if matches!(op, Op::Reopen) {
            if self.dir.is_none() || self.kind == Kind::InMemory { return Ok(Did::Nothing) }
            self.log.push_str("# --- restart\n");
            self.open();
            return Ok(Did::Reopened)
        }
        let Some(p) = self.plan(op)? else { return Ok(Did::Nothing) };
        let reject = matches!(p.expect, Expect::Reject { .. });
        // whose business it is when this file is not treated as it should be
        let named = p.sub.as_ref().is_some_and(uses_names) || matches!(p.expect, Expect::Reject { kind: 4, .. });
        let strict = match self.strict { Strict::P13 => !reject && matches!(op, Op::Extend { .. }), Strict::P14 => !reject && !named, Strict::P16 => reject, Strict::P18 => named, Strict::No => false };
        let snap = if reject && strict { Some(self.snapshot()?) } else { None };
        let r = self.submit(&p);
        self.texts.push(format!("{}{}", if p.only_validate { "?" } else { "" }, p.text));
        self.log.push_str(&format!("# --- {}\n{}\n", if p.only_validate { "validate" } else { "build" }, p.text.trim_end()));
        match self.judge(p, r, snap) { Err(Fail(m)) if !strict => fail(format!("{DIVERGED}{m}")), x => x }
    }
    fn judge(&mut self, p: Plan, r: Result<Result<OCABundle, String>, Fail>, snap: Option<BTreeMap<String, String>>) -> Result<Did, Fail> {
        match (&p.expect, r?) {
            (Expect::Accept { .. }, Err(e)) => fail(format!("an acceptable file is rejected: {e}\n{}", self.log)),
            (Expect::Accept { build, state, .. }, Ok(b)) => {
                let what = format!("a file built through the facade\n{}", self.log);
                holds(&util::bundle_json(&b)?, state, &what)?;
                ensure_eq!(util::encode(&b)?, util::encode(&build.oca_bundle)?, "{what}: the same instructions built directly");
                let only = p.only_validate;
                let said = self.record(p);
                Ok(if only { Did::Validated(said) } else { Did::Accepted(said) })
            }
            (Expect::Reject { kind, .. }, Ok(b)) => fail(format!("a file that must be rejected (kind {kind}) gives the bundle {}\n{}", util::said(&b), self.log)),
            (Expect::Reject { kind, mention }, Err(e)) => {
                ensure!(!e.is_empty(), "a file (kind {kind}) is rejected without any error\n{}", self.log);
                if let Some(m) = mention { ensure!(e.contains(m.as_str()), "the error does not name {m:?}: {e}\n{}", self.log); }
                if *kind == 7 { ensure_eq!(e, "Deprecated", "answer to a transformation file"); }
                if let Some(before) = snap {
                    let after = self.snapshot()?;
                    for (k, v) in &after { ensure_eq!(Some(v), before.get(k), "{k} after a rejected file\n{}", self.log); }
                    ensure_eq!(after.len(), before.len(), "what is stored after a rejected file\n{}", self.log);
                }
                Ok(Did::Rejected)
            }
        }
    }
    /// Everything observable: both stores byte by byte, listings, names and a search.
    fn snapshot(&self) -> Result<BTreeMap<String, String>, Fail> {
        let mut m = BTreeMap::new();
        if self.kind == Kind::Mem { for (n, d) in [("db", self.mems.0.dump()), ("cache", self.mems.1.dump())] { for ((ns, k), v) in d { m.insert(format!("{n} {ns} {k}"), String::from_utf8_lossy(&v).to_string()); } } }
        m.insert("bundles".into(), json!(self.listed()?).to_string());
        m.insert("capture bases".into(), json!(self.listed_cb()?).to_string());
        if self.kind != Kind::Files { m.insert("names".into(), format!("{:?}", self.refs()?)); }
        m.insert("search".into(), guard("searching", || self.f().search_oca_bundle(None, "Some".into(), 100, 1)).map(|r| format!("{:?}", r.records.iter().map(|x| (util::said(&x.oca_bundle), x.metadata.phrase.clone())).collect::<Vec<_>>()))?);
        Ok(m)
    }
    fn refs(&self) -> Result<BTreeMap<String, String>, Fail> { Ok(guard("listing names", || self.f().fetch_all_refs())?.map_err(Fail)?.into_iter().collect()) }
    fn listed(&self) -> Result<BTreeSet<String>, Fail> {
        let r = guard("listing bundles", || self.f().fetch_all_oca_bundle(10_000, 1))?.map_err(|e| Fail(format!("listing bundles: {e:?}")))?;
        let s: BTreeSet<String> = r.records.iter().map(util::said).collect();
        ensure_eq!(s.len(), r.records.len(), "bundles listed once");
        Ok(s)
    }
    fn listed_cb(&self) -> Result<BTreeSet<String>, Fail> { Ok(guard("listing capture bases", || self.f().fetch_all_capture_base(10_000, 1))?.map_err(|e| Fail(format!("listing capture bases: {e:?}")))?.records.iter().map(|c| c.said.as_ref().unwrap().to_string()).collect()) }
    fn fetch(&self, said: &str, deps: bool) -> Result<Result<(OCABundle, Vec<OCABundle>), Vec<String>>, Fail> { Ok(guard("fetching a bundle", || self.f().get_oca_bundle(sai(said), deps))?.map(|b| (b.bundle, b.dependencies))) }
    fn cb(&self, said: &str) -> String { self.known[said].bundle.capture_base.said.as_ref().unwrap().to_string() }
    fn ovs(&self, said: &str) -> BTreeSet<String> { self.known[said].bundle.overlays.iter().map(|o| o.said().clone().unwrap().to_string()).collect() }
    fn same_as_known(&self, said: &str) -> Res {
        match self.fetch(said, false)? {
            Err(e) => fail(format!("{said} cannot be fetched: {e:?}\n{}", self.log)),
            Ok((b, d)) => {
                ensure_eq!(util::encode(&b)?, util::encode(&self.known[said].bundle)?, "the bundle fetched as {said}\n{}", self.log);
                ensure!(d.is_empty(), "dependencies although none were asked for");
                holds(&util::bundle_json(&b)?, self.state(said), &format!("fetched as {said}\n{}", self.log))
            }
        }
    }
}
/// A file treated in a way that is another property's business: the case ends there.
const DIVERGED: &str = "diverged: ";
#[derive(Clone, Copy, PartialEq)]
enum Strict { No, P13, P14, P16, P18 }
fn uses_names(s: &Sub) -> bool { s.ins.iter().any(|i| match i { Ins::Attrs(a) => a.iter().any(|x| has_name(&x.1)), Ins::Link(t, _) => has_name(t), _ => false }) }
fn only(check: impl Fn(&Hist, &mut Obs) -> Res + Sync) -> impl Fn(&Hist, &mut Obs) -> Res + Sync {
    move |h, o| match check(h, o) { Err(Fail(m)) if m.starts_with(DIVERGED) => { o.class("left to another property"); o.nontrivial = false; Ok(()) } r => r }
}
fn describe(e: &[ValidationError]) -> String { e.iter().map(|e| format!("{e} {e:?}; ")).collect() }
fn play(strict: Strict, h: &Hist, o: &mut Obs, mut each: impl FnMut(&mut World, &Did, usize) -> Res) -> Result<World, Fail> {
    let mut w = World::new(h.kind, h.ops.iter().any(|o| matches!(o, Op::Reopen)));
    w.strict = strict;
    for (n, op) in h.ops.iter().enumerate() {
        let did = w.run(op)?;
        match (&did, op) {
            (Did::Rejected, Op::Bad { kind, .. }) => o.class(format!("rejected{kind}")),
            (Did::Accepted(_), op) => o.class(match op { Op::New { .. } => "new", Op::Extend { .. } => "extend", _ => "again" }),
            (Did::Validated(_), _) => o.class("validated"),
            (Did::Reopened, _) => o.class("restart"),
            _ => {}
        }
        each(&mut w, &did, n)?;
    }
    o.class(format!("{:?}", h.kind));
    o.sample = Some(w.log.clone());
    Ok(w)
}

/// The files of a history; nothing if it goes wrong on its way.
pub fn texts(h: &Hist, o: &mut Obs) -> Option<Vec<String>> {
    match play(Strict::No, h, o, |_, _, _| Ok(())) {
        Ok(w) => Some(w.texts),
        Err(_) => { o.class("left to another property"); None }
    }
}
pub fn plain_hist() -> BoxedStrategy<Hist> { unnamed(hist(PLAIN)) }
pub fn named_hist() -> BoxedStrategy<Hist> { hist(PLAIN) }
pub fn plain_many() -> BoxedStrategy<Hist> { unnamed(many(40, 1)) }
pub fn plain_sizes() -> BoxedStrategy<Hist> { unnamed(sizes_with_refs(300)) }
fn unnamed(h: BoxedStrategy<Hist>) -> BoxedStrategy<Hist> {
    h.prop_map(|mut h| {
        h.kind = Kind::Mem;
        for op in &mut h.ops { match op { Op::New { refs, .. } | Op::Extend { refs, .. } | Op::File { refs, .. } => for r in refs { r.by_name = false }, _ => {} } }
        h
    }).boxed()
}

// ---------------------------------------------------------------- P14

fn check14(h: &Hist, o: &mut Obs) -> Res {
    let mut lists: Option<(BTreeSet<String>, BTreeSet<String>)> = None;
    let mut marks = 0;
    let w = play(Strict::P14, h, o, |w, did, n| {
        if w.kind == Kind::Mem || n + 1 == h.ops.len() || matches!(did, Did::Reopened) { for s in &w.order { w.same_as_known(s)?; } }
        let now = (w.listed()?, w.listed_cb()?);
        let want: BTreeSet<String> = w.built.iter().cloned().collect();
        ensure_eq!(now.0, want, "listed bundles\n{}", w.log);
        ensure_eq!(now.1, want.iter().map(|s| w.cb(s)).collect(), "listed capture bases\n{}", w.log);
        if matches!(did, Did::Accepted(_)) && matches!(h.ops[n], Op::Again(_)) || matches!(did, Did::Reopened | Did::Validated(_)) {
            marks += 1;
        }
        lists = Some(now);
        Ok(())
    })?;
    o.nontrivial = w.accepted >= 3 && marks > 0;
    Ok(())
}
/// Files with attribute types nested so deeply that they are at the limit of what is read back.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Deep { kind: Kind, files: Vec<(u8, u8, bool)> }
fn deep() -> BoxedStrategy<Deep> {
    (prop_oneof![8 => Just(Kind::Mem), 1 => Just(Kind::InMemory), 1 => Just(Kind::Sled), 1 => Just(Kind::Files)], vec((prop_oneof![1 => 0u8..4, 4 => 60u8..130], 0u8..4, any::<bool>()), 1..4)).prop_map(|(kind, files)| Deep { kind, files }).boxed()
}
/// What is accepted is listed, fetched and has its history, together with whatever else is stored.
fn check_deep(c: &Deep, o: &mut Obs, history: bool) -> Res {
    let mut w = World::new(c.kind, false);
    let (mut stored, mut log): (Vec<(String, String)>, String) = (vec![], String::new());
    for (n, (depth, inner, extend)) in c.files.iter().enumerate() {
        let mut t = String::new();
        if let (true, Some((s, _))) = (*extend, stored.last()) { t += &format!("FROM {s}\n") }
        let inner = match (inner, stored.first()) { (0, _) => "Text".to_string(), (1, Some((s, _))) => format!("refs:{s}"), (2, _) => format!("refs:{}", said_pool()[0]), _ => "Numeric".to_string() };
        t += &format!("ADD ATTRIBUTE b{n}=DateTime a{n}={}{inner}{}\nADD LABEL en ATTRS b{n}=\"l\"\n", "Array[".repeat(*depth as usize), "]".repeat(*depth as usize));
        log += &format!("# --- build\n{t}");
        match guard("building", || w.fm().build_from_ocafile(t.clone()))? {
            Ok(b) => { o.nontrivial |= *depth > 20; let s = util::said(&b); if !stored.iter().any(|x| x.0 == s) { stored.push((s, util::encode(&b)?)) } o.class("accepted") }
            Err(e) => { ensure!(matches!(&e, Error::ValidationError(v) if !v.is_empty()), "{e:?}\n{log}"); o.class("refused") }
        }
        if history {
            for (s, json) in &stored {
                let steps = guard("reading the history", || w.f().get_oca_bundle_steps(sai(s)))?.map_err(|e| Fail(format!("the history of {s} cannot be read: {e:?}\n{log}")))?;
                ensure_eq!(steps.last().map(|x| util::encode(&x.result)).transpose()?, Some(json.clone()), "what the history of {s} ends in\n{log}");
                let t = guard("reading the OCAfile", || w.f().get_oca_bundle_ocafile(sai(s), false))?.map_err(|e| Fail(format!("{e:?}\n{log}")))?;
                let b = guard("building", || oca_rs::facade::build::build_from_ocafile(t.clone()))?.map_err(|e| Fail(format!("the OCAfile of {s} does not build: {e:?}\n{t}--- of\n{log}")))?;
                ensure_eq!(&util::said(&b), s, "bundle rebuilt from the OCAfile\n{log}");
            }
        } else {
            for (s, json) in &stored {
                for deps in [false, true] { match w.fetch(s, deps)? { Ok((b, _)) => ensure_eq!(&util::encode(&b)?, json, "the bundle fetched as {s}\n{log}"), Err(e) => ensure!(deps && e.iter().any(|e| e.contains(&said_pool()[0])), "{s} cannot be fetched: {e:?}\n{log}") } }
            }
            ensure_eq!(w.listed().map_err(|Fail(m)| Fail(format!("{m}\n{log}")))?, stored.iter().map(|x| x.0.clone()).collect::<BTreeSet<_>>(), "listed bundles\n{log}");
            w.listed_cb().map_err(|Fail(m)| Fail(format!("{m}\n{log}")))?;
        }
    }
    o.sample = Some(log);
    Ok(())
}
pub fn p14(ctx: &Ctx) {
    ctx.campaign("histories", 12_000, 600_000, || hist(W { again: 3, reopen: 2, ..PLAIN }), only(check14));
    ctx.campaign("small", 8_000, 400_000, || hist(W { small: true, again: 3, reopen: 1, len: 9, ..PLAIN }), only(check14));
    ctx.campaign("backends", 500, 20_000, || hist_of(W { again: 2, reopen: 3, ..PLAIN }, vec![(1, Kind::InMemory), (2, Kind::Sled), (2, Kind::Files)]), only(check14));
    ctx.campaign("sizes", 500, 25_000, || sizes(2000), only(check14));
    ctx.campaign("many", 60, 3_000, || many(120, 1), only(check14));
    ctx.campaign("deep", 400, 20_000, deep, |c: &Deep, o: &mut Obs| check_deep(c, o, false));
}

// ---------------------------------------------------------------- P15

fn check_history(w: &World, said: &str) -> Result<usize, Fail> {
    let steps = match guard("reading the history", || w.f().get_oca_bundle_steps(sai(said)))? { Ok(s) => s, Err(e) => return fail(format!("the history of {said} cannot be read: {e:?}\n{}", w.log)) };
    ensure!(!steps.is_empty(), "empty history");
    let mut parent: Option<String> = None;
    for (n, s) in steps.iter().enumerate() {
        let p = s.parent_said.as_ref().map(|s| s.to_string());
        ensure_eq!(p, parent, "parent of step {} of {said}\n{}", n + 1, w.log);
        let id = util::said(&s.result);
        let Some(k) = w.known.get(&id) else { return fail(format!("step {} of {said} is a bundle never built\n{}", n + 1, w.log)) };
        ensure_eq!(util::encode(&s.result)?, util::encode(&k.bundle)?, "bundle of step {} of {said}\n{}", n + 1, w.log);
        let c = serde_json::to_string(&s.command).unwrap();
        ensure!(w.derivs[&id].iter().any(|d| d.0 == p && d.1 == c), "step {} of {said} was never submitted: {c} after {p:?}\n{}", n + 1, w.log);
        parent = Some(id);
    }
    ensure_eq!(parent.as_deref(), Some(said), "bundle the history ends in\n{}", w.log);
    let ast = guard("reading the instructions", || w.f().get_oca_bundle_ast(sai(said)))?.map_err(|e| Fail(format!("{e:?}")))?;
    ensure_eq!(ast.commands, steps.iter().map(|s| s.command.clone()).collect::<Vec<_>>(), "instruction list of {said}");
    ensure_eq!(util::said(&util::build_ok(None, &ast)?.oca_bundle), said, "bundle rebuilt from the instruction list\n{}", w.log);
    for deref in [false, true] {
        let t = guard("reading the OCAfile", || w.f().get_oca_bundle_ocafile(sai(said), deref))?.map_err(|e| Fail(format!("{e:?}\n{}", w.log)))?;
        match guard("building", || oca_rs::facade::build::build_from_ocafile(t.clone()))? { Ok(b) => ensure_eq!(util::said(&b), said, "bundle rebuilt from the OCAfile\n{t}--- of\n{}", w.log), Err(e) => return fail(format!("the OCAfile of {said} does not build: {e:?}\n{t}--- of\n{}", w.log)) }
    }
    Ok(steps.len())
}
fn check15(h: &Hist, o: &mut Obs) -> Res {
    let (mut longest, mut revisits) = (0, false);
    let w = play(Strict::No, h, o, |w, did, n| {
        if let Did::Accepted(_) = did { if let Some(b) = w.builds.last() { revisits |= b.steps.iter().any(|s| w.derivs[&util::said(&s.result)].len() > 1 || s.parent_said.as_ref().map(|p| p.to_string()) == Some(util::said(&s.result))); } }
        if n + 1 == h.ops.len() { for s in &w.order { longest = longest.max(check_history(w, s)?); } } else if let Did::Accepted(s) = did { if w.known.contains_key(s) && w.order.contains(s) { check_history(w, s)?; } }
        Ok(())
    })?;
    o.class_if(revisits, "version-reached-twice");
    o.nontrivial = longest >= 4 && (revisits || w.subs.iter().any(|s| matches!(s.ins.first(), Some(Ins::From(_)))));
    Ok(())
}
/// Many steps, in one file or in several each starting from the one before.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Long { steps: Vec<u8>, cuts: Vec<u16>, small: Vec<Op> }
fn long(max: usize) -> BoxedStrategy<Long> { (prop_oneof![5 => max / 2..max, 1 => max..max * 3].prop_flat_map(|n| vec(0u8..6, n)), vec(any::<u16>(), 0..4), vec(op(W { small: true, extend: 3, reopen: 0, refs: false, ..PLAIN }), 0..3)).prop_map(|(steps, cuts, small)| Long { steps, cuts, small }).boxed() }
fn play_long(l: &Long) -> Result<(World, String), Fail> {
    let mut w = World::new(Kind::Mem, false);
    for o in &l.small { w.run(o)?; }
    let ins: Vec<Ins> = l.steps.iter().enumerate().map(|(i, k)| {
        let a = format!("l{}", i.saturating_sub(1) / 2 * 2);
        match k { _ if i % 2 == 0 => Ins::Attrs(vec![(format!("l{i}"), [Ty::Text, Ty::Numeric][*k as usize % 2].clone())]), 0 | 1 => Ins::Lang(LO::Label, "en".into(), vec![(a, format!("label {i}"))]), 2 => Ins::Str(SO::Unit, vec![(a, "kg".into())]), 3 => Ins::Lang(LO::Info, "fr".into(), vec![(a, format!("{i}"))]), 4 => Ins::Class(format!("GICS:{i}")), _ => Ins::Meta("en".into(), vec![("name".into(), format!("version {i}"))]) }
    }).collect();
    let mut cuts: Vec<usize> = l.cuts.iter().map(|c| 1 + *c as usize % ins.len()).chain([ins.len()]).collect();
    cuts.sort(); cuts.dedup();
    let (mut at, mut said) = (0, None);
    for c in cuts {
        let part: Vec<Ins> = said.iter().map(|s: &String| Ins::From(s.clone())).chain(ins[at..c].iter().cloned()).collect();
        let p = w.accept(Sub { ins: part, name: None, lay: Lay::default() }, false)?;
        let r = w.submit(&p)?;
        w.log.push_str(&p.text);
        match r { Ok(_) => said = Some(w.record(p)), Err(e) => return fail(format!("an acceptable file is rejected: {e}\n{}", w.log)) }
        at = c;
    }
    Ok((w, said.unwrap()))
}
fn long15(l: &Long, o: &mut Obs) -> Res {
    let (w, said) = play_long(l)?;
    let n = check_history(&w, &said)?;
    for s in w.order.iter().rev().step_by(29) { check_history(&w, s)?; }
    o.nontrivial = n > 40;
    o.sample = Some(w.log);
    Ok(())
}
pub fn p15(ctx: &Ctx) {
    ctx.campaign("long", 60, 3_000, || long(220), long15);
    ctx.campaign("histories", 5_000, 300_000, || hist(W { reopen: 0, ..PLAIN }), only(check15));
    ctx.campaign("small", 12_000, 600_000, || hist(W { small: true, extend: 8, reopen: 0, refs: false, len: 9, ..PLAIN }), only(check15));
    ctx.campaign("backends", 300, 10_000, || hist_of(W { small: true, extend: 8, reopen: 1, refs: false, ..PLAIN }, vec![(1, Kind::InMemory), (2, Kind::Sled), (2, Kind::Files)]), only(check15));
    ctx.campaign("deep", 300, 15_000, deep, |c: &Deep, o: &mut Obs| check_deep(c, o, true));
}

// ---------------------------------------------------------------- P16

pub const KINDS: u8 = 9;
fn check16(h: &Hist, o: &mut Obs) -> Res {
    let (mut stored, mut nt) = (0, false);
    let w = play(Strict::P16, h, o, |w, did, _| {
        match did {
            Did::Accepted(_) => stored += 1,
            Did::Rejected => nt |= stored > 0,
            Did::Validated(s) => { let want: BTreeSet<String> = w.built.iter().cloned().collect(); ensure_eq!(w.listed()?, want, "listed bundles after validating only\n{}", w.log); if !w.known.contains_key(s) { ensure!(w.fetch(s, false)?.is_err(), "a bundle was stored by validating only\n{}", w.log); } }
            _ => {}
        }
        if w.kind != Kind::Files { ensure_eq!(w.refs()?, w.names, "names\n{}", w.log); }
        Ok(())
    })?;
    o.nontrivial = nt;
    for s in &w.order { w.same_as_known(s)?; }
    Ok(())
}
pub fn p16(ctx: &Ctx) {
    let t = format!("FROM {}\nADD ATTRIBUTE x=Text\n", said_of("never stored"));
    ctx.probe("K16A", &t, || {
        let mut w = World::new(Kind::Mem, false);
        let before = w.snapshot()?;
        match guard("building", || w.fm().build_from_ocafile(t.clone()))? { Ok(b) => return fail(format!("built as {}", util::said(&b))), Err(e) => ensure!(format!("{e:?}").contains(&said_of("never stored")), "the error does not name the bundle: {e:?}") }
        ensure!(w.snapshot()? == before, "something was stored");
        Ok(())
    });
    ctx.campaign("histories", 16_000, 800_000, || hist(W { bad: 12, reopen: 0, again: 0, ..PLAIN }), only(check16));
    ctx.campaign("backends", 400, 10_000, || hist_of(W { bad: 10, reopen: 1, ..PLAIN }, vec![(1, Kind::InMemory), (2, Kind::Sled), (2, Kind::Files)]), only(check16));
    ctx.campaign("sizes", 1_200, 50_000, || {
        let w = W { new: 1, bad: 8, extend: 1, reopen: 0, again: 0, ..PLAIN };
        (prop_oneof![sizes_with_refs(400), many(60, 1)], vec(op(w), 1..5)).prop_map(|(mut h, more)| { h.ops.extend(more); h }).boxed()
    }, only(check16));
}

// ---------------------------------------------------------------- P17

fn direct(s: &State) -> BTreeSet<String> { fn go(t: &Ty, o: &mut BTreeSet<String>) { match t { Ty::Arr(t) => go(t, o), Ty::Ref(s) => { o.insert(s.clone()); } _ => {} } } let mut o = BTreeSet::new(); s.attrs.values().for_each(|t| go(t, &mut o)); o }
fn check17(h: &Hist, o: &mut Obs) -> Res {
    let w = play(Strict::No, h, o, |_, _, _| Ok(()))?;
    for said in &w.order {
        let (mut todo, mut all, mut missing) = (vec![said.clone()], BTreeSet::new(), false);
        while let Some(s) = todo.pop() { match w.known.get(&s) { None => missing = true, Some(k) => for d in direct(&k.state) { if all.insert(d.clone()) { todo.push(d) } } } }
        o.class_if(missing, "missing-dependency"); o.class_if(all.len() > 1, "several-dependencies");
        o.nontrivial |= missing || all.len() >= 2;
        let r = w.fetch(said, true)?;
        match r {
            Err(e) => { ensure!(missing, "{said} cannot be fetched with its dependencies although all are stored: {e:?}\n{}", w.log); ensure!(!e.is_empty() && all.iter().any(|d| !w.known.contains_key(d) && e.iter().any(|x| x.contains(d.as_str()))), "the error names no missing dependency: {e:?}") }
            Ok((b, deps)) => {
                ensure!(!missing, "{said} is fetched with dependencies although one of {all:?} is not stored\n{}", w.log);
                ensure_eq!(util::encode(&b)?, util::encode(&w.known[said].bundle)?, "fetched bundle");
                let got: BTreeSet<String> = deps.iter().map(util::said).collect();
                ensure_eq!(deps.len(), got.len(), "number of dependencies of {said}, each once\n{}", w.log);
                ensure_eq!(got, all, "dependencies of {said}\n{}", w.log);
                for d in &deps { ensure_eq!(util::encode(d)?, util::encode(&w.known[&util::said(d)].bundle)?, "dependency of {said}"); }
            }
        }
        w.same_as_known(said)?;
    }
    ensure!(w.fetch(&said_of("nothing"), true)?.is_err(), "an unknown bundle is fetched");
    Ok(())
}
pub fn p17(ctx: &Ctx) {
    ctx.campaign("histories", 16_000, 800_000, || hist(W { small: true, bad: 0, reopen: 0, again: 0, len: 9, ..PLAIN }), only(check17));
    ctx.campaign("full", 5_000, 200_000, || hist(W { bad: 0, reopen: 0, again: 0, ..PLAIN }), only(check17));
    ctx.campaign("many", 120, 8_000, || many(150, 2), only(check17));
    ctx.campaign("wide", 200, 10_000, || many(100, 12), only(check17));
    ctx.campaign("sizes", 500, 25_000, || sizes_with_refs(1000), only(check17));
}

// ---------------------------------------------------------------- P18

struct External(BTreeMap<String, String>);
impl oca_rs::facade::build::References for External {
    fn find(&self, n: &str) -> Option<String> { self.0.get(n).cloned() }
    fn save(&mut self, n: &str, v: String) { self.0.insert(n.into(), v); }
}
fn has_name(t: &Ty) -> bool { match t { Ty::Name(_) => true, Ty::Arr(t) => has_name(t), _ => false } }
fn check18(h: &Hist, o: &mut Obs) -> Res {
    let w = play(Strict::P18, h, o, |w, _, _| {
        if w.kind != Kind::Files { ensure_eq!(w.refs()?, w.names, "listing of names\n{}", w.log); }
        Ok(())
    })?;
    let named: Vec<&Sub> = w.subs.iter().filter(|s| uses_names(s)).collect();
    o.nontrivial = !named.is_empty();
    // what is stored holds identifiers, and the text can be read by someone who does not know the names
    for s in &w.built {
        if !w.order.contains(s) { continue }
        let t = guard("reading the OCAfile", || w.f().get_oca_bundle_ocafile(sai(s), true))?.map_err(|e| Fail(format!("{e:?}")))?;
        let ast = util::parse_ok(&t)?;
        for c in &ast.commands { ensure!(!serde_json::to_string(c).unwrap().contains("\"refn:"), "a reference by name in the dereferenced text\n{t}"); }
        ensure_eq!(util::said(&util::build_ok(None, &ast)?.oca_bundle), *s, "bundle of the dereferenced text\n{t}");
    }
    // names kept elsewhere
    if let Some(sub) = named.first().map(|s| (*s).clone()) {
        let p = w.accept(sub, true)?;
        let Expect::Accept { build, name, .. } = &p.expect else { unreachable!() };
        let before = w.snapshot()?;
        let mut ext = External(w.names.clone());
        let empty = World::new(Kind::Mem, false);
        let from = matches!(p.sub.as_ref().unwrap().ins[0], Ins::From(_));
        let f = if from { &w } else { &empty };
        let r = guard("validating with other names", || f.f().validate_ocafile_with_external_references(p.text.clone(), &mut ext))?;
        match r { Err(e) => return fail(format!("rejected with names kept elsewhere: {}\n{}", describe(&e), p.text)), Ok(b) => ensure_eq!(util::said(&b.oca_bundle), util::said(&build.oca_bundle), "bundle built with names kept elsewhere\n{}", p.text) }
        if let Some(n) = name { let mut want = w.names.clone(); want.insert(n.clone(), util::said(&build.oca_bundle)); ensure_eq!(ext.0, want, "names kept elsewhere"); } else { ensure_eq!(ext.0, w.names, "names kept elsewhere"); }
        ensure!(before == w.snapshot()?, "validating with names kept elsewhere changed the facade");
        ensure!(empty.refs()?.is_empty(), "validating with names kept elsewhere saved a name here");
        o.class("external-names");
        match guard("validating with no names", || f.f().validate_ocafile_with_external_references(p.text.clone(), &mut External(BTreeMap::new())))? { Ok(_) => return fail(format!("accepted although no name is known\n{}", p.text)), Err(e) => ensure!(e.iter().any(|e| matches!(e, ValidationError::UnknownRefn(_))), "no error about an unknown name: {}", describe(&e)) }
    }
    Ok(())
}
pub fn p18(ctx: &Ctx) {
    ctx.campaign("histories", 16_000, 800_000, || hist(W { small: true, reopen: 1, bad: 2, len: 10, ..PLAIN }), only(check18));
    ctx.campaign("full", 5_000, 200_000, || hist(W { reopen: 0, bad: 1, ..PLAIN }), only(check18));
    ctx.campaign("backends", 300, 10_000, || hist_of(W { reopen: 2, ..PLAIN }, vec![(1, Kind::InMemory), (2, Kind::Sled), (2, Kind::Files)]), only(check18));
    ctx.campaign("sizes", 500, 25_000, || sizes_with_refs(1000), only(check18));
    ctx.campaign("many-names", 250, 10_000, || many_of(250, 2, 67, 3, 200), only(check18));
}

// ---------------------------------------------------------------- P19

pub const BIG: [usize; 8] = [usize::MAX, i64::MAX as usize, i64::MAX as usize + 1, usize::MAX / 2 + 7, u32::MAX as usize, u32::MAX as usize + 1, i32::MAX as usize + 1, 1 << 62];
fn check19(h: &Hist, o: &mut Obs) -> Res {
    let w = play(Strict::No, h, o, |_, _, _| Ok(()))?;
    o.nontrivial = w.built.len() >= 3;
    let bundles: BTreeSet<String> = w.built.iter().cloned().collect();
    let cbs: BTreeSet<String> = w.built.iter().map(|s| w.cb(s)).collect();
    o.class_if(cbs.len() < bundles.len(), "shared-capture-base");
    type Page = (Vec<String>, usize, usize);
    let bundle_page = |l: usize, p: usize| -> Result<Page, Fail> {
        let r = guard("listing bundles", || w.f().fetch_all_oca_bundle(l, p))?.map_err(|e| Fail(format!("listing bundles, {l} per page, page {p}: {e:?}\n{}", w.log)))?;
        for b in &r.records { let k = &w.known[&util::said(b)]; ensure_eq!(util::encode(b)?, util::encode(&k.bundle)?, "listed bundle"); }
        Ok((r.records.iter().map(util::said).collect(), r.metadata.total, r.metadata.page))
    };
    let cb_page = |l: usize, p: usize| -> Result<Page, Fail> {
        let r = guard("listing capture bases", || w.f().fetch_all_capture_base(l, p))?.map_err(|e| Fail(format!("listing capture bases, {l} per page, page {p}: {e:?}\n{}", w.log)))?;
        for c in &r.records { let id = c.said.as_ref().unwrap().to_string(); let k = w.built.iter().find(|s| w.cb(s) == id).ok_or(Fail(format!("unknown capture base {id} listed")))?; ensure_eq!(serde_json::to_value(c).unwrap(), serde_json::to_value(&w.known[k].bundle.capture_base).unwrap(), "listed capture base"); }
        Ok((r.records.iter().map(|c| c.said.as_ref().unwrap().to_string()).collect(), r.metadata.total, r.metadata.page))
    };
    for (what, want, get) in [("bundles", &bundles, &bundle_page as &dyn Fn(usize, usize) -> Result<Page, Fail>), ("capture bases", &cbs, &cb_page)] {
        let n = want.len();
        let limits: BTreeSet<usize> = if n <= 15 { (1..=n + 2).collect() } else { h.sel.iter().map(|s| 2 + *s as usize % n).take(4).chain([1 + n / 2, n - 1, n, n + 1, 10]).collect() };
        for limit in limits {
            let mut seen: Vec<String> = vec![];
            for page in 1..=n.div_ceil(limit) + 2 {
                let (ids, total, p) = get(limit, page)?;
                let expect = n.saturating_sub((page - 1) * limit).min(limit);
                ensure_eq!(ids.len(), expect, "number of {what} on page {page} with {limit} per page, of {n}\n{}", w.log);
                ensure_eq!(total, n, "total number of {what} reported on page {page} with {limit} per page\n{}", w.log);
                ensure_eq!(p, page, "page number reported");
                seen.extend(ids);
            }
            let set: BTreeSet<String> = seen.iter().cloned().collect();
            ensure_eq!(set.len(), seen.len(), "{what} listed once, {limit} per page\n{}", w.log);
            ensure_eq!(&set, want, "{what} over all pages of {limit}\n{}", w.log);
        }
        let far = 1 + h.sel[0] as usize * 17;
        let (ids, total, _) = get(1000, far + 1)?;
        ensure!(ids.is_empty() && total == n, "page {far} of {what} far past the end holds {ids:?} of {total}");
        // sizes and numbers of any magnitude
        let size = BIG[h.sel[0] as usize % BIG.len()];
        let (ids, total, p) = get(size, 1)?;
        ensure!(ids.iter().collect::<BTreeSet<_>>() == want.iter().collect() && ids.len() == n && total == n && p == 1, "one page of {size} {what} holds {} of {total}, there are {n}", ids.len());
        for (size, page) in [(size, 2), (size, size), (1, size), (h.sel[0] as usize % 7 + 2, size)] {
            let (ids, total, p) = get(size, page)?;
            ensure!(ids.is_empty() && total == n && p == page, "page {page} of {size} {what} each, of {n}, holds {ids:?} of {total}");
        }
        get(1 + n / 2, 0)?;
    }
    Ok(())
}
pub fn p19(ctx: &Ctx) {
    ctx.campaign("histories", 8_000, 400_000, || hist(W { small: true, refs: false, validate: false, reopen: 1, len: 12, ..PLAIN }), only(check19));
    ctx.campaign("many", 60, 3_000, || many(400, 1), only(check19));
}

// ---------------------------------------------------------------- P21

fn rel(w: &World, said: &str) -> Result<Option<BTreeMap<String, u8>>, Fail> {
    let r = guard("exploring", || w.f().explore(said.to_string()))?;
    let Some(r) = r else { return Ok(None) };
    ensure_eq!(r.base_object.said, said, "identifier of the explored object");
    let mut m = BTreeMap::new();
    for x in &r.relations { ensure!(m.insert(x.said.clone(), u8::from(x.object_type.clone())).is_none(), "{} is related twice to {said}\n{}", x.said, w.log); }
    m.insert("".into(), u8::from(r.base_object.object_type.clone()));
    Ok(Some(m))
}
fn kind_of(t: &ast::OverlayType) -> u8 { u8::from(ObjectKind::Overlay(t.clone(), ast::Content { attributes: None, properties: None })) }
fn check21(h: &Hist, o: &mut Obs) -> Res {
    let bundle_kind = 1u8; let cb_kind = 0u8;
    let w = play(Strict::No, h, o, |_, _, _| Ok(()))?;
    let mut want: BTreeMap<String, BTreeMap<String, u8>> = BTreeMap::new();
    for s in &w.built {
        let k = &w.known[s];
        let cb = w.cb(s);
        let mut put = |a: &String, ka: u8, b: &String, kb: u8| { let e = want.entry(a.clone()).or_default(); e.insert(b.clone(), kb); e.insert("".into(), ka); };
        put(s, bundle_kind, &cb, cb_kind); put(&cb, cb_kind, s, bundle_kind);
        for ov in &k.bundle.overlays {
            let (id, ko) = (ov.said().clone().unwrap().to_string(), kind_of(ov.overlay_type()));
            put(s, bundle_kind, &id, ko); put(&id, ko, s, bundle_kind); put(&cb, cb_kind, &id, ko); put(&id, ko, &cb, cb_kind);
        }
    }
    o.nontrivial = want.iter().any(|(_, m)| m[""] != bundle_kind && m.values().filter(|k| **k == bundle_kind).count() >= 2);
    let mut all: BTreeSet<String> = w.order.iter().flat_map(|s| { let mut v = vec![s.clone(), w.cb(s)]; v.extend(w.ovs(s)); v }).collect();
    for s in w.order.iter().take(2) { all.insert(format!("{s}.metadata")); all.insert(s[..20].to_string()); all.insert(format!("oca.{s}.operation")); all.insert(s.to_lowercase()); }
    all.extend(["".to_string(), "x".into(), said_pool()[0].clone(), said_of("nothing")]);
    for id in all { let got = rel(&w, &id)?; ensure_eq!(got, want.get(&id).cloned(), "relations of {id} (\"\" is its own kind)\n{}", w.log); }
    Ok(())
}
pub fn p21(ctx: &Ctx) {
    ctx.campaign("small", 12_000, 600_000, || hist(W { small: true, refs: false, extend: 8, len: 10, ..PLAIN }), only(check21));
    ctx.campaign("histories", 5_000, 200_000, || hist(PLAIN), only(check21));
    ctx.campaign("backends", 300, 10_000, || hist_of(W { small: true, refs: false, reopen: 2, ..PLAIN }, vec![(1, Kind::InMemory), (2, Kind::Sled), (2, Kind::Files)]), only(check21));
    ctx.campaign("many", 400, 20_000, || many(200, 1), only(check21));
    ctx.campaign("on-one-base", 200, 10_000, || many_of(300, 0, 2, 200, NAMES.len() as u8), only(check21));
}

// ---------------------------------------------------------------- P27

fn check27(h: &Hist, o: &mut Obs) -> Res {
    let w = play(Strict::No, h, o, |_, _, _| Ok(()))?;
    let mut objs: BTreeMap<String, Value> = BTreeMap::new();
    for s in &w.built { let v = util::bundle_json(&w.known[s].bundle)?; objs.insert(w.cb(s), v["capture_base"].clone()); for ov in overlays(&v) { objs.insert(ov["d"].as_str().unwrap().into(), ov); } }
    let ids: Vec<&String> = objs.keys().collect();
    if ids.is_empty() { return Ok(()) }
    let get = |l: Vec<String>| guard("fetching objects", || w.f().get_oca_objects(l));
    for id in &ids {
        match get(vec![id.to_string()])? { Err(e) => return fail(format!("object {id} cannot be fetched: {e:?}\n{}", w.log)), Ok(v) => { ensure_eq!(v.len(), 1, "objects for {id}"); ensure_eq!(crate::model::canon(serde_json::to_value(&v[0]).unwrap()), crate::model::canon(objs[*id].clone()), "object {id}\n{}", w.log) } }
    }
    let list: Vec<String> = h.sel.iter().map(|x| ids[*x as usize % ids.len()].clone()).collect();
    o.nontrivial = w.built.len() >= 2 && list.len() >= 3;
    match get(list.clone())? {
        Err(e) => return fail(format!("objects {list:?} cannot be fetched: {e:?}\n{}", w.log)),
        Ok(v) => { ensure_eq!(v.len(), list.len(), "number of objects"); for (x, id) in v.iter().zip(&list) { ensure_eq!(crate::model::canon(serde_json::to_value(x).unwrap()), crate::model::canon(objs[id].clone()), "object {id} in a list\n{}", w.log) } }
    }
    ensure!(get(vec![])?.is_ok_and(|v| v.is_empty()), "fetching no objects");
    // identifiers that stand for no object, alone and inside a list
    for bad in [said_of("nothing"), "".into(), "x".into(), w.built[0].clone(), format!("{}.metadata", ids[0])] {
        ensure!(get(vec![bad.clone()])?.is_err(), "{bad:?} yields an object\n{}", w.log);
        let mut l = list.clone(); l.insert(h.sel[0] as usize % (l.len() + 1), bad.clone());
        ensure!(get(l)?.is_err_and(|e| !e.is_empty()), "a list with {bad:?} in it yields objects\n{}", w.log);
    }
    // objects of intermediate versions: the object or an error
    for s in &w.order {
        let v = util::bundle_json(&w.known[s].bundle)?;
        let mut parts = overlays(&v); parts.push(v["capture_base"].clone());
        for p in parts { let id = p["d"].as_str().unwrap().to_string(); if let Ok(x) = get(vec![id.clone()])? { ensure_eq!(x.len(), 1, "objects for {id}"); ensure_eq!(crate::model::canon(serde_json::to_value(&x[0]).unwrap()), crate::model::canon(p), "object {id}\n{}", w.log) } }
    }
    Ok(())
}
pub fn p27(ctx: &Ctx) {
    ctx.campaign("histories", 8_000, 400_000, || hist(W { validate: false, ..PLAIN }), only(check27));
    ctx.campaign("small", 8_000, 400_000, || hist(W { small: true, refs: false, len: 9, ..PLAIN }), only(check27));
    ctx.campaign("backends", 300, 10_000, || hist_of(W { reopen: 2, ..PLAIN }, vec![(1, Kind::InMemory), (2, Kind::Sled), (2, Kind::Files)]), only(check27));
    ctx.campaign("sizes", 500, 25_000, || sizes(1000), only(check27));
}

/// A facade with everything in memory.
pub fn memory() -> Facade {
    use oca_rs::data_storage::{DataStorage, InMemoryDataStorage};
    Facade::new(Box::new(InMemoryDataStorage::new()), Box::new(InMemoryDataStorage::new()), oca_rs::repositories::SQLiteConfig::build().unwrap())
}
