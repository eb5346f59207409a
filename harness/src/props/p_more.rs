//! P22 (storage backends), P23 (transformations), P24 (standards), P25 (combined documents), P29 (malformed documents).
use super::p_build::{check_digests, digest, Prog};
use super::p_valid::{has_short_said, total};
use crate::engine::*;
use crate::gen::{self, lay, program, render_tr, said_of, said_pool, text, tr_program, Lay, Tr, FULL};
use crate::util;
use crate::{ensure, ensure_eq};
use indexmap::IndexMap;
use oca_rs::data_storage::{DataStorage, FileSystemStorage, FileSystemStorageConfig, InMemoryDataStorage, Namespace, SledDataStorage, SledDataStorageConfig};
use oca_rs::facade::bundle::{Bundle, BundleElement};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use said::{derivation::HashFunctionCode, sad::SerializationFormats, version::Encode};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use transformation_file::state::Transformation;

// ---------------------------------------------------------------- P22

pub const RULE22: &str = "at least three inserts, one of which overwrites a value or happens next to other keys, on one backend; or a write that is refused or cut short, or values in several places or none";
#[derive(Clone, Debug, Serialize, Deserialize)]
enum StoreOp { Put(u8, u8, Vec<u8>, u16), Handle, Reopen, List(u8) }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct StoreCase { backend: u8, keys: Vec<String>, ops: Vec<StoreOp> }
fn ns(i: u8) -> Namespace { match i % 6 { 0 => Namespace::OCA, 1 => Namespace::OCABundlesJSON, 2 => Namespace::OCAObjectsJSON, 3 => Namespace::CoreModel, 4 => Namespace::OCARelations, _ => Namespace::OCAReferences } }
enum Store { Sled(SledDataStorage), Mem(InMemoryDataStorage), Fs(FileSystemStorage) }
impl Store {
    fn open(kind: u8, dir: &std::path::Path) -> Store {
        match kind {
            0 => Store::Mem(InMemoryDataStorage::new()),
            1 => Store::Fs(FileSystemStorage::new().config(FileSystemStorageConfig::build().path(dir.to_path_buf()).unwrap())),
            // the lock of a database that was just closed is released a moment later
            _ => loop {
                let s = SledDataStorage::new().config(SledDataStorageConfig::build().path(dir.to_path_buf()).unwrap());
                if s.get(Namespace::OCA, "x").is_ok() { return Store::Sled(s) }
                std::thread::sleep(std::time::Duration::from_millis(2));
            },
        }
    }
    fn put(&mut self, n: u8, k: &str, v: &[u8]) -> Result<(), String> { match self { Store::Sled(s) => s.insert(ns(n), k, v), Store::Mem(s) => s.insert(ns(n), k, v), Store::Fs(s) => s.insert(ns(n), k, v) } }
    fn get(&self, n: u8, k: &str) -> Result<Option<Vec<u8>>, String> { match self { Store::Sled(s) => s.get(ns(n), k), Store::Mem(s) => s.get(ns(n), k), Store::Fs(s) => s.get(ns(n), k) } }
    fn all(&self, n: u8) -> Result<std::collections::HashMap<String, Vec<u8>>, String> { match self { Store::Sled(s) => s.get_all(ns(n)), Store::Mem(s) => s.get_all(ns(n)), Store::Fs(s) => s.get_all(ns(n)) } }
    fn another(&self) -> Store { match self { Store::Sled(s) => Store::Sled(s.clone()), Store::Mem(s) => Store::Mem(s.clone()), Store::Fs(s) => Store::Fs(s.clone()) } }
}
/// Keys never start with a slash and never climb more than five levels, so that a backend that fails to keep them in its
/// directory still stays inside the scratch directory.
fn store_key() -> BoxedStrategy<String> {
    let said = proptest::sample::select(said_pool().clone());
    let token = proptest::sample::select(vec!["a", "b", "A", "é", ".", "..", "/", "../", "%", "%2E", "%2F", "%25", "\\", "日本", "\0", " ", "~", ":", "*", "?", "\n", "-", "_", "core_model.", "oca.", ".operation", ".metadata", "%00", "oca", "oca_refs", "\u{1F600}", ".tmp"]);
    prop_oneof![
        3 => (said, proptest::sample::select(vec!["", ".metadata", "core_model.", "oca.", ".operation"]), any::<bool>()).prop_map(|(s, x, front)| if front { format!("{x}{s}") } else { format!("{s}{x}") }),
        4 => vec(token, 0..6).prop_map(|v| v.concat()),
        1 => "[a-z]{1,2}".prop_map(|s| s),
        // long ones, which differ late
        2 => (proptest::sample::select(vec![14usize, 30, 31, 43, 62, 63, 64, 126, 127, 128, 199, 200]), proptest::sample::select(vec!["", "a", "b", "ab", ".metadata", "c"])).prop_map(|(n, s)| format!("{}{s}", "k".repeat(n))),
    ].prop_map(|s: String| if s.starts_with('/') { format!("a{s}") } else { s }).boxed()
}
fn store_case() -> BoxedStrategy<StoreCase> {
    let value = prop_oneof![3 => vec(any::<u8>(), 0..20), 1 => Just(vec![]), 1 => vec(any::<u8>(), 100..400), 1 => text(FULL).prop_map(|s| s.into_bytes())];
    let op = prop_oneof![8 => (0u8..6, 0u8..8, value, prop_oneof![9 => Just(0u16), 1 => 1u16..5000]).prop_map(|(n, k, v, r)| StoreOp::Put(n, k, v, r)), 1 => Just(StoreOp::Handle), 1 => Just(StoreOp::Reopen), 2 => (0u8..6).prop_map(StoreOp::List)];
    // few namespaces and keys, so that they meet
    (prop_oneof![8 => Just(0u8), 8 => Just(1u8), 1 => Just(2u8)], vec(store_key(), 2..8), vec(op, 1..25), 1u8..7).prop_map(|(backend, keys, mut ops, few)| {
        for o in &mut ops { if let StoreOp::Put(n, ..) | StoreOp::List(n) = o { *n %= few } }
        StoreCase { backend, keys, ops }
    }).boxed()
}
fn check22(c: &StoreCase, o: &mut Obs) -> Res {
    let scratch = tempfile::tempdir().map_err(|e| Fail(e.to_string()))?;
    let dir = scratch.path().join("1/2/3/4/5/6/7/store");
    std::fs::create_dir_all(&dir).map_err(|e| Fail(e.to_string()))?;
    let kind = c.backend % 3;
    let name = ["in-memory", "file system", "sled"][kind as usize];
    let mut s = guard("opening", || Store::open(kind, &dir))?;
    let mut model: BTreeMap<(u8, String), Vec<u8>> = BTreeMap::new();
    let (mut puts, mut overwrites) = (0, 0);
    let keys: std::collections::BTreeSet<&String> = c.keys.iter().collect();
    o.class(name);
    o.class_if(keys.iter().any(|k| k.chars().any(|c| !c.is_ascii_alphanumeric() && !"-_.".contains(c))), "odd-keys");
    for (step, op) in c.ops.iter().enumerate() {
        let ctx = |m: &str| format!("{m} (step {step} of {:?} on the {name} storage)", c.ops);
        match op {
            StoreOp::Put(n, k, v, repeat) => {
                let k = &c.keys[*k as usize % c.keys.len()];
                let v: Vec<u8> = if *repeat > 0 { v.iter().cycle().take(v.len() * *repeat as usize).copied().collect() } else { v.clone() };
                match guard("inserting", || s.put(*n, k, &v))? { Ok(()) => {} Err(e) => return fail(ctx(&format!("{k:?} is not stored: {e}"))) }
                puts += 1;
                if model.insert((*n, k.clone()), v).is_some() { overwrites += 1 }
            }
            StoreOp::Handle => { if kind != 0 { s = s.another(); o.class("another-handle") } }
            StoreOp::Reopen => if kind != 0 {
                drop(s);
                s = guard("opening", || Store::open(kind, &dir))?;
                o.class("reopened");
            }
            StoreOp::List(n) => match guard("listing", || s.all(*n))? {
                Ok(all) => {
                    let got: BTreeMap<String, Vec<u8>> = all.into_iter().collect();
                    let want: BTreeMap<String, Vec<u8>> = model.iter().filter(|((m, _), _)| m == n).map(|((_, k), v)| (k.clone(), v.clone())).collect();
                    ensure_eq!(got, want, "{}", ctx("listing"));
                    o.class_if(want.len() > 1, "listed-several");
                }
                // listing is not offered by the file system storage
                Err(e) => ensure!(kind == 1 && !e.is_empty(), "{}", ctx(&format!("listing failed: {e}"))),
            },
        }
        for n in 0..6u8 { for k in &keys {
            match guard("reading", || s.get(n, k))? {
                Ok(v) => ensure!(v.as_ref() == model.get(&(n, k.to_string())), "{}", ctx(&format!("{k:?} in {} holds {:?} instead of {:?}", ns(n).as_str(), v.map(|v| v.len()), model.get(&(n, k.to_string())).map(|v| v.len())))),
                Err(e) => return fail(ctx(&format!("{k:?} cannot be read: {e}"))),
            }
        } }
    }
    o.nontrivial = puts >= 3 && (overwrites > 0 || model.len() > 1);
    o.class_if(overwrites > 0, "overwritten");
    o.sample = Some(format!("{name}: {:?}", c));
    Ok(())
}
fn check22_closed(c: &Prog, _o: &mut Obs) -> Res {
    let _ = c;
    for (what, r) in [("sled", guard("unopened", || { let mut s = SledDataStorage::new(); (s.get(Namespace::OCA, "k").is_err(), s.insert(Namespace::OCA, "k", b"v").is_err(), s.get_all(Namespace::OCA).is_err()) })?), ("file system", guard("unopened", || { let mut s = FileSystemStorage::new(); (s.get(Namespace::OCA, "k").is_err(), s.insert(Namespace::OCA, "k", b"v").is_err(), s.get_all(Namespace::OCA).is_err()) })?)] {
        ensure_eq!(r, (true, true, true), "a {what} storage that was not opened reports errors");
    }
    Ok(())
}

/// What goes wrong while the file system storage is used by another process: its files may not grow past a size (the write
/// fails, or ends the process), or no more files can be opened.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Trouble { Size(u16), Killed(u16), Files }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct TroubleCase { before: Vec<(u8, u8, u8, u16)>, trouble: Trouble, during: Vec<(u8, u8, u8, u16)>, keys: Vec<String> }
fn trouble_case() -> BoxedStrategy<TroubleCase> {
    let put = || (0u8..2, 0u8..3, any::<u8>(), prop_oneof![1 => Just(0u16), 3 => 1u16..400, 2 => 400u16..20_000]);
    let limit = || prop_oneof![0u16..600, 0u16..12_000];
    (vec(put(), 1..6), prop_oneof![3 => limit().prop_map(Trouble::Size), 3 => limit().prop_map(Trouble::Killed), 2 => Just(Trouble::Files)], vec(put(), 1..5), vec(store_key(), 1..4)).prop_map(|(before, trouble, during, keys)| TroubleCase { before, trouble, during, keys }).boxed()
}
fn trouble_value(b: u8, n: u16) -> Vec<u8> { (0..n).map(|i| b.wrapping_add((i % 251) as u8)).collect() }
fn mark(v: &[u8]) -> String { use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); v.hash(&mut h); format!("{}:{:x}", v.len(), h.finish()) }
/// Runs in a process of its own: the instructions and the directory come on stdin, what was answered goes to stdout.
pub fn store_child() {
    use std::io::Read;
    let mut t = String::new();
    std::io::stdin().read_to_string(&mut t).unwrap();
    let (dir, c): (std::path::PathBuf, TroubleCase) = serde_json::from_str(&t).unwrap();
    let mut s = Store::open(1, &dir);
    std::panic::set_hook(Box::new(|_| {}));
    let limit = |what, n: u64| unsafe { let l = libc::rlimit { rlim_cur: n, rlim_max: n }; libc::setrlimit(what, &l); };
    match c.trouble {
        Trouble::Size(n) => { unsafe { libc::signal(libc::SIGXFSZ, libc::SIG_IGN); } limit(libc::RLIMIT_FSIZE, n as u64) }
        Trouble::Killed(n) => { unsafe { libc::signal(libc::SIGXFSZ, libc::SIG_DFL); } limit(libc::RLIMIT_CORE, 0); limit(libc::RLIMIT_FSIZE, n as u64) }
        Trouble::Files => { let lowest = std::fs::File::open("/dev/null").unwrap(); use std::os::fd::AsRawFd; limit(libc::RLIMIT_NOFILE, lowest.as_raw_fd() as u64) }
    }
    let mut answers: Vec<String> = vec![];
    for (n, k, b, len) in &c.during {
        let k = &c.keys[*k as usize % c.keys.len()];
        let v = trouble_value(*b, *len);
        let put = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.put(*n, k, &v)));
        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.get(*n, k)));
        answers.push(format!("{} {}\n", if matches!(put, Ok(Ok(()))) { "stored" } else { "refused" }, match got { Ok(Ok(Some(v))) => mark(&v), Ok(Ok(None)) => "absent".to_string(), _ => "error".to_string() }));
    }
    // to a pipe, which none of the limits holds for
    use std::io::Write;
    print!("{}", answers.concat());
    std::io::stdout().flush().unwrap();
}
fn check22_trouble(c: &TroubleCase, o: &mut Obs) -> Res {
    let scratch = tempfile::tempdir().map_err(|e| Fail(e.to_string()))?;
    let dir = scratch.path().join("1/2/3/4/5/6/7/store");
    std::fs::create_dir_all(&dir).map_err(|e| Fail(e.to_string()))?;
    let mut model: BTreeMap<(u8, String), Vec<u8>> = BTreeMap::new();
    let mut s = guard("opening", || Store::open(1, &dir))?;
    let key = |k: u8| c.keys[k as usize % c.keys.len()].clone();
    for (n, k, b, len) in &c.before {
        let v = trouble_value(*b, *len);
        guard("inserting", || s.put(*n, &key(*k), &v))?.map_err(Fail)?;
        model.insert((*n, key(*k)), v);
    }
    let mut child = std::process::Command::new(std::env::current_exe().map_err(|e| Fail(e.to_string()))?).args(["child", "--only", "store"])
        .stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().expect("a process to run in");
    { use std::io::Write; child.stdin.take().unwrap().write_all(serde_json::to_string(&(&dir, c)).unwrap().as_bytes()).expect("instructions are passed on"); }
    let out = child.wait_with_output().expect("the process is waited for");
    use std::os::unix::process::ExitStatusExt;
    let killed = out.status.signal();
    assert!(out.status.success() || (killed == Some(libc::SIGXFSZ) && matches!(c.trouble, Trouble::Killed(_))), "the process ended with {:?}", out.status);
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let answers: Vec<&str> = text.lines().collect();
    let again = |m: &str| format!("{m} (while {:?}, after {:?}: {:?} with {:?})", c.trouble, c.before, c.during, c.keys);
    if killed.is_none() { ensure_eq!(answers.len(), c.during.len(), "{}", again("an answer each")); }
    // values each key may hold: what the process did up to its end is not known when it was ended
    let mut may: BTreeMap<(u8, String), Vec<Vec<u8>>> = BTreeMap::new();
    let (mut refused, mut stored) = (0, 0);
    for (i, (n, k, b, len)) in c.during.iter().enumerate() {
        let at = (*n, key(*k));
        let v = trouble_value(*b, *len);
        match answers.get(i).filter(|_| killed.is_none()) {
            None => may.entry(at).or_default().push(v),
            Some(a) => {
                let (did, got) = a.split_once(' ').ok_or_else(|| Fail(format!("no answer: {a}")))?;
                if did == "stored" { model.insert(at.clone(), v); stored += 1 } else { refused += 1 }
                let want = model.get(&at).map(|v| mark(v)).unwrap_or("absent".into());
                ensure!(got == want || got == "error", "{}", again(&format!("step {i}, which was {did}, then reads {got} instead of {want} for {:?}", at.1)));
            }
        }
    }
    let s = guard("opening", || Store::open(1, &dir))?;
    for n in 0..2u8 { for k in &c.keys {
        let got = guard("reading", || s.get(n, k))?.map_err(|e| Fail(again(&format!("{k:?} cannot be read afterwards: {e}"))))?;
        let at = (n, k.clone());
        let fine = got.as_ref() == model.get(&at) || got.as_ref().is_some_and(|g| may.get(&at).is_some_and(|m| m.contains(g)));
        ensure!(fine, "{}", again(&format!("afterwards {k:?} in {} holds {:?} bytes, which were never stored there, instead of {:?}", ns(n).as_str(), got.map(|v| v.len()), model.get(&at).map(|v| v.len()))));
    } }
    o.nontrivial = refused > 0 || killed.is_some();
    o.class_if(killed.is_some(), "ended-while-writing");
    o.class_if(refused > 0, "write-refused");
    o.class_if(refused > 0 && stored > 0, "some-refused");
    o.class_if(c.during.iter().any(|(n, k, ..)| c.before.iter().any(|(m, l, ..)| m == n && key(*k) == key(*l))), "over-an-earlier-value");
    o.sample = Some(format!("{:?}", c));
    Ok(())
}
/// Several handles at once: a reader meets whole values only, and the last value is one of the last ones written.
fn check22_at_once(c: &(bool, Vec<(u8, u16)>), o: &mut Obs) -> Res {
    let scratch = tempfile::tempdir().map_err(|e| Fail(e.to_string()))?;
    let kind = if c.0 { 2 } else { 1 };
    let mut first = guard("opening", || Store::open(kind, scratch.path()))?;
    let whole = |v: &[u8]| c.1.iter().enumerate().any(|(i, (b, n))| v == trouble_value(b.wrapping_add(i as u8), *n));
    let value = |i: usize| trouble_value(c.1[i].0.wrapping_add(i as u8), c.1[i].1);
    first.put(0, "k", &value(0)).map_err(Fail)?;
    let (torn, left) = (std::sync::Mutex::new(None::<String>), std::sync::atomic::AtomicUsize::new(2));
    std::thread::scope(|t| {
        for half in 0..2 {
            let mut s = first.another();
            let (torn, left) = (&torn, &left);
            t.spawn(move || {
                for round in 0..4 { for i in (half..c.1.len()).step_by(2) {
                    match guard("inserting", || s.put(0, "k", &value(i))) { Ok(Ok(())) => {} e => { torn.lock().unwrap().get_or_insert(format!("write {i} of round {round} failed: {e:?}")); } }
                } }
                left.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
            });
        }
        let s = first.another();
        let (torn, left) = (&torn, &left);
        t.spawn(move || while left.load(std::sync::atomic::Ordering::SeqCst) > 0 {
            match guard("reading", || s.get(0, "k")) { Ok(Ok(Some(v))) if whole(&v) => {} e => { torn.lock().unwrap().get_or_insert(format!("a reader got {:?}", e.map(|r| r.map(|v| v.map(|v| v.len()))))); break } }
        });
    });
    if let Some(m) = torn.into_inner().unwrap() { return fail(format!("{m} while values of {:?} bytes were written by two handles", c.1.iter().map(|v| v.1).collect::<Vec<_>>())) }
    let got = first.get(0, "k").map_err(Fail)?;
    ensure!(got.as_ref().is_some_and(|v| whole(v)), "afterwards {:?} bytes are read", got.map(|v| v.len()));
    o.nontrivial = c.1.len() > 2;
    o.class(if c.0 { "sled" } else { "file system" });
    o.sample = Some(format!("{:?}", c));
    Ok(())
}
/// Where a storage is told to keep its values, which may be nowhere.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Place { Fresh(u8), Deep(u8), IsFile, UnderFile, NamespaceIsFile, NotText, HasNul, LongName, Untold }
#[derive(Clone, Debug, Serialize, Deserialize)]
enum PlaceOp { Go(Place), Put(u8, u8, u8, u16), List(u8) }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct PlaceCase { sled: bool, first: Place, ops: Vec<PlaceOp>, keys: Vec<String> }
fn place_case() -> BoxedStrategy<PlaceCase> {
    let place = || prop_oneof![6 => (0u8..3).prop_map(Place::Fresh), 3 => (0u8..3).prop_map(Place::Deep), 1 => Just(Place::IsFile), 1 => Just(Place::UnderFile), 1 => Just(Place::NamespaceIsFile), 1 => Just(Place::NotText), 1 => Just(Place::HasNul), 1 => Just(Place::LongName), 1 => Just(Place::Untold)];
    let op = prop_oneof![2 => place().prop_map(PlaceOp::Go), 6 => (0u8..6, 0u8..3, any::<u8>(), 0u16..60).prop_map(|(n, k, b, l)| PlaceOp::Put(n, k, b, l)), 1 => (0u8..6).prop_map(PlaceOp::List)];
    (prop_oneof![9 => Just(false), 1 => Just(true)], place(), vec(op, 1..14), vec(store_key(), 1..4)).prop_map(|(sled, first, ops, keys)| PlaceCase { sled, first, ops, keys }).boxed()
}
fn check22_places(c: &PlaceCase, o: &mut Obs) -> Res {
    use std::os::unix::ffi::OsStringExt;
    let scratch = tempfile::tempdir().map_err(|e| Fail(e.to_string()))?;
    let root = scratch.path().join("1/2/3/4/5/6/7");
    std::fs::create_dir_all(&root).map_err(|e| Fail(e.to_string()))?;
    std::fs::write(root.join("file"), b"in the way").map_err(|e| Fail(e.to_string()))?;
    std::fs::create_dir_all(root.join("blocked")).map_err(|e| Fail(e.to_string()))?;
    for n in 0..6u8 { std::fs::write(root.join("blocked").join(ns(n).as_str()), b"in the way").map_err(|e| Fail(e.to_string()))?; }
    // where the values are, or None where they cannot be
    let path = |p: Place| -> (Option<String>, std::path::PathBuf) { match p {
        Place::Fresh(n) => (Some(format!("store{n}")), root.join(format!("store{n}"))),
        Place::Deep(n) => (Some(format!("deep{n}")), root.join(format!("deep{n}/a/b"))),
        Place::IsFile => (None, root.join("file")),
        Place::UnderFile => (None, root.join("file/store")),
        Place::NamespaceIsFile => if c.sled { (Some("blocked".into()), root.join("blocked")) } else { (None, root.join("blocked")) },
        Place::NotText => (None, root.join(std::ffi::OsString::from_vec(vec![b'p', 0xff, b'q']))),
        Place::HasNul => (None, root.join("with\0nul")),
        Place::LongName => (None, root.join("l".repeat(300))),
        Place::Untold => (None, root.clone()),
    } };
    // the values of each place, kept apart
    let mut model: BTreeMap<(String, u8, String), Vec<u8>> = BTreeMap::new();
    let open = |p: Place, old: Option<&Store>| -> Result<Option<Store>, Fail> {
        let (_, path) = path(p);
        let conf = if matches!(p, Place::Untold) {
            let (a, b) = guard("a configuration without a path", || (SledDataStorageConfig::build().finalize(), FileSystemStorageConfig::build().finalize()))?;
            ensure!(a.is_err() && b.is_err(), "a configuration without a path is complete: {a:?}, {b:?}");
            return Ok(None);
        } else {
            let (a, b) = guard("configuring", || (SledDataStorageConfig::build().path(path.clone()).finalize(), FileSystemStorageConfig::build().path(path.clone()).finalize()))?;
            match (a, b, path.to_str()) {
                (Ok(a), Ok(b), Some(_)) => if c.sled { a } else { b },
                (Err(_), Err(_), None) => return Ok(None),
                (a, b, _) => return fail(format!("configurations of {path:?} are {a:?} and {b:?}")),
            }
        };
        guard("opening", || Some(match (c.sled, old) {
            (true, Some(Store::Sled(s))) => Store::Sled(s.config(conf)),
            (true, _) => Store::Sled(SledDataStorage::new().config(conf)),
            (_, Some(Store::Fs(s))) => Store::Fs(s.config(conf)),
            _ => Store::Fs(FileSystemStorage::new().config(conf)),
        }))
    };
    // a database that was just closed is locked for a moment
    let settled = |p: Place, mut s: Store| -> Result<Store, Fail> {
        let mut tries = 0;
        while c.sled && path(p).0.is_some() && s.get(0, "x").is_err() {
            tries += 1;
            ensure!(tries < 20_000, "a database is not opened in {:?}", path(p).1);
            std::thread::sleep(std::time::Duration::from_millis(2));
            s = open(p, None)?.unwrap();
        }
        Ok(s)
    };
    let mut at = c.first;
    let mut s = match open(at, None)? { Some(s) => settled(at, s)?, None => if c.sled { Store::Sled(SledDataStorage::new()) } else { Store::Fs(FileSystemStorage::new()) } };
    let (mut stored, mut refused, mut moves) = (0, 0, 0);
    for (step, op) in c.ops.iter().enumerate() {
        let here = path(at).0;
        let ctx = |m: &str| format!("{m} (step {step} of {:?}, first at {:?}, on the {} storage)", c.ops, c.first, if c.sled { "sled" } else { "file system" });
        match op {
            PlaceOp::Go(p) => {
                // a database is not opened twice at once; a place that cannot be opened is tried with a storage of its own
                if c.sled { s = Store::Sled(SledDataStorage::new()) }
                let usable = path(*p).0.is_some();
                s = match open(*p, if usable && here.is_some() { Some(&s) } else { None })? { Some(s) => settled(*p, s)?, None => if c.sled { Store::Sled(SledDataStorage::new()) } else { Store::Fs(FileSystemStorage::new()) } };
                if usable && here.is_some() && path(*p).0 != here { moves += 1 }
                at = *p;
            }
            PlaceOp::Put(n, k, b, l) => {
                let k = &c.keys[*k as usize % c.keys.len()];
                let v = trouble_value(*b, *l);
                match (guard("inserting", || s.put(*n, k, &v))?, &here) {
                    (Ok(()), Some(h)) => { model.insert((h.clone(), *n, k.clone()), v); stored += 1 }
                    (Ok(()), None) => return fail(ctx(&format!("{k:?} is stored at {at:?}"))),
                    (Err(e), Some(_)) => return fail(ctx(&format!("{k:?} is not stored: {e}"))),
                    (Err(e), None) => { ensure!(!e.is_empty(), "{}", ctx("refused without a reason")); refused += 1 }
                }
            }
            PlaceOp::List(n) => match (guard("listing", || s.all(*n))?, &here) {
                (Ok(all), Some(h)) => {
                    let got: BTreeMap<String, Vec<u8>> = all.into_iter().collect();
                    let want: BTreeMap<String, Vec<u8>> = model.iter().filter(|((p, m, _), _)| p == h && m == n).map(|((_, _, k), v)| (k.clone(), v.clone())).collect();
                    ensure_eq!(got, want, "{}", ctx("listing"));
                }
                (Ok(all), None) => ensure!(all.is_empty(), "{}", ctx(&format!("{} values are listed", all.len()))),
                (Err(e), h) => ensure!((!c.sled || h.is_none()) && !e.is_empty(), "{}", ctx(&format!("listing failed: {e}"))),
            },
        }
        let here = path(at).0;
        for n in 0..6u8 { for k in &c.keys {
            match (guard("reading", || s.get(n, k))?, &here) {
                (Ok(v), Some(h)) => ensure!(v.as_ref() == model.get(&(h.clone(), n, k.clone())), "{}", ctx(&format!("{k:?} in {} holds {:?} instead of {:?}", ns(n).as_str(), v.map(|v| v.len()), model.get(&(h.clone(), n, k.clone())).map(|v| v.len())))),
                (Ok(v), None) => ensure!(v.is_none(), "{}", ctx(&format!("{k:?} is read where nothing can be stored"))),
                (Err(e), Some(_)) => return fail(ctx(&format!("{k:?} cannot be read: {e}"))),
                (Err(e), None) => ensure!(!e.is_empty(), "{}", ctx("an error without a reason")),
            }
        } }
    }
    ensure!(std::fs::read(root.join("file")).is_ok_and(|v| v == b"in the way"), "a file that was in the way is gone or changed ({:?})", c.ops);
    o.nontrivial = stored > 0 && (moves > 0 || refused > 0);
    o.class_if(moves > 0, "another-place");
    o.class_if(refused > 0, "no-place");
    o.class(if c.sled { "sled" } else { "file system" });
    o.sample = Some(format!("{:?}", c));
    Ok(())
}
pub fn p22(ctx: &Ctx) {
    ctx.campaign("places", 6_000, 200_000, place_case, check22_places);
    ctx.campaign("failing", 4_000, 60_000, trouble_case, check22_trouble);
    ctx.campaign("at-once", 400, 8_000, || (proptest::sample::select(vec![false, false, false, false, false, false, false, true]), vec((any::<u8>(), prop_oneof![0u16..50, 50u16..60_000]), 2..8)).boxed(), check22_at_once);
    ctx.campaign("histories", 25_000, 800_000, store_case, check22);
    ctx.campaign("unopened", 8, 8, || Just(Prog { prog: vec![] }).boxed(), check22_closed);
}

// ---------------------------------------------------------------- P23

pub const RULE23: &str = "at least two instructions or three pairs, of which one replaces an earlier one or a name needs care (dashes, keywords)";
#[derive(Clone, Debug, Serialize, Deserialize)]
struct TransCase { prog: Vec<Tr>, meta: Vec<(u8, String)>, lay: Lay, lay2: Lay, chunks: Vec<u8>, edit: (u8, u8, String) }
const TR_KEYS: [&str; 4] = ["name", "version", "source", "target"];
fn tr_case() -> BoxedStrategy<TransCase> {
    let value = || prop_oneof![4 => proptest::sample::select(said_pool().clone()).prop_map(|s| format!("refs:{s}")), 1 => proptest::sample::select(said_pool().clone()), 2 => "[A-Za-z0-9._/:-]{1,8}", 1 => "[A-Za-z0-9 ,;é]{1,10}"];
    // source and target come together, as building wants them, unless there are no meta values at all
    let meta = prop_oneof![
        2 => Just(vec![]),
        5 => (value(), value(), vec((0u8..4, value()), 0..3), any::<bool>()).prop_map(|(s, t, mut more, swap)| { more.push((2, s)); more.push((3, t)); if swap { more.reverse() } more }),
        1 => vec((0u8..4, value()), 1..3),
    ];
    (tr_program(6), meta, lay(), lay(), vec(any::<u8>(), 1..12), (any::<u8>(), any::<u8>(), gen::tr_name())).prop_map(|(prog, meta, lay, lay2, chunks, edit)| TransCase { prog, meta, lay, lay2, chunks, edit }).boxed()
}
fn tr_meta(m: &[(u8, String)]) -> Vec<(String, String)> { m.iter().map(|(k, v)| (TR_KEYS[*k as usize % 4].to_string(), v.trim().to_string())).filter(|(_, v)| !v.is_empty()).collect() }
fn tr_json(p: &Tr) -> Value {
    let mut m = serde_json::Map::new();
    for (a, b) in p.pairs() { m.insert(a.clone(), json!(b)); }
    let kind = if matches!(p, Tr::Link(_)) { "Link" } else { "Rename" };
    json!({"type": kind, "object_kind": kind, "content": {"attributes": m}})
}
fn tr_encode(t: &Transformation) -> Result<String, Fail> {
    match guard("encoding a transformation", || t.encode(&HashFunctionCode::Blake3_256, &SerializationFormats::JSON))? { Ok(v) => String::from_utf8(v).map_err(|e| Fail(e.to_string())), Err(e) => fail(format!("a transformation cannot be encoded: {e:?}")) }
}
type TrAst = oca_file_transformation::ocafile::TransformationAST;
fn tr_parse(t: &str) -> Result<TrAst, Fail> {
    match guard("parsing", || oca_file_transformation::ocafile::parse_from_string(t.to_string()))? { Ok(a) => Ok(a), Err(e) => fail(format!("well-formed transformation file was rejected: {e}\n{t}")) }
}
fn tr_build(a: &TrAst) -> Result<Result<Transformation, Vec<String>>, Fail> { guard("building", || transformation_file::build::from_ast(a).map_err(|e| e.iter().map(|x| x.to_string()).collect())) }
fn check_tr(t: &Transformation, map: &[(String, String)], source: Option<&str>, target: Option<&str>, txt: &str) -> Result<String, Fail> {
    let got: Vec<(String, String)> = t.attributes.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
    ensure_eq!(got, map.to_vec(), "mapping\n{txt}");
    ensure_eq!((t.source.as_deref(), t.target.as_deref()), (source, target), "source and target\n{txt}");
    let json = tr_encode(t)?;
    let v: Value = serde_json::from_str(&json).map_err(|e| Fail(e.to_string()))?;
    let mut m = serde_json::Map::new();
    for (a, b) in map { m.insert(a.clone(), json!(b)); }
    let id = t.said.as_ref().map(|s| s.to_string()).unwrap_or_default();
    ensure_eq!(v, json!({"v": v["v"], "d": id, "source": source, "target": target, "attributes": m}), "encoded transformation\n{txt}");
    ensure_eq!(id, digest(&v), "identifier of {json}\n{txt}");
    let back: Transformation = match guard("reading back", || serde_json::from_str::<Transformation>(&json))? { Ok(b) => b, Err(e) => return fail(format!("an encoded transformation is not read back: {e}\n{json}")) };
    ensure_eq!(format!("{back:?}"), format!("{t:?}"), "transformation read back from {json}");
    ensure_eq!(tr_encode(&back)?, json, "encoding of what was read back");
    let plain = serde_json::to_string(t).map_err(|e| Fail(e.to_string()))?;
    let back: Transformation = serde_json::from_str(&plain).map_err(|e| Fail(format!("{plain} is not read back: {e}")))?;
    ensure_eq!(tr_encode(&back)?, json, "encoding of what was read back from {plain}");
    Ok(json)
}
fn check23(c: &TransCase, o: &mut Obs) -> Res {
    let meta = tr_meta(&c.meta);
    let r = render_tr(&c.prog, &meta, &c.lay);
    let pairs: Vec<(String, String)> = c.prog.iter().flat_map(|p| p.pairs().clone()).collect();
    let mut map: IndexMap<String, String> = IndexMap::new();
    for (a, b) in &pairs { map.insert(a.clone(), b.clone()); }
    let map: Vec<(String, String)> = map.into_iter().collect();
    o.nontrivial = (c.prog.len() >= 2 || pairs.len() >= 3) && (map.len() < pairs.len() || pairs.iter().any(|(a, b)| a.contains('-') || b.contains('-') || ["link", "rename", "attribute"].contains(&a.as_str())));
    o.class_if(map.len() < pairs.len(), "replaced");
    o.sample = Some(r.text.clone());
    // parsing
    let ast = tr_parse(&r.text)?;
    let got = serde_json::to_value(&ast.commands).map_err(|e| Fail(e.to_string()))?;
    ensure_eq!(got, Value::Array(c.prog.iter().map(tr_json).collect()), "instructions of\n{}", r.text);
    for (n, p) in c.prog.iter().enumerate() { // order of the pairs of an instruction
        let got: Vec<&str> = got[n]["content"]["attributes"].as_object().unwrap().keys().map(|k| k.as_str()).collect();
        let mut want: Vec<&str> = vec![];
        for (a, _) in p.pairs() { if !want.contains(&a.as_str()) { want.push(a) } }
        ensure_eq!(got, want, "order of pairs of instruction {n} of\n{}", r.text);
    }
    let want_meta: BTreeMap<String, String> = meta.iter().cloned().collect();
    let got_meta: BTreeMap<String, String> = ast.meta.clone().into_iter().collect();
    // a meta line repeated further down counts; they are placed in any order, so only unrepeated ones are compared
    for (k, v) in &want_meta { if meta.iter().filter(|m| m.0 == *k).count() == 1 { ensure_eq!(got_meta.get(k), Some(v), "meta value {k} of\n{}", r.text) } }
    ensure_eq!(got_meta.keys().collect::<Vec<_>>(), want_meta.keys().collect::<Vec<_>>(), "meta keys of\n{}", r.text);
    ensure_eq!(ast.commands_meta.len(), c.prog.len(), "positions");
    for (n, (line, txt)) in r.at.iter().enumerate() {
        let m = ast.commands_meta.get(&n).ok_or_else(|| Fail(format!("no position of instruction {n}")))?;
        ensure_eq!((m.line_number, m.raw_line.trim_end()), (*line, txt.as_str()), "position of instruction {n} of\n{}", r.text);
    }
    let j = serde_json::to_string(&ast).map_err(|e| Fail(e.to_string()))?;
    let back: TrAst = match serde_json::from_str(&j) { Ok(b) => b, Err(e) => return fail(format!("instructions are not read back from {j}: {e}")) };
    ensure!(back == ast, "instructions read back from {j} differ");
    // the same file, declared to be a transformation, through the parser for files of unknown kind
    if !r.text.is_empty() {
        let top = format!("-- precompiler=transformation\n{}", r.text);
        match guard("parsing", || oca_file::ocafile::parse_from_string(top.clone()))? {
            Ok(oca_file::ocafile::OCAAst::TransformationAst(a)) => ensure!(a.commands == ast.commands, "another parse through the parser for any file\n{top}"),
            Ok(_) => return fail(format!("a transformation is parsed as semantics\n{top}")),
            Err(e) => {
                // it takes lines that begin with two dashes for meta lines, even in a continued instruction (K09B)
                ensure!(r.text.lines().any(|l| l.trim_start().starts_with("--b")), "rejected by the parser for any file: {e}\n{top}");
            }
        }
    }
    // building
    let has = |k: &str| want_meta.contains_key(k);
    let t = match tr_build(&ast)? {
        Ok(t) => { ensure!(meta.is_empty() || (has("source") && has("target")), "built without source or target\n{}", r.text); t }
        Err(e) => {
            ensure!(!e.is_empty() && !meta.is_empty() && !(has("source") && has("target")), "rejected: {e:?}\n{}", r.text);
            for k in ["source", "target"] { ensure!(has(k) || e.iter().any(|m| m.contains(k)), "{k} is missing, but the errors are {e:?}"); }
            o.class("incomplete");
            return Ok(());
        }
    };
    let strip = |k: &str| got_meta.get(k).map(|v| v.strip_prefix("refs:").unwrap_or(v).to_string());
    let (source, target) = (strip("source"), strip("target"));
    let json = check_tr(&t, &map, source.as_deref(), target.as_deref(), &r.text)?;
    o.class_if(source.is_some(), "with-source");
    // the same content written another way
    let mut again: Vec<Tr> = vec![];
    let mut rest = &map[..];
    let mut k = 0;
    while !rest.is_empty() {
        let b = c.chunks[k % c.chunks.len()] as usize; k += 1;
        let n = 1 + b / 2 % rest.len();
        again.push(if b % 2 == 0 { Tr::Rename(rest[..n].to_vec()) } else { Tr::Link(rest[..n].to_vec()) });
        rest = &rest[n..];
    }
    let meta2: Vec<(String, String)> = [("target", &target), ("source", &source)].iter().filter_map(|(k, v)| v.as_ref().map(|v| (k.to_string(), if c.edit.0 % 2 == 0 { v.clone() } else { format!("refs:{v}") }))).collect();
    let r2 = render_tr(&again, &meta2, &c.lay2);
    let t2 = match tr_build(&tr_parse(&r2.text)?)? { Ok(t) => t, Err(e) => return fail(format!("rejected: {e:?}\n{}", r2.text)) };
    ensure_eq!(tr_encode(&t2)?, json, "the same content written another way\n{}\n--- and\n{}", r.text, r2.text);
    // other content
    let (mut m2, mut s2, mut g2) = (map.clone(), source.clone(), target.clone());
    match c.edit.0 % 5 {
        0 if !m2.is_empty() => { let i = c.edit.1 as usize % m2.len(); m2[i].1 = c.edit.2.clone() }
        1 if !m2.is_empty() => { let i = c.edit.1 as usize % m2.len(); m2.remove(i); }
        2 if s2.is_some() => s2 = Some(c.edit.2.clone()),
        3 if g2.is_some() => g2 = Some(c.edit.2.clone()),
        _ => { if !m2.iter().any(|p| p.0 == c.edit.2) { m2.push((c.edit.2.clone(), "z".into())) } }
    }
    let meta3: Vec<(String, String)> = [("source", &s2), ("target", &g2)].iter().filter_map(|(k, v)| v.as_ref().map(|v| (k.to_string(), v.clone()))).collect();
    let r3 = render_tr(&if m2.is_empty() { vec![] } else { vec![Tr::Link(m2.clone())] }, &meta3, &Lay::default());
    let t3 = match tr_build(&tr_parse(&r3.text)?)? { Ok(t) => t, Err(e) => return fail(format!("rejected: {e:?}\n{}", r3.text)) };
    let same = m2 == map && s2 == source && g2 == target;
    o.class_if(!same, "other-content");
    ensure!((t3.said == t.said) == same, "identifier {:?} of content that is {}\n{}\n--- and\n{}", t3.said.map(|s| s.to_string()), if same { "the same" } else { "another" }, r.text, r3.text);
    Ok(())
}
/// Files that are no transformation files.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BadTr { prog: Vec<Tr>, kind: u8, at: u8, lay: Lay }
fn check23_bad(c: &BadTr, o: &mut Obs) -> Res {
    let bad = ["FROM EABC", "RENAME ATTRIBUTE a", "RENAME ATTRIBUTE a=", "LINK ATTRIBUTE a", "LINK ATTRIBUTE a = b", "RENAME ATTRIBUTE a -> b", "LINK ATTRIBUTE a b", "RENAME", "LINK ATTRIBUTE", "REMOVE ATTRIBUTE a", "ADD ATTRIBUTE a=Text", "RENAME ATTRIBUTE a.b=c", "LINK ATTRIBUTE a ->", "RENAME ATTRIBUTE a=b c", "RENAME LABEL a=b", "LINK ATTRIBUTE \"a\" -> b", "a=b", "-- source", "-- source=", "-- target=\"\""][c.kind as usize % 20];
    let at = c.at as usize % (c.prog.len() + 1);
    let mut t = render_tr(&c.prog[..at], &[], &c.lay).text;
    if !t.is_empty() && !t.ends_with('\n') { t.push('\n') }
    t.push_str(bad); t.push('\n');
    t.push_str(&render_tr(&c.prog[at..], &[], &c.lay).text);
    o.nontrivial = !c.prog.is_empty();
    o.sample = Some(t.clone());
    match guard("parsing", || oca_file_transformation::ocafile::parse_from_string(t.clone()))? {
        Ok(a) => fail(format!("{bad:?} is accepted as {:?}\n{t}", a.commands)),
        Err(e) => { ensure!(!e.to_string().is_empty(), "no error"); Ok(()) }
    }
}
pub fn p23(ctx: &Ctx) {
    ctx.campaign("long", 4_000, 200_000, || (tr_case(), gen::size(200).prop_flat_map(|n| prop_oneof![tr_program(n as usize + 1), vec((gen::tr_name(), gen::tr_name()), n as usize..n as usize + 1).prop_map(|p| vec![Tr::Link(p)])])).prop_map(|(mut c, prog)| { c.prog = prog; c }).boxed(), check23);
    ctx.campaign("files", 60_000, 2_000_000, tr_case, check23);
    ctx.campaign("bad-files", 20_000, 400_000, || (tr_program(4), any::<u8>(), any::<u8>(), lay()).prop_map(|(prog, kind, at, lay)| BadTr { prog, kind, at, lay }).boxed(), check23_bad);
}

// ---------------------------------------------------------------- P24

pub const RULE24: &str = "a URN of a known namespace, or one change away from one";
#[derive(Clone, Debug, Serialize, Deserialize)]
struct UrnCase { value: String }
fn digits() -> BoxedStrategy<String> { "[0-9]{1,5}".boxed() }
fn opt(s: impl Strategy<Value = String> + 'static) -> BoxedStrategy<String> { prop_oneof![2 => Just(String::new()), 1 => s].boxed() }
fn cat(v: Vec<BoxedStrategy<String>>) -> BoxedStrategy<String> { v.prop_map(|v| v.concat()).boxed() }
fn sel(v: &[&str]) -> BoxedStrategy<String> { proptest::sample::select(v.iter().map(|s| s.to_string()).collect::<Vec<_>>()).boxed() }
fn j(s: &str) -> BoxedStrategy<String> { Just(s.to_string()).boxed() }
const ORIGIN: [&str; 6] = ["iso", "iso-iec", "iso-cie", "iso-astm", "iso-ieee", "iec"];
const DOCTYPE: [&str; 9] = ["data", "guide", "isp", "iwa", "pas", "r", "tr", "ts", "tta"];
const LANGUAGES: [&str; 9] = ["en", "fr", "ru", "es", "ar", "en,fr", "en,ru", "fr,ru", "en,fr,ru"];
fn iteration() -> BoxedStrategy<String> { opt(cat(vec![j(".v"), digits()])) }
fn supplement_version() -> BoxedStrategy<String> { cat(vec![sel(&["-amd", "-cor", "-add"]), digits(), iteration()]) }
fn element() -> BoxedStrategy<String> {
    let one = || cat(vec![prop_oneof!["[a-z]", digits()].boxed(), vec(cat(vec![j("."), digits()]), 0..3).prop_map(|v| v.concat()).boxed()]);
    cat(vec![one(), opt(cat(vec![j("-"), one()])), ])
}
fn iso() -> BoxedStrategy<String> {
    let stage = cat(vec![j("stage-"), "[0-9]{2}".boxed(), j("."), "[0-9]{2}".boxed(), iteration()]);
    let status = prop_oneof![Just("draft".to_string()), Just("cancelled".to_string()), stage].boxed();
    let edition = opt(cat(vec![opt(cat(vec![j(":"), status])), j(":ed-"), digits()]));
    let version = opt(cat(vec![j(":v"), digits(), vec(supplement_version(), 0..3).prop_map(|v| v.concat()).boxed()]));
    let language = || opt(cat(vec![j(":"), sel(&LANGUAGES)]));
    let supplement = vec(cat(vec![j(":"), sel(&["amd", "cor", "add"]), j(":"), digits(), opt(cat(vec![j(":v"), digits()])), language()]), 0..3).prop_map(|v| v.concat()).boxed();
    let docelement = vec(cat(vec![j(":"), sel(&["clause", "figure", "table", "term"]), j(":"), element(), vec(cat(vec![j(","), element()]), 0..3).prop_map(|v| v.concat()).boxed()]), 0..2).prop_map(|v| v.concat()).boxed();
    cat(vec![j("std:"), sel(&ORIGIN), opt(cat(vec![j(":"), sel(&DOCTYPE)])), j(":"), digits(), opt(cat(vec![j(":-"), "[a-z0-9-]{1,4}".boxed()])), edition, version, language(), supplement, docelement, opt("[:]tech:[a-z0-9:.-]{0,8}")])
}
fn ietf() -> BoxedStrategy<String> {
    prop_oneof![cat(vec![sel(&["rfc:", "fyi:", "std:", "bcp:"]), digits()]), cat(vec![sel(&["id:", "mtg:"]), "[a-z0-9-]{1,10}".boxed()]), "[a-z0-9-]{1,10}"].boxed()
}
fn urn() -> BoxedStrategy<String> {
    prop_oneof![cat(vec![j("urn:iso:"), iso()]), cat(vec![j("urn:ietf:"), ietf()]), cat(vec![j("urn:"), sel(&["isbn", "uuid", "iso-x", "ietfx", "is", "oca", "ISO", "example", "nid0"]), j(":"), prop_oneof![iso(), ietf(), "[a-z0-9:-]{1,12}"].boxed()])].boxed()
}
#[derive(Clone, Debug)]
struct Poke(u16, u8, String);
fn poked() -> BoxedStrategy<String> {
    let piece = prop_oneof![4 => sel(&[":", "-", ".", ",", "x", "0", "v", "1", " ", "é", "%", "%20", "/", "?", "#", "std", "rfc", "ed-", "K", "K", "ſ", "İ", "\n", "_", "urn:", "::", "iso", "stage-", "en", "amd", "tech:", "\0", "(", "<"]), 1 => "[a-z0-9]{1,3}", 1 => any::<char>().prop_map(|c| c.to_string())];
    let p = (any::<u16>(), 0u8..4, piece).prop_map(|(a, b, c)| Poke(a, b, c));
    (urn(), vec(p, 0..3), 0u8..4).prop_map(|(mut s, ps, case)| {
        for Poke(at, how, piece) in ps {
            let mut v: Vec<char> = s.chars().collect();
            let at = at as usize % (v.len() + 1);
            let end = match how { 0 => at, 1 => (at + 1).min(v.len()), 2 => (at + piece.chars().count()).min(v.len()), _ => (at + 4).min(v.len()) };
            v.splice(at..end, if how == 1 && piece.len() == 1 { "".chars() } else { piece.chars() });
            s = v.into_iter().collect();
        }
        match case { 1 => s.to_ascii_uppercase(), 2 => s.char_indices().map(|(i, c)| if i % 3 == 0 { c.to_ascii_uppercase() } else { c }).collect(), _ => s }
    }).boxed()
}
fn all_digits(s: &str) -> bool { !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) }
fn word(s: &str) -> bool { !s.is_empty() && s.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-') }
/// Drops a number in front of the text.
fn eat_digits(s: &str) -> Option<&str> { let n = s.bytes().take_while(|b| b.is_ascii_digit()).count(); (n > 0).then(|| &s[n..]) }
fn eat_iteration(s: &str) -> &str { match s.strip_prefix(".v").and_then(eat_digits) { Some(r) => r, None => s } }
fn is_status(s: &str) -> bool {
    if s == "draft" || s == "cancelled" { return true }
    let Some(r) = s.strip_prefix("stage-") else { return false };
    let b = r.as_bytes();
    if !(b.len() >= 5 && b[0].is_ascii_digit() && b[1].is_ascii_digit() && b[2] == b'.' && b[3].is_ascii_digit() && b[4].is_ascii_digit()) { return false }
    r[5..].is_empty() || eat_iteration(&r[5..]).is_empty()
}
fn is_version(s: &str) -> bool {
    let Some(mut r) = s.strip_prefix('v').and_then(eat_digits) else { return false };
    while !r.is_empty() {
        let Some(x) = ["-amd", "-cor", "-add"].iter().find_map(|p| r.strip_prefix(p)).and_then(eat_digits) else { return false };
        r = eat_iteration(x);
    }
    true
}
fn is_element(s: &str) -> bool {
    let mut it = s.split('.');
    let first = it.next().unwrap();
    (all_digits(first) || first.len() == 1 && first.as_bytes()[0].is_ascii_alphabetic()) && it.all(all_digits)
}
fn is_elements(s: &str) -> bool { s.split(',').all(|e| is_element(e) || e.split_once('-').is_some_and(|(a, b)| is_element(a) && is_element(b))) }
/// ISO's own syntax (RFC 5141), component by component.
fn is_iso(nss: &str) -> bool {
    let (nss, tech) = match nss.find(":tech:") { Some(i) => (&nss[..i], true), None => (nss, false) };
    let _ = tech;
    let c: Vec<&str> = nss.split(':').collect();
    let mut i = 0;
    let take = |i: &mut usize, f: &dyn Fn(&str) -> bool| -> bool { if c.get(*i).is_some_and(|s| f(s)) { *i += 1; true } else { false } };
    if !take(&mut i, &|s| s == "std") || !take(&mut i, &|s| ORIGIN.contains(&s)) { return false }
    take(&mut i, &|s| DOCTYPE.contains(&s));
    if !take(&mut i, &all_digits) { return false }
    take(&mut i, &|s| s.strip_prefix('-').is_some_and(word));
    let edition = |s: &str| s.strip_prefix("ed-").is_some_and(all_digits);
    if !take(&mut i, &edition) && c.get(i).is_some_and(|s| is_status(s)) && c.get(i + 1).is_some_and(|s| edition(s)) { i += 2 }
    take(&mut i, &is_version);
    let language = |s: &str| LANGUAGES.contains(&s);
    take(&mut i, &language);
    while c.get(i).is_some_and(|s| ["amd", "cor", "add"].contains(s)) && c.get(i + 1).is_some_and(|s| all_digits(s)) {
        i += 2;
        take(&mut i, &|s| s.strip_prefix('v').is_some_and(all_digits));
        take(&mut i, &language);
    }
    while c.get(i).is_some_and(|s| ["clause", "figure", "table", "term"].contains(s)) && c.get(i + 1).is_some_and(|s| is_elements(s)) { i += 2 }
    i == c.len()
}
fn is_ietf(nss: &str) -> bool {
    match nss.split_once(':') { None => word(nss), Some(("rfc" | "fyi" | "std" | "bcp", n)) => all_digits(n), Some(("id" | "mtg", n)) => word(n), _ => false }
}
/// Whether a standard is to be accepted; no verdict where the text depends on details of URNs the syntax leaves to others.
fn standard(v: &str) -> Option<bool> {
    let l = v.to_ascii_lowercase();
    let Some(r) = l.strip_prefix("urn:") else { return Some(false) };
    let Some((nid, nss)) = r.split_once(':') else { return Some(false) };
    if nid != "iso" && nid != "ietf" { return Some(false) }
    if nss.chars().any(|c| !c.is_ascii() || c.is_ascii_control() || " \"<>\\^`{|}".contains(c)) { return Some(false) }
    if nss.contains(['?', '#', '%']) { return None } // parts of a URN beyond the name
    if nid == "ietf" { return Some(is_ietf(nss)) }
    if is_iso(nss) { return Some(true) }
    // letters at the very end: the table of patterns lets them pass
    let cut = nss.trim_end_matches(|c: char| c.is_ascii_alphabetic());
    if cut != nss && (0..nss.len() - cut.len()).any(|n| is_iso(&nss[..cut.len() + n])) { return None }
    Some(false)
}
fn check24(c: &UrnCase, o: &mut Obs) -> Res {
    use oca_bundle_semantics::state::standard::Standard;
    o.sample = Some(c.value.clone());
    let want = standard(&c.value);
    o.nontrivial = c.value.to_ascii_lowercase().starts_with("urn:i");
    o.class(match want { Some(true) => "accepted", Some(false) => "rejected", None => "no-verdict" });
    let s = Standard::new(c.value.clone());
    let got = guard("validating a standard", || s.validate().map(|_| ()))?;
    if let Err(e) = &got { ensure!(!e.is_empty(), "{:?} is rejected without a reason", c.value) }
    if let Some(w) = want { ensure!(got.is_ok() == w, "{:?} is {}: {got:?}", c.value, if w { "rejected" } else { "accepted" }) }
    // the same through JSON, alone and in an overlay of a bundle
    let read: Result<Standard, _> = guard("reading a standard", || serde_json::from_value(json!(c.value)))?;
    ensure_eq!(read.is_ok(), got.is_ok(), "{:?} read from JSON", c.value);
    if let Ok(s) = &read { ensure_eq!(serde_json::to_value(s).unwrap(), json!(c.value.to_ascii_lowercase()), "a standard read from JSON and written again") }
    let doc = json!({"d": null, "capture_base": {"d": null, "type": "spec/capture_base/1.1", "attributes": {"a": "Text", "b": "Text"}, "classification": "", "flagged_attributes": []},
        "overlays": {"standard": {"d": null, "capture_base": null, "type": "spec/overlays/standard/1.1", "attribute_standards": {"b": "urn:ietf:rfc:2648", "a": c.value}}}});
    match util::load(&doc.to_string())? {
        Ok(b) => {
            ensure!(got.is_ok(), "a bundle with the standard {:?} is loaded", c.value);
            let v = util::bundle_json(&b)?;
            ensure_eq!(v["overlays"]["standard"]["attribute_standards"], json!({"a": c.value.to_ascii_lowercase(), "b": "urn:ietf:rfc:2648"}), "standards of the loaded bundle");
            o.class("loaded");
        }
        Err(e) => ensure!(got.is_err(), "a bundle with the standard {:?} is not loaded: {e}", c.value),
    }
    Ok(())
}
pub fn p24(ctx: &Ctx) {
    ctx.campaign("urns", 150_000, 4_000_000, || poked().prop_map(|value| UrnCase { value }).boxed(), check24);
    ctx.campaign("texts", 30_000, 1_000_000, || prop_oneof![any::<String>(), "urn:[a-z:]{0,8}", "(urn|URN|Urn):(iso|ietf|ISO):\\PC{0,10}"].prop_map(|value| UrnCase { value }).boxed(), check24);
}

// ---------------------------------------------------------------- P25

pub const RULE25: &str = "a semantic bundle with at least two overlays or facts, or at least two transformations";
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Combined { prog: Option<Vec<gen::Ins>>, /** semantic bundles added before, of which nothing is to remain */ #[serde(default)] before: Vec<Vec<gen::Ins>>, trans: Vec<(Vec<Tr>, Option<(String, String)>)>, order: u8, edit: u8 }
fn combined() -> BoxedStrategy<Combined> {
    let id = || proptest::sample::select(said_pool().clone());
    (proptest::option::weighted(0.8, (program(FULL), prop_oneof![4 => Just(vec![]), 1 => vec(program(FULL), 1..3)])), vec((tr_program(4), proptest::option::of((id(), id()))), 0..5), any::<u8>(), any::<u8>()).prop_map(|(prog, trans, order, edit)| { let (prog, before) = prog.map_or((None, vec![]), |(p, b)| (Some(p), b)); Combined { prog, before, trans, order, edit } }).boxed()
}
fn assemble(c: &Combined) -> Result<(Bundle, Option<String>, Vec<String>), Fail> {
    let mut parts: Vec<BundleElement> = vec![];
    let mut m = None;
    let mut ts = vec![];
    for (p, meta) in &c.trans {
        let meta: Vec<(String, String)> = meta.iter().flat_map(|(s, t)| [("source".to_string(), s.clone()), ("target".to_string(), t.clone())]).collect();
        let t = match tr_build(&tr_parse(&render_tr(p, &meta, &Lay::default()).text)?)? { Ok(t) => t, Err(e) => return fail(format!("{e:?}")) };
        ts.push(tr_encode(&t)?);
        parts.push(BundleElement::Transformation(t));
    }
    if let Some(p) = &c.prog { if !p.is_empty() {
        let b = util::build_ok(None, &super::p_build::ast_of(p))?;
        m = Some(util::encode(&b.oca_bundle)?);
        let mut last = c.order as usize % (parts.len() + 1);
        parts.insert(last, BundleElement::Structural(b.oca_bundle));
        for (k, p) in c.before.iter().enumerate() {
            let b = util::build_ok(None, &super::p_build::ast_of(p))?;
            parts.insert((c.edit as usize + k) % (last + 1), BundleElement::Structural(b.oca_bundle));
            last += 1;
        }
    } }
    let mut b = Bundle::new();
    for p in parts { guard("adding", || b.add(p))?; }
    Ok((b, m, ts))
}
fn combined_json(b: &Bundle) -> Result<String, Fail> { match guard("encoding a combined bundle", || b.encode())? { Ok(s) => Ok(s), Err(e) => fail(format!("a combined bundle cannot be encoded: {e}")) } }
fn check_combined(text: &str, m: &Option<String>, ts: &[String]) -> Result<Value, Fail> {
    let v: Value = match serde_json::from_str(text) { Ok(v) => v, Err(e) => return fail(format!("not JSON: {e}\n{text}")) };
    let parse = |s: &String| serde_json::from_str::<Value>(s).unwrap();
    ensure_eq!(v["m"], m.as_ref().map(parse).unwrap_or(Value::Null), "semantic bundle of {text}");
    ensure_eq!(v["t"], Value::Array(ts.iter().map(parse).collect()), "transformations of {text}");
    ensure_eq!(v.as_object().unwrap().keys().collect::<Vec<_>>(), ["v", "d", "m", "t"], "parts of {text}");
    ensure_eq!(v["d"], json!(digest(&v)), "identifier of {text}");
    ensure!(v["v"].as_str().is_some_and(|s| s.len() == 17 && usize::from_str_radix(&s[10..16], 16) == Ok(text.len())), "size {} of {} bytes", v["v"], text.len());
    Ok(v)
}
fn check25(c: &Combined, o: &mut Obs) -> Res {
    // a property named like a field of the overlay makes a document that cannot be read (K08A)
    let (mut b, m, ts) = assemble(c)?;
    o.nontrivial = ts.len() >= 2 || m.as_ref().is_some_and(|m| m.matches("\"capture_base\":").count() >= 3);
    o.class(format!("transformations:{}", ts.len().min(3))); o.class(if m.is_some() { "semantic" } else { "no-semantic" });
    let text = combined_json(&b)?;
    o.class_if(!c.before.is_empty() && m.is_some(), "set-again");
    o.sample = Some(text.clone());
    let v = check_combined(&text, &m, &ts)?;
    ensure_eq!(combined_json(&b)?, text, "encoding again");
    guard("computing the identifier", || b.fill_said())?;
    ensure_eq!(b.said.as_ref().map(|s| s.to_string()), v["d"].as_str().map(String::from), "identifier computed for the bundle of {text}");
    ensure_eq!(combined_json(&b)?, text, "encoding with the identifier computed");
    let back = match guard("loading", || oca_rs::facade::bundle::load_oca(&mut text.as_bytes()).map_err(|e| e.to_string()))? { Ok(b) => b, Err(e) => return fail(format!("the document is not loaded: {e}\n{text}")) };
    ensure_eq!(back.said.as_ref().map(|s| s.to_string()), v["d"].as_str().map(String::from), "identifier loaded from {text}");
    ensure_eq!(back.structural.as_ref().map(util::encode).transpose()?, m, "semantic bundle loaded");
    if let (Some(s), Some(m)) = (&back.structural, &v["m"].as_object()) { ensure_eq!(json!(util::said(s)), m["d"], "identifier of the semantic bundle loaded"); check_digests(&v["m"])? }
    ensure_eq!(back.transformations.iter().map(tr_encode).collect::<Result<Vec<_>, _>>()?, ts, "transformations loaded");
    for (t, x) in back.transformations.iter().zip(v["t"].as_array().unwrap()) { ensure_eq!(json!(t.said.as_ref().map(|s| s.to_string())), x["d"], "identifier of a transformation loaded") }
    ensure_eq!(combined_json(&back)?, text, "encoding what was loaded");
    // other content has another identifier
    let (mut b2, mut m2, mut t2) = (back.clone(), m.clone(), ts.clone());
    match c.edit % 3 {
        0 if !t2.is_empty() => { let i = c.edit as usize / 3 % t2.len(); t2.remove(i); b2.transformations.remove(i); }
        1 if t2.len() > 1 => { t2.reverse(); b2.transformations.reverse() }
        _ => { if m2.is_some() { m2 = None; b2.structural = None } }
    }
    let v2 = check_combined(&combined_json(&b2)?, &m2, &t2)?;
    ensure!((v2["d"] == v["d"]) == (m2 == m && t2 == ts), "identifiers of {v} and {v2}");
    Ok(())
}
pub fn p25(ctx: &Ctx) {
    ctx.campaign("many", 1_000, 60_000, || (combined(), gen::size(200).prop_flat_map(|n| vec((tr_program(4), proptest::option::of((proptest::sample::select(said_pool().clone()), proptest::sample::select(said_pool().clone())))), n as usize)), gen::big(300), any::<bool>()).prop_map(|(mut c, trans, b, big)| { c.trans = trans; if big { c.prog = Some(b.program()) } c }).boxed(), check25);
    ctx.campaign("documents", 20_000, 800_000, combined, check25);
}

// ---------------------------------------------------------------- P29

pub const RULE29: &str = "a document one to four changes away from a valid one, or one that is loaded";
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mut { Set(u16, u8), Drop(u16), Key(u16, u8), Copy(u16, u16), Wrap(u16, u8), Dup(u16, u16), Byte(u16, u8, u8), Cut(u16), Text(u16, String) }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct DocCase { prog: Vec<gen::Ins>, extra: u8, combined: bool, muts: Vec<Mut>, raw: Option<Vec<u8>> }
fn leaves() -> Vec<Value> {
    let nest = |n: usize| (0..n).fold(json!("x"), |v, _| json!([v]));
    vec![json!(null), json!(true), json!(0), json!(-1), json!(1.5), json!(u64::MAX), json!(""), json!("x"), json!("é"), json!([]), json!({}), json!([[]]), json!([null]), json!({"a": null}), nest(60), nest(120),
        json!("spec/overlays/label/1.1"), json!("spec/overlays/label"), json!("spec/overlays//1.1"), json!("spec/overlays/x/1.1"), json!("spec/overlays/entry/2.0"), json!("spec/capture_base/1.1"), json!("eng"), json!("en"), json!("xx"), json!("refs:x"), json!("refn:"), json!("refs:"), json!(format!("refs:{}", said_of("x"))), json!(said_of("y")), json!("E"), json!("EA"), json!("ENxuQZwzs-wiKmralfUG_P_ZX44kJHpnKajfjhK0Odt"), json!("Text"), json!("Array[Text]"), json!(["Text"]), json!([["Numeric"]]), json!(["Text", "Text"]), json!(["refs:x"]),
        json!("M"), json!("utf-8"), json!("1-2"), json!("-"), json!("${0} == 1"), json!("${0}"), json!("${9}"), json!("${"), json!("("), json!("\\"), json!("\u{0}"), json!("[a-z"), json!("2024-13-45"), json!(["a", "a"]), json!({"g": ["a"]}), json!({"a": {"a": "b"}}), json!({"a": ["b"]}), json!({"frame_id": "f"}), json!({"frame_id": 1}), json!("urn:iso:std:iso:9999")]
}
const KEYS: [&str; 18] = ["d", "type", "capture_base", "language", "attributes", "overlays", "v", "m", "t", "classification", "flagged_attributes", "a", "attribute_labels", "framing_metadata", "frame_id", "source", "label", ""];
fn paths(v: &Value, at: String, out: &mut Vec<String>) {
    let esc = |k: &str| k.replace('~', "~0").replace('/', "~1");
    match v {
        Value::Object(m) => for (k, x) in m { let p = format!("{at}/{}", esc(k)); out.push(p.clone()); paths(x, p, out) },
        Value::Array(a) => for (k, x) in a.iter().enumerate() { let p = format!("{at}/{k}"); out.push(p.clone()); paths(x, p, out) },
        _ => {}
    }
}
fn parent<'a>(v: &'a mut Value, p: &str) -> Option<(&'a mut Value, String)> { let (a, k) = p.rsplit_once('/')?; Some((v.pointer_mut(a)?, k.replace("~1", "/").replace("~0", "~"))) }
fn mutate(doc: &mut Value, m: &Mut) {
    let mut ps = vec![];
    paths(doc, String::new(), &mut ps);
    if ps.is_empty() { return }
    let at = |n: u16| ps[n as usize % ps.len()].clone();
    let pool = leaves();
    match m {
        Mut::Set(n, k) => *doc.pointer_mut(&at(*n)).unwrap() = pool[*k as usize % pool.len()].clone(),
        Mut::Text(n, s) => *doc.pointer_mut(&at(*n)).unwrap() = json!(s),
        Mut::Drop(n) => { if let Some((p, k)) = parent(doc, &at(*n)) { match p { Value::Object(o) => { o.remove(&k); } Value::Array(a) => { if let Ok(i) = k.parse::<usize>() { a.remove(i); } } _ => {} } } }
        Mut::Key(n, k) => { if let Some((Value::Object(o), old)) = parent(doc, &at(*n)) { if let Some(v) = o.remove(&old) { o.insert(KEYS[*k as usize % KEYS.len()].to_string(), v); } } }
        Mut::Copy(a, b) => { let v = doc.pointer(&at(*a)).unwrap().clone(); if v.to_string().len() < 20_000 { *doc.pointer_mut(&at(*b)).unwrap() = v } }
        Mut::Wrap(n, k) => { let x = doc.pointer_mut(&at(*n)).unwrap(); let v = x.take(); *x = match k % 4 { 0 => json!([v]), 1 => json!({"a": v}), 2 => json!([v.clone(), v]), _ => match v { Value::Array(mut a) if !a.is_empty() => a.swap_remove(0), Value::Object(o) => Value::Array(o.into_iter().map(|x| x.1).collect()), v => json!({"": v}) } } }
        _ => {}
    }
}
fn standard_overlays(doc: &mut Value, extra: u8) {
    let name = doc["capture_base"]["attributes"].as_object().and_then(|a| a.keys().next().cloned()).unwrap_or("a".into());
    let cb = doc["capture_base"]["d"].clone();
    let Some(o) = doc["overlays"].as_object_mut() else { return };
    let mut add = |key: &str, ty: &str, field: &str, v: Value| { o.insert(key.to_string(), json!({"d": null, "capture_base": cb, "type": format!("spec/overlays/{ty}/1.1"), field: {name.clone(): v}})); };
    if extra & 1 != 0 { add("standard", "standard", "attribute_standards", json!("urn:iso:std:iso:9999")) }
    if extra & 2 != 0 { add("attribute_mapping", "mapping", "attribute_mapping", json!("other")) }
    if extra & 4 != 0 { add("entry_code_mapping", "entry_code_mapping", "attribute_entry_codes_mapping", json!(["a:b"])) }
}
fn check29(c: &DocCase, o: &mut Obs) -> Res {
    let mut bytes = match &c.raw {
        Some(r) => r.clone(),
        None => {
            let b = match util::build(None, &super::p_build::ast_of(&c.prog))? { Ok(b) => b.oca_bundle, Err(_) => return Ok(()) };
            let mut doc = util::bundle_json(&b)?;
            standard_overlays(&mut doc, c.extra);
            if c.combined { doc = json!({"v": "OCAB00JSON0003c1_", "d": said_of("z"), "m": doc, "t": [{"v": "OCAT10JSON000091_", "d": said_of("t"), "source": null, "target": "x", "attributes": {"a": "b"}}]}) }
            for m in &c.muts { mutate(&mut doc, m) }
            if has_short_said(&doc) || has_short_ref(&doc) { o.class("avoided-K29A"); return Ok(()) }
            doc.to_string().into_bytes()
        }
    };
    for m in &c.muts {
        if bytes.is_empty() { break }
        match m {
            Mut::Dup(a, b) => { let (a, b) = (*a as usize % bytes.len(), *b as usize % bytes.len()); let (a, b) = (a.min(b), a.max(b).min(a.min(b) + 300)); let x = bytes[a..b].to_vec(); bytes.splice(b..b, x); }
            Mut::Byte(n, how, b) => { let i = *n as usize % bytes.len(); match how % 3 { 0 => bytes[i] = *b, 1 => bytes.insert(i, *b), _ => { bytes.remove(i); } } }
            Mut::Cut(n) => { let n = *n as usize % bytes.len(); bytes.truncate(n) }
            _ => {}
        }
    }
    if let Ok(d) = serde_json::from_slice::<Value>(&bytes) { if has_short_said(&d) || has_short_ref(&d) { o.class("avoided-K29A"); return Ok(()) } }
    else if String::from_utf8_lossy(&bytes).contains("\"0") { o.class("avoided-K29A"); return Ok(()) }
    let shown = String::from_utf8_lossy(&bytes).into_owned();
    let ctx = |Fail(m): Fail| Fail(format!("{m}\n{shown}"));
    o.sample = Some(clip(&shown));
    o.nontrivial = c.raw.is_none() && !c.muts.is_empty();
    match guard("loading a semantic bundle", || oca_bundle_semantics::controller::load_oca(&mut bytes.as_slice()).map_err(|e| e.to_string())).map_err(ctx)? {
        Ok(b) => { o.class("loaded"); o.nontrivial = true; total(&b).map_err(ctx)?; guard("encoding", || { let _ = b.encode(&HashFunctionCode::Blake3_256, &SerializationFormats::JSON); }).map_err(ctx)?; guard("listing instructions", || { let _ = b.to_ast(); }).map_err(ctx)? }
        Err(e) => { o.class("rejected"); ensure!(!e.is_empty(), "rejected without an error") }
    }
    match guard("loading a combined bundle", || oca_rs::facade::bundle::load_oca(&mut bytes.as_slice()).map_err(|e| e.to_string())).map_err(ctx)? {
        Ok(mut b) => { o.class("loaded-combined"); o.nontrivial = true; guard("encoding a combined bundle", || { let _ = b.encode(); b.fill_said(); }).map_err(ctx)?; if let Some(s) = &b.structural { total(s).map_err(ctx)? } }
        Err(e) => ensure!(!e.is_empty(), "rejected without an error"),
    }
    Ok(())
}
/// A reference to an identifier that aborts the identifier library (K29A).
fn has_short_ref(d: &Value) -> bool {
    match d {
        Value::String(s) => s.strip_prefix("refs:").unwrap_or(s).strip_prefix('0').is_some_and(|r| r.get(..1).is_none()) && s.starts_with("refs:"),
        Value::Object(m) => m.values().any(has_short_ref),
        // the fields of an object may be given as a list
        Value::Array(a) => a.iter().any(|x| x.as_str().is_some_and(|s| s.strip_prefix('0').is_some_and(|r| r.get(..1).is_none())) || has_short_ref(x)),
        _ => false,
    }
}
fn doc_case() -> BoxedStrategy<DocCase> {
    let m = prop_oneof![
        8 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Mut::Set(a, b)), 4 => any::<u16>().prop_map(Mut::Drop), 3 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Mut::Key(a, b)),
        3 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Mut::Copy(a, b)), 2 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Mut::Wrap(a, b)), 1 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Mut::Dup(a, b)),
        1 => (any::<u16>(), any::<u8>(), any::<u8>()).prop_map(|(a, b, c)| Mut::Byte(a, b, c)), 1 => any::<u16>().prop_map(Mut::Cut), 2 => (any::<u16>(), text(FULL)).prop_map(|(a, s)| Mut::Text(a, s)),
    ];
    (program(FULL), prop_oneof![2 => Just(0u8), 1 => 0u8..8], proptest::bool::weighted(0.2), vec(m, 0..5), proptest::option::weighted(0.05, vec(any::<u8>(), 0..60))).prop_map(|(prog, extra, combined, muts, raw)| DocCase { prog, extra, combined, muts, raw }).boxed()
}
pub fn p29(ctx: &Ctx) {
    ctx.probe("K29A", "{\"d\":\"0\",...}", || {
        let doc = json!({"d": "0", "capture_base": {"d": null, "type": "spec/capture_base/1.1", "attributes": {"a": "Text"}, "classification": "", "flagged_attributes": []}, "overlays": {}});
        util::load(&doc.to_string()).map(|_| ())
    });
    ctx.campaign("documents", 60_000, 3_000_000, doc_case, check29);
    ctx.campaign("sizes", 8_000, 300_000, || (doc_case(), gen::big(500)).prop_map(|(c, b)| DocCase { prog: b.program(), ..c }).boxed(), check29);
}

// ---------------------------------------------------------------- P32

pub const RULE32: &str = "a document with at least two overlays, one of a kind or content no build makes";
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Foreign { prog: Vec<gen::Ins>, flagged: u8, standards: u8, mapping: u8, code_mapping: u8, subset: u8, categories: u8, versions: Vec<u8>, words: Vec<String>, twins: u8, odd: u8 }
/// Recomputes every identifier of a document and brings it into the order in which documents are written.
fn finish(mut doc: Value) -> String {
    let id = digest(&doc["capture_base"]);
    doc["capture_base"]["d"] = json!(id);
    let mut o: Vec<(String, Value)> = doc["overlays"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let sign = |v: &mut Value| { v["capture_base"] = json!(id); let d = digest(v); v["d"] = json!(d); };
    for (_, v) in &mut o { match v { Value::Array(a) => { a.iter_mut().for_each(sign); a.sort_by_key(|x| x["d"].as_str().unwrap().to_string()) } v => sign(v) } }
    o.sort_by(|a, b| a.0.cmp(&b.0));
    let mut out = serde_json::Map::new();
    for (k, v) in [("v", json!("OCAS11JSON000000_")), ("d", json!("#".repeat(44))), ("capture_base", doc["capture_base"].clone()), ("overlays", Value::Object(o.into_iter().collect()))] { out.insert(k.to_string(), v); }
    let mut v = Value::Object(out);
    v["v"] = json!(format!("OCAS11JSON{:06x}_", v.to_string().len()));
    let d = digest(&v);
    v["d"] = json!(d);
    v.to_string()
}
/// The overlays without what binds them to their capture base.
fn unbound(v: &Value) -> Vec<String> {
    let mut o: Vec<String> = super::p_build::overlays(v).into_iter().map(|mut o| { o["d"] = json!(""); o["capture_base"] = json!(""); o.to_string() }).collect();
    o.sort();
    o
}
fn check32(c: &Foreign, o: &mut Obs) -> Res {
    let built = util::build_ok(None, &super::p_build::ast_of(&c.prog))?;
    let mut doc = util::bundle_json(&built.oca_bundle)?;
    let names: Vec<String> = doc["capture_base"]["attributes"].as_object().unwrap().keys().cloned().collect();
    if names.is_empty() { o.class("nothing-declared"); return Ok(()) }
    let some = |mask: u8| -> Vec<String> { let mut v: Vec<String> = names.iter().enumerate().filter(|(i, _)| mask & (1 << (i % 7)) != 0).map(|x| x.1.clone()).collect(); v.sort(); v };
    let w = |i: usize| c.words[i % c.words.len()].clone();
    // what a box, and so a bundle that is edited, can hold
    let mut editable = true;
    if c.flagged > 0 { doc["capture_base"]["flagged_attributes"] = json!(some(c.flagged)); o.class("flagged") }
    let obj = |it: Vec<(String, Value)>| Value::Object(it.into_iter().collect());
    let add = |doc: &mut Value, k: &str, v: Value| { doc["overlays"].as_object_mut().unwrap().insert(k.to_string(), v); };
    if c.mapping > 0 {
        let m = obj(some(c.mapping).into_iter().enumerate().map(|(i, n)| (n, json!(w(i)))).collect());
        add(&mut doc, "attribute_mapping", json!({"d": "", "type": "spec/overlays/mapping/1.1", "capture_base": "", "attribute_mapping": m}));
        o.class("attribute-mapping");
    }
    if c.standards > 0 {
        let m = obj(some(c.standards).into_iter().enumerate().map(|(i, n)| (n, json!(["urn:iso:std:iso:9999", "urn:ietf:rfc:2648", "urn:ietf:id:123"][i % 3]))).collect());
        add(&mut doc, "standard", json!({"d": "", "capture_base": "", "type": "spec/overlays/standard/1.1", "attribute_standards": m}));
        editable = false;
        o.class("standards");
    }
    if c.code_mapping > 0 {
        let m = obj(some(c.code_mapping).into_iter().enumerate().map(|(i, n)| (n, json!([w(i), w(i + 1)]))).collect());
        add(&mut doc, "entry_code_mapping", json!({"d": "", "capture_base": "", "type": "spec/overlays/entry_code_mapping/1.1", "attribute_entry_codes_mapping": m}));
        editable = false;
        o.class("entry-code-mapping");
    }
    if c.subset > 0 {
        add(&mut doc, "subset", json!({"d": "", "capture_base": "", "type": "spec/overlays/subset/1.1", "attributes": some(c.subset)}));
        editable = false;
        o.class("subset");
    }
    if c.categories > 0 { if let Some(Value::Array(l)) = doc["overlays"].as_object_mut().unwrap().get_mut("label") {
        for (i, l) in l.iter_mut().enumerate() {
            let mut k: Vec<String> = (0..1 + c.categories as usize % 3).map(|n| format!("_cat-{n}_")).collect();
            k.sort();
            l["category_labels"] = obj(k.iter().map(|x| (x.clone(), json!(w(i)))).collect());
            l["attribute_categories"] = json!(k);
            editable = false;
            o.class("categories");
        }
    } }
    let mut n = 0;
    for (_, v) in doc["overlays"].as_object_mut().unwrap() {
        let list: Vec<&mut Value> = match v { Value::Array(a) => a.iter_mut().collect(), v => vec![v] };
        for x in list {
            let ver = ["1.1", "1.1", "1.1", "1.0", "2.0", "12.34"][c.versions.get(n).copied().unwrap_or(0) as usize % 6];
            n += 1;
            if ver != "1.1" { editable = false; o.class("other-version") }
            let t = x["type"].as_str().unwrap().rsplit_once('/').unwrap().0.to_string();
            x["type"] = json!(format!("{t}/{ver}"));
        }
    }
    // one overlay twice
    let mut twin = None;
    if c.twins > 0 {
        let kinds: Vec<String> = doc["overlays"].as_object().unwrap().iter().filter(|(_, v)| v.is_array()).map(|x| x.0.clone()).collect();
        if !kinds.is_empty() {
            let k = &kinds[c.twins as usize % kinds.len()];
            let l = doc["overlays"][k].as_array_mut().unwrap();
            let i = c.twins as usize / 7 % l.len();
            l.push(l[i].clone());
            twin = Some(k.clone());
            editable = false;
            o.class("twins");
        }
    }
    let parts = super::p_build::overlays(&doc).len();
    let text = finish(doc);
    o.sample = Some(clip(&text));
    o.nontrivial = n >= 2 && (c.flagged > 0 || c.mapping > 0 || !editable);
    let b = match util::load(&text)? { Ok(b) => b, Err(e) => return fail(format!("a well-formed document is not loaded: {e}\n{text}")) };
    ensure_eq!(b.overlays.len(), parts, "overlays of\n{text}");
    ensure_eq!(util::encode(&b)?, text, "a document loaded and written again");
    ensure_eq!(util::encode(&b)?, text, "a document written twice");
    ensure_eq!(util::encode(&b.clone())?, text, "a copy of the bundle written");
    ensure_eq!(util::load(&serde_json::to_string(&b).map_err(|e| Fail(e.to_string()))?)?.map(|b| util::encode(&b)).map_err(Fail)??, text, "through plain serialization");
    // the conditions are the same as in the bundle that was built, so are the complaints about them
    let errors = |b: &oca_bundle_semantics::state::oca::OCABundle| guard("validating", || match oca_bundle_semantics::state::validator::Validator::new().validate(b) { Ok(()) => vec![], Err(e) => { let mut v: Vec<String> = e.iter().map(|e| e.to_string()).collect(); v.sort(); v } });
    let (got, want) = (errors(&b)?, errors(&built.oca_bundle)?);
    o.class(if want.is_empty() { "valid" } else { "invalid-conditions" });
    ensure_eq!(got, want, "verdict on a well-formed document\n{text}");
    if let Some(k) = &twin {
        // the same, but one of the two by another identifier: read as it is, and not valid
        let mut v: Value = serde_json::from_str(&text).unwrap();
        let l = v["overlays"][k].as_array_mut().unwrap();
        let (i, other) = (c.odd as usize % l.len(), json!(said_pool()[c.odd as usize % said_pool().len()]));
        if l[i]["d"] != other {
            l[i]["d"] = other;
            let odd = v.to_string();
            let b = match util::load(&odd)? { Ok(b) => b, Err(e) => return fail(format!("a well-formed document is not loaded: {e}\n{odd}")) };
            ensure_eq!(b.overlays.len(), parts, "overlays of\n{odd}");
            ensure!(!errors(&b)?.is_empty(), "valid with a wrong identifier\n{odd}");
            o.class("odd-identifier");
        }
    }
    use oca_bundle_semantics::state::oca::OCABox;
    if twin.is_none() && !editable && c.categories == 0 && c.versions.is_empty() {
        // what editing has no place for is lost (known), but nothing with it
        o.class("edited-with-losses");
        let again = guard("regenerating", || OCABox::from(b.clone()).generate_bundle())?;
        let (v, mut before) = (util::bundle_json(&again)?, serde_json::from_str::<Value>(&text).unwrap());
        ensure_eq!(v["capture_base"], before["capture_base"], "capture base after editing\n{text}");
        for k in UNEDITABLE { before["overlays"].as_object_mut().unwrap().remove(k); }
        let mut v = v;
        for k in UNEDITABLE { v["overlays"].as_object_mut().unwrap().remove(k); }
        ensure_eq!(unbound(&v), unbound(&before), "overlays after editing, but for those editing has no place for\n{text}");
    }
    if editable {
        o.class("edited");
        let again = guard("regenerating", || OCABox::from(b.clone()).generate_bundle())?;
        ensure_eq!(util::encode(&again)?, text, "a bundle loaded for editing and generated again");
        let more = util::build_ok(Some(b.clone()), &super::p_build::ast_of(&[gen::Ins::Attrs(vec![("zz-new".into(), gen::Ty::Text)])]))?;
        let (v, before) = (util::bundle_json(&more.oca_bundle)?, serde_json::from_str::<Value>(&text).unwrap());
        if !names.contains(&"zz-new".to_string()) {
            ensure_eq!(unbound(&v), unbound(&before), "overlays after adding an attribute to the loaded bundle");
            let mut cb = v["capture_base"].clone();
            ensure_eq!(cb["attributes"].as_object_mut().unwrap().remove("zz-new"), Some(json!("Text")), "new attribute");
            ensure_eq!(cb["flagged_attributes"], before["capture_base"]["flagged_attributes"], "flagged attributes");
            ensure_eq!(cb["attributes"].as_object().unwrap().iter().collect::<BTreeMap<_, _>>(), before["capture_base"]["attributes"].as_object().unwrap().iter().collect::<BTreeMap<_, _>>(), "attributes");
        }
    }
    Ok(())
}
const UNEDITABLE: [&str; 3] = ["standard", "entry_code_mapping", "subset"];
fn edited_keeps(overlays: Value) -> Res {
    let text = finish(json!({"capture_base": {"d": "", "type": "spec/capture_base/1.1", "attributes": {"a": "Text"}, "classification": "", "flagged_attributes": []}, "overlays": overlays}));
    let b = match util::load(&text)? { Ok(b) => b, Err(e) => return fail(e) };
    let again = guard("regenerating", || oca_bundle_semantics::state::oca::OCABox::from(b).generate_bundle())?;
    ensure_eq!(util::encode(&again)?, text, "a bundle loaded for editing and generated again");
    Ok(())
}
pub fn p32(ctx: &Ctx) {
    ctx.probe("K32A-standard", "standard overlay", || edited_keeps(json!({"standard": {"d": "", "capture_base": "", "type": "spec/overlays/standard/1.1", "attribute_standards": {"a": "urn:iso:std:iso:9999"}}})));
    ctx.probe("K32A-entry_code_mapping", "entry code mapping overlay", || edited_keeps(json!({"entry_code_mapping": {"d": "", "capture_base": "", "type": "spec/overlays/entry_code_mapping/1.1", "attribute_entry_codes_mapping": {"a": ["x:y"]}}})));
    ctx.probe("K32A-categories", "label categories", || edited_keeps(json!({"label": [{"d": "", "capture_base": "", "type": "spec/overlays/label/1.1", "language": "eng", "attribute_categories": ["_cat-0_"], "attribute_labels": {"a": "l"}, "category_labels": {"_cat-0_": "c"}}]})));
    ctx.probe("K32A-subset", "subset overlay", || edited_keeps(json!({"subset": {"d": "", "capture_base": "", "type": "spec/overlays/subset/1.1", "attributes": ["a"]}})));
    let mask = || prop_oneof![2 => Just(0u8), 2 => 1u8..128];
    let rare = || prop_oneof![5 => Just(0u8), 2 => 1u8..128];
    let word = || prop_oneof![text(FULL), "[a-z]{1,6}"];
    let docs = move |prog: BoxedStrategy<Vec<gen::Ins>>| (prog, mask(), rare(), mask(), rare(), rare(), rare(), prop_oneof![4 => Just(vec![]), 1 => vec(any::<u8>(), 1..12)], vec(word(), 1..4), (prop_oneof![5 => Just(0u8), 2 => 1u8..], any::<u8>())).prop_map(|(prog, flagged, standards, mapping, code_mapping, subset, categories, versions, words, (twins, odd))| Foreign { prog, flagged, standards, mapping, code_mapping, subset, categories, versions, words, twins, odd }).boxed();
    ctx.campaign("sizes", 2_000, 80_000, move || docs(gen::big(200).prop_map(|b| b.program()).boxed()), check32);
    ctx.campaign("documents", 30_000, 800_000, move || docs(program(FULL)), check32);
}
