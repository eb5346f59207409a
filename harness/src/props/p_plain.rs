//! P38: the library as it comes by default, without its optional features, next to the library with them.
use super::p_facade::{self, Hist};
use super::p_parse::{big_case, classes, nontrivial, prog_case, ProgCase};
use crate::engine::*;
use crate::gen::*;
use crate::{ensure, ensure_eq};
use proptest::prelude::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::ExitStatusExt;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

#[path = "../../../plain/observe_bundle.rs"]
mod observe_bundle;
#[path = "../../../plain/observe_facade.rs"]
mod observe_facade;

pub const RULE38: &str = "cases are histories of files that refer to no names (answered by two builds of the facade, with and without local-references) and programs (built by two builds of the bundle library, with and without format_overlay; FORMAT instructions are taken out for the comparison of what they must leave untouched); oracle: both give the same answers to everything that can be asked. Non-trivial: at least three accepted files, one of which refers to or starts from another, or a program of three kinds of instructions.";

/// The same questions put to a build without the feature, in its own process.
struct Helper { child: Child, to: ChildStdin, from: BufReader<ChildStdout> }
impl Drop for Helper { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }
thread_local! { static HELPERS: RefCell<BTreeMap<&'static str, Helper>> = const { RefCell::new(BTreeMap::new()) }; }

fn no_answer(m: String) -> ! { eprintln!("{m}"); std::process::exit(3) }
fn start(name: &'static str) -> Helper {
    let at = std::env::current_exe().unwrap().parent().unwrap().join(name);
    let mut child = Command::new(&at).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap_or_else(|e| no_answer(format!("{}: {e}", at.display())));
    let (to, from) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
    Helper { child, to, from }
}
fn ask(name: &'static str, lines: &[String]) -> Result<Value, Fail> {
    HELPERS.with(|h| {
        let mut h = h.borrow_mut();
        let p = h.entry(name).or_insert_with(|| start(name));
        let sent = writeln!(p.to, "{}", json!(lines)).and_then(|_| p.to.flush());
        let mut answer = String::new();
        if sent.is_ok() && matches!(p.from.read_line(&mut answer), Ok(n) if n > 0) { return Ok(serde_json::from_str(&answer).unwrap_or_else(|e| no_answer(format!("{name}: {e}")))) }
        let end = p.child.wait().unwrap_or_else(|e| no_answer(format!("{name}: {e}")));
        h.remove(name);
        match end.signal() {
            Some(libc::SIGPROF) => fail("without the feature this does not come to an end"),
            Some(libc::SIGKILL) | None => no_answer(format!("{name} ended with {end}")),
            _ => fail(format!("without the feature the process ends with {end}")),
        }
    })
}
/// The first place where two answers differ.
fn same(with: &Value, without: &Value, at: &str, what: &str) -> Res {
    match (with, without) {
        (Value::Object(a), Value::Object(b)) if a.keys().eq(b.keys()) => a.iter().try_for_each(|(k, v)| same(v, &b[k], &format!("{at}/{k}"), what)),
        (Value::Array(a), Value::Array(b)) if a.len() == b.len() => a.iter().zip(b).enumerate().try_for_each(|(n, (v, w))| same(v, w, &format!("{at}/{n}"), what)),
        _ => { ensure_eq!(without, with, "without the feature (got) and with it (want), {at}\n{what}"); Ok(()) }
    }
}

fn check_facade(h: &Hist, o: &mut Obs) -> Res {
    let Some(mut files) = p_facade::texts(h, o) else { return Ok(()) };
    files.retain(|f| !f.contains("refn:"));
    let with = observe_facade::facade(&files);
    let without = ask("plainfacade", &files)?;
    let text = files.iter().map(|f| format!("# ---\n{}\n", f.trim_end())).collect::<String>();
    let built = with["answers"].as_array().map_or(0, |a| a.iter().filter(|x| x.get("built").is_some()).count());
    o.nontrivial = built >= 3 && files.iter().any(|f| f.contains("refs:"));
    o.class(format!("built:{}", built.min(8)));
    same(&with, &without, "", &text)
}
/// Files that do refer to names are built or refused.
fn check_names(h: &Hist, o: &mut Obs) -> Res {
    let Some(files) = p_facade::texts(h, o) else { return Ok(()) };
    o.nontrivial = files.iter().any(|f| f.contains("refn:"));
    let without = ask("plainfacade", &files)?;
    fn aborted(v: &Value, at: &str) -> Option<String> {
        match v {
            Value::String(s) if s == "aborted" => Some(at.to_string()),
            Value::Object(m) => m.iter().find_map(|(k, v)| aborted(v, &format!("{at}/{k}"))),
            Value::Array(a) => a.iter().enumerate().find_map(|(n, v)| aborted(v, &format!("{at}/{n}"))),
            _ => None,
        }
    }
    if let Some(at) = aborted(&without, "") { return fail(format!("without the feature {at} aborts\n{}", files.iter().map(|f| format!("# ---\n{}\n", f.trim_end())).collect::<String>())) }
    Ok(())
}
fn format(i: &Ins) -> bool { matches!(i, Ins::Str(SO::Format, _)) }
fn check_bundle(c: &ProgCase, o: &mut Obs) -> Res {
    let full = render(&c.prog, &c.lay).text;
    let rest: Vec<Ins> = c.prog.iter().filter(|i| !format(i)).cloned().collect();
    let formats = rest.len() < c.prog.len();
    let plain = render(&rest, &c.lay).text;
    o.sample = Some(full.clone());
    o.nontrivial = nontrivial(&rest);
    classes(&c.prog, o);
    let with = observe_bundle::bundles(&[plain.clone(), full.clone()]);
    let document = |v: &Value| v["bundle"]["document"].as_str().map(String::from);
    let mut lines = vec![plain.clone(), full.clone()];
    lines.extend(document(&with[0]));
    let without = ask("plainbundle", &lines)?;
    same(&with[0], &without[0], "", &plain)?;
    if let Some(d) = document(&with[0]) {
        o.class("built");
        same(&observe_bundle::bundles(&[d])[0], &without[2], "/loaded", &plain)?;
    }
    ensure!(without[1] != json!("aborted"), "FORMAT aborts where formats are not supported\n{full}");
    if formats && document(&with[1]).is_some() {
        o.class("formats left out");
        same(&with[0]["bundle"], &without[1]["bundle"], "/bundle of the file with FORMAT", &full)?;
        // a document with formats is loaded or refused
        if let Some(d) = document(&with[1]) { let r = ask("plainbundle", &[d])?; ensure!(r[0] != json!("aborted"), "loading a document with formats aborts where they are not supported\n{full}"); }
    }
    Ok(())
}
pub fn p38(ctx: &Ctx) {
    ctx.campaign("histories", 4_500, 300_000, p_facade::plain_hist, check_facade);
    ctx.campaign("names", 1_500, 100_000, p_facade::named_hist, check_names);
    ctx.campaign("many", 200, 20_000, p_facade::plain_many, check_facade);
    ctx.campaign("sizes", 200, 20_000, p_facade::plain_sizes, check_facade);
    ctx.campaign("programs", 14_000, 1_000_000, || prog_case(FULL), check_bundle);
    ctx.campaign("large-programs", 600, 60_000, big_case, check_bundle);
}
