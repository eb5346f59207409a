//! Thin wrappers around the code under test.
use crate::engine::*;
use oca_ast_semantics::ast::OCAAst;
use oca_bundle_semantics::build::{from_ast, OCABuild};
use oca_bundle_semantics::state::oca::OCABundle;
use serde_json::Value;

pub fn parse(text: &str) -> Result<Result<OCAAst, String>, Fail> {
    guard("parsing", || oca_file_semantics::ocafile::parse_from_string(text.to_string()).map_err(|e| e.to_string()))
}
pub fn parse_ok(text: &str) -> Result<OCAAst, Fail> {
    match parse(text)? { Ok(a) => Ok(a), Err(e) => fail(format!("well-formed OCAfile was rejected: {e}\n--- file\n{text}\n---")) }
}
pub fn build(from: Option<OCABundle>, ast: &OCAAst) -> Result<Result<OCABuild, Vec<String>>, Fail> {
    guard("building", || from_ast(from, ast).map_err(|e| e.iter().map(|x| x.to_string()).collect()))
}
pub fn build_ok(from: Option<OCABundle>, ast: &OCAAst) -> Result<OCABuild, Fail> {
    match build(from, ast)? { Ok(b) => Ok(b), Err(e) => fail(format!("acceptable instructions were rejected: {e:?}")) }
}
pub fn build_text(text: &str) -> Result<OCABuild, Fail> { build_ok(None, &parse_ok(text)?) }
pub fn said(b: &OCABundle) -> String { b.said.as_ref().map(|s| s.to_string()).unwrap_or_default() }
pub fn encode(b: &OCABundle) -> Result<String, Fail> {
    use said::{derivation::HashFunctionCode, sad::SerializationFormats, version::Encode};
    let v = guard("encoding a bundle", || b.encode(&HashFunctionCode::Blake3_256, &SerializationFormats::JSON))?;
    match v { Ok(v) => String::from_utf8(v).map_err(|e| Fail(e.to_string())), Err(e) => fail(format!("bundle cannot be encoded: {e:?}")) }
}
pub fn bundle_json(b: &OCABundle) -> Result<Value, Fail> { Ok(serde_json::from_str(&encode(b)?).map_err(|e| Fail(e.to_string()))?) }
pub fn load(json: &str) -> Result<Result<OCABundle, String>, Fail> {
    guard("loading a bundle", || oca_bundle_semantics::controller::load_oca(&mut json.as_bytes()).map_err(|e| e.to_string()))
}
