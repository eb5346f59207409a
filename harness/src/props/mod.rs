use crate::engine::*;
mod p_ast;
mod p_build;
mod p_compose;
mod p_facade;
mod p_graph;
mod p_more;
mod p_parse;
mod p_plain;
mod p_valid;

pub const ASSUMPTIONS: [&str; 3] = [
    "the JSON, hashing (SAID), language-code and SQL libraries the repository depends on are trusted",
    "the code is built with the features the checks enable (local references, format overlay), overflow checks on",
    "absence of violations is evidence for the generated inputs only",
];
type Entry = (&'static str, &'static str, fn(&Ctx));
pub const ALL: &[Entry] = &[
    ("P01", p_parse::RULE01, p_parse::p01),
    ("P02", p_parse::RULE02, p_parse::p02),
    ("P03", p_parse::RULE03, p_parse::p03),
    ("P04", p_ast::RULE04, p_ast::p04),
    ("P05", p_ast::RULE05, p_ast::p05),
    ("P06", p_build::RULE06, p_build::p06),
    ("P07", p_build::RULE07, p_build::p07),
    ("P08", p_build::RULE08, p_build::p08),
    ("P09", p_build::RULE09, p_build::p09),
    ("P10", p_valid::RULE10, p_valid::p10),
    ("P11", p_valid::RULE11, p_valid::p11),
    ("P12", p_valid::RULE12, p_valid::p12),
    ("P13", p_build::RULE13, p_facade::p13),
    ("P14", p_facade::RULE14, p_facade::p14),
    ("P15", p_facade::RULE15, p_facade::p15),
    ("P16", p_facade::RULE16, p_facade::p16),
    ("P17", p_facade::RULE17, p_facade::p17),
    ("P18", p_facade::RULE18, p_facade::p18),
    ("P19", p_facade::RULE19, p_facade::p19),
    ("P20", p_facade::RULE20, p_facade::p20),
    ("P21", p_facade::RULE21, p_facade::p21),
    ("P22", p_more::RULE22, p_more::p22),
    ("P23", p_more::RULE23, p_more::p23),
    ("P24", p_more::RULE24, p_more::p24),
    ("P25", p_more::RULE25, p_more::p25),
    ("P26", p_valid::RULE26, p_valid::p26),
    ("P27", p_facade::RULE27, p_facade::p27),
    ("P28", p_facade::RULE28, p_facade::p28),
    ("P29", p_more::RULE29, p_more::p29),
    ("P30", p_valid::RULE30, p_valid::p30),
    ("P31", p_facade::RULE31, p_facade::p31),
    ("P32", p_more::RULE32, p_more::p32),
    ("P33", p_facade::RULE33, p_facade::p33),
    ("P34", p_compose::RULE34, p_compose::p34),
    ("P35", p_ast::RULE35, p_ast::p35),
    ("P36", p_facade::RULE36, p_facade::p36),
    ("P37", p_graph::RULE37, p_graph::p37),
    ("P38", p_plain::RULE38, p_plain::p38),
];
pub fn run(ctx: &Ctx) { (ALL.iter().find(|p| p.0 == ctx.pid).unwrap().2)(ctx) }

/// Work done in a process of its own, because it may end the process.
pub fn child(what: &str) {
    match what {
        "dump" => {
            use std::io::Read;
            let mut s = String::new(); std::io::stdin().read_to_string(&mut s).unwrap();
            let b = crate::util::build_text(&s).unwrap();
            println!("\n=====\n{}", serde_json::to_string_pretty(&crate::util::bundle_json(&b.oca_bundle).unwrap()).unwrap());
        }
        "store" => p_more::store_child(),
        w => p_parse::child(w),
    }
}
