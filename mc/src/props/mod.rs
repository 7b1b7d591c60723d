use crate::engine::{Case, Phase, Stats, Verdict};

mod builtin;
mod compare;
mod entry;
mod errors;
mod filter;
mod func;
mod grammar;
mod laws;
mod literal;
mod nodes;
mod robust;
mod select;
mod types;

pub fn phases(prop: &str, thorough: bool) -> Vec<Phase> {
    match prop {
        "C01" => select::c01(thorough),
        "C02" => select::c02(thorough),
        "C03" => select::c03(thorough),
        "C04" => compare::c04(thorough),
        "C06" => builtin::c06(thorough),
        "C07" => builtin::c07(thorough),
        "C08" => func::c08(thorough),
        "C09" => func::c09(thorough),
        "C10" => grammar::c10(thorough),
        "C11" => literal::c11(thorough),
        "C12" => literal::c12(thorough),
        "C05" => filter::c05(thorough),
        "C13" => robust::c13(thorough),
        "C17" => robust::c17(thorough),
        "C14" => nodes::c14(thorough),
        "C15" => nodes::c15(thorough),
        "C16" => nodes::c16(thorough),
        "C18" => nodes::c18(thorough),
        "C19" => nodes::c19(thorough),
        "C28" => nodes::c28(thorough),
        "C22" => entry::c22(thorough),
        "C25" => entry::c25(thorough),
        "C27" => entry::c27(thorough),
        "C30" => laws::c30(thorough),
        "C29" => errors::c29(thorough),
        "C32" => types::c32(thorough),
        _ => panic!("unknown property {prop}"),
    }
}

/// judge a single case again
pub fn judge(prop: &str, case: &Case, st: &mut Stats) -> Verdict {
    match (prop, case.kind.as_str()) {
        (_, "eval" | "parse") => crate::judge::judge_eval(case, st),
        (_, "text") => grammar::judge_case(case, st),
        (_, "string" | "number") => literal::judge_case(case, st),
        (_, "locations" | "lists") => laws::judge_case(case, st),
        (_, "error") => errors::judge_case(case, st),
        (_, "type chains" | "type equality" | "type from" | "type list") => types::judge_case(case, st),
        (_, "calls") => func::judge_calls(case, st),
        (_, "entry" | "not a string" | "integer" | "integers" | "integer text" | "default") => entry::judge_case(case, st),
        (_, "any" | "deep" | "small stack" | "display" | "same" | "equal") => robust::judge_case(case, st),
        (_, "pair" | "paths" | "pointers" | "views" | "sequence" | "dedup" | "serial" | "ext") => nodes::judge_case(case, st),
        _ => panic!("unknown case {prop} {}", case.kind),
    }
}
