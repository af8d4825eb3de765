use crate::stats::Stats;
use crate::tape::Tape;

pub mod convert;
pub mod crash;
pub mod files;
pub mod grammar;
pub mod histories;
pub mod matching;
pub mod sources;
pub mod trace;
#[cfg(feature = "nodes")]
pub mod trie;
pub mod utils;
pub mod work;

/// Err: the property is violated, with a description
pub type Verdict = Result<(), String>;

pub struct Env {
    pub scratch: String,
    pub tier: String,
}

/// turns logging off when a case ends
struct Quiet;
impl Drop for Quiet {
    fn drop(&mut self) {
        crate::rt::set_level(0);
    }
}

pub fn run(prop: &str, t: &mut Tape, st: &mut Stats, env: &Env) -> Verdict {
    let _quiet = Quiet;
    // whether and what is logged makes no difference to any answer
    if prop != "C06" && prop != "C16" && prop != "C21" && t.chance(1, 10) {
        crate::rt::set_level(t.range(1, 5));
        st.inc("cases_with_logging_on");
    }
    match prop {
        "C01" | "C02" | "C03" | "C04" => matching::against_model(prop, t, st),
        "C05" => {
            if t.chance(1, 5) {
                files::both_factories(t, st, env)
            } else {
                matching::differential(t, st)
            }
        }
        "C09" => files::faithful(t, st, env),
        "C10" => files::defects(t, st, env),
        "C11" => sources::strict_load(t, st, env),
        "C12" => sources::ignoring_load(t, st, env),
        "C13" => histories::read_only(t, st, env),
        "C15" => histories::clones(t, st),
        "C16" => work::bounded(t, st),
        "C06" => crash::run(t, st, env),
        "C14" => matching::additions(t, st),
        "C07" => grammar::compile_text(t, st),
        "C08" => grammar::single_parser(t, st),
        "C17" => grammar::error_position(t, st),
        "C18" => utils::run(t, st),
        "C21" => convert::run(t, st, env),
        "C19" => trace::run(t, st, env),
        #[cfg(feature = "nodes")]
        "C20" => trie::run(t, st),
        _ => panic!("unknown property {}", prop),
    }
}

pub fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C14" => matching::RULE,
        "C09" => files::RULE9,
        "C10" => files::RULE10,
        "C11" => sources::RULE11,
        "C12" => sources::RULE12,
        "C13" => histories::RULE13,
        "C15" => histories::RULE15,
        "C16" => work::RULE16,
        "C06" => crash::RULE6,
        "C07" => grammar::RULE7,
        "C08" => grammar::RULE8,
        "C17" => grammar::RULE17,
        "C18" => utils::RULE,
        "C19" => trace::RULE19,
        "C21" => convert::RULE21,
        #[cfg(feature = "nodes")]
        "C20" => trie::RULE20,
        _ => "",
    }
}
