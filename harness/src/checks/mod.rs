use crate::engine::{Check, Tier};

mod chance;
mod core;
mod commands;
pub mod diff;
pub mod data;
mod drawing;
mod errors;
mod files;
mod lexer;
mod library;
mod output;
mod parser;
mod prelude;
mod keyboard;
mod scopes;
mod proc;
mod recursion;
mod session;
mod sources;
mod times;
mod total;
pub mod util;

pub fn get(id: &str, tier: Tier) -> Option<Check> {
    Some(match id {
        "C01" => lexer::check(tier),
        "C02" => parser::structure(tier),
        "C05" => core::core(tier),
        "C06" => core::scoping(tier),
        "C07" => recursion::check(tier),
        "C08" => library::operators(tier),
        "C09" => library::lists(tier),
        "C10" => library::tables(tier),
        "C11" => library::texts(tier),
        "C12" => library::functions(tier),
        "C13" => library::math(tier),
        "C14" => files::check(tier),
        "C15" => commands::directories(tier),
        "C16" => commands::commands(tier),
        "C17" => commands::pipes(tier),
        "C18" => errors::check(tier),
        "C19" => output::widgets(tier),
        "C20" => output::styles(tier),
        "C21" => data::formats(tier),
        "C26" => chance::check(tier),
        "C33" => scopes::check(tier),
        "C34" => keyboard::check(tier),
        "C32" => prelude::check(tier),
        "C31" => sources::check(tier),
        "C29" => drawing::check(tier),
        "C28" => times::check(tier),
        "C22" => session::typing(tier),
        "C23" => session::sessions(tier),
        "C25" => session::starting(tier),
        "C27" => session::interrupts(tier),
        "C24" => output::logs(tier),
        "C30" => output::console(tier),
        "C04" => total::check(tier),
        "C03" => parser::total(tier),
        _ => return None,
    })
}
