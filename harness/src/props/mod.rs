use crate::Prop;
mod api;
mod cli;
mod emit;
mod formats;
pub mod fuzz;
pub mod graph;
mod modes;
mod native;
mod opts;
mod history;
mod items;
pub mod memory;
mod parse;
mod work;
mod sets;

pub fn all() -> &'static [Prop] {
    const ALL: &[Prop] = &[parse::C01, parse::C02, parse::C03, graph::C04, graph::C05, graph::C06, graph::C07, sets::C08, sets::C09, sets::C21, formats::C10, formats::C11, formats::C16, formats::C17, native::C18, fuzz::C12, cli::C14, modes::C15, opts::C22, history::C13, api::C19, work::C20, items::C23, memory::C24, memory::C25, emit::C26];
    ALL
}
