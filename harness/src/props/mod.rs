use crate::engine::Prop;

#[cfg(feature = "aux")]
pub mod aux;
#[cfg(feature = "server")]
mod client;
#[cfg(feature = "codegen")]
mod codegen;
#[cfg(feature = "db")]
mod db;
#[cfg(feature = "files")]
mod files;
#[cfg(feature = "syn")]
mod kinds;
#[cfg(feature = "syn")]
mod lexing;
#[cfg(feature = "lines")]
mod lines;
#[cfg(feature = "server")]
mod logging;
mod parsing;
#[cfg(feature = "server")]
mod parts;
#[cfg(feature = "project")]
pub mod project;
#[cfg(feature = "syn")]
mod programs;
#[cfg(feature = "server")]
mod server;
#[cfg(feature = "server")]
mod session;
#[cfg(feature = "syn")]
mod typed;

pub static ALL: &[&Prop] = &[
    &parsing::C01,
    &parsing::C02,
    &parsing::C05,
    #[cfg(feature = "syn")]
    &lexing::C03,
    #[cfg(feature = "syn")]
    &programs::C04,
    #[cfg(feature = "syn")]
    &programs::C06,
    #[cfg(feature = "syn")]
    &programs::C40,
    #[cfg(feature = "syn")]
    &programs::C43,
    #[cfg(feature = "syn")]
    &typed::C07,
    #[cfg(feature = "lines")]
    &lines::C08,
    #[cfg(feature = "files")]
    &files::C12,
    #[cfg(feature = "files")]
    &files::C13,
    #[cfg(feature = "files")]
    &files::C14,
    #[cfg(feature = "files")]
    &files::C15,
    #[cfg(feature = "db")]
    &db::C17,
    #[cfg(feature = "db")]
    &db::C18,
    #[cfg(feature = "db")]
    &db::C19,
    #[cfg(feature = "project")]
    &project::C25,
    #[cfg(feature = "project")]
    &project::C26,
    #[cfg(feature = "aux")]
    &aux::C27,
    #[cfg(feature = "aux")]
    &aux::C28,
    #[cfg(feature = "syn")]
    &kinds::C30,
    #[cfg(feature = "aux")]
    &aux::C31,
    #[cfg(feature = "aux")]
    &aux::C38,
    #[cfg(feature = "codegen")]
    &codegen::C39,
    #[cfg(feature = "server")]
    &server::C09,
    #[cfg(feature = "server")]
    &server::C10,
    #[cfg(feature = "server")]
    &parts::C11,
    #[cfg(feature = "server")]
    &server::C16,
    #[cfg(feature = "server")]
    &server::C20,
    #[cfg(feature = "server")]
    &server::C21,
    #[cfg(feature = "server")]
    &parts::C23,
    #[cfg(feature = "server")]
    &parts::C24,
    #[cfg(feature = "server")]
    &parts::C29,
    #[cfg(feature = "server")]
    &session::C22,
    #[cfg(feature = "server")]
    &logging::C41,
];
