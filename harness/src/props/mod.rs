pub mod book;
pub mod clj;
pub mod common;
pub mod front;
pub mod lima;
pub mod meta;
pub mod plug;
pub mod raw;
pub mod rpc;
pub mod tools;

use crate::runner::Check;
pub fn all() -> Vec<Box<dyn Check>> {
    let mut v: Vec<Box<dyn Check>> = vec![];
    v.extend(book::checks());
    v.extend(meta::checks());
    v.extend(lima::checks());
    v.extend(raw::checks());
    v.extend(rpc::checks());
    v.extend(tools::checks());
    v.extend(clj::checks());
    v.extend(plug::checks());
    v.extend(front::checks());
    v
}
