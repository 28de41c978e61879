use crate::{sym, vfs};
use nodejs_resolver::*;
use std::path::Path;

pub mod util;
mod refr;
mod file;
mod request;
mod exports;
mod route;
mod hist;
mod robust;
mod ts;
mod order;
mod conc;
mod meta;
mod any;

pub fn table() -> Vec<(&'static str, extern "C" fn())> {
    let mut v: Vec<(&'static str, extern "C" fn())> = vec![];
    v.extend_from_slice(file::TABLE);
    v.extend_from_slice(request::TABLE);
    v.extend_from_slice(exports::TABLE);
    v.extend_from_slice(route::TABLE);
    v.extend_from_slice(hist::TABLE);
    v.extend_from_slice(robust::TABLE);
    v.extend_from_slice(ts::TABLE);
    v.extend_from_slice(order::TABLE);
    v.extend_from_slice(conc::TABLE);
    v.extend_from_slice(meta::TABLE);
    v.extend_from_slice(any::TABLE);
    v
}
