//! One module per group of properties.

pub mod buffers;
pub mod collect;
pub mod compare;
pub mod depth;
pub mod dropcost;
pub mod effort;
pub mod forms;
pub mod isolate;
pub mod memory;
pub mod parse;
pub mod share;
pub mod source;
pub mod storage;

use crate::engine::PropDef;

pub static ALL: &[&PropDef] = &[
    &parse::C01, &parse::C02, &parse::C03, &parse::C04, &parse::C05, &parse::C06, &parse::C07,
    &collect::C08, &parse::C09, &parse::C10, &share::C11, &share::C12, &dropcost::C13, &source::C14,
    &buffers::C15, &depth::C16, &parse::C17, &parse::C18, &isolate::C19,
    &compare::C20, &memory::C21, &effort::C22, &forms::C23, &storage::C24,
];
