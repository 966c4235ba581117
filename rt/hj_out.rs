//! Judging the front end (C15) without its syntax tree: what is outside the notation must be refused.
#![allow(dead_code)]

use crate::hs::{check, cover, observe, panic_mode};
use crate::ht::No::*;
use crate::ht::*;

pub fn judge(t: &Ts) {
    panic_mode(0);
    match rd_items(t) {
        Ok(_) => cover(60),
        Err(Refuse) => {
            cover(61);
            panic_mode(1);
            let o = expand(t);
            panic_mode(0);
            check(rejected(), 152);
            observe(o.len() as u64);
        }
        Err(Free) => cover(62),
    }
}

#[no_mangle]
pub extern "C" fn c_string(_: u32, _: u32) {}
