//! Harness around the whole macro (C09): what it refuses, against the conflicts of the reference.
#![allow(dead_code)]

use crate::hr::Lr;
use crate::hs::{self, check, cover, observe, panic_mode, Shape, MAXNT};
use crate::ht::*;

fn refused(s: &Shape) {
    let mut g = hs::make(s);
    let t = crate::hl14::write(&g, s);
    hs::settle(&mut g);
    panic_mode(1);
    let r = Lr::new(&g);
    cover(if r.rr { 33 } else if r.sr { 34 } else { 35 });
    // a panic is a refusal
    panic_mode(if r.rr || r.sr { 1 } else { 0 });
    let a = expand(&t);
    panic_mode(0);
    observe(a.len() as u64);
    check(!r.rr || rejected(), 93);
    check(r.rr || r.sr || !rejected(), 94);
    cover(36);
    core::mem::forget((a, r, t));
}

/// a grammar of the catalogue with some productions free, as b_lr_sk
#[no_mangle]
pub extern "C" fn c_refuse(k: u32, holes: u32, ml: u32, lo: u32) {
    let b = &crate::bases::BASES[k as usize];
    let mut np = [0u8; MAXNT];
    np[..b.nnt].copy_from_slice(b.np);
    refused(&Shape { nnt: b.nnt, np, ml: ml as usize, lo: lo as usize, nt: b.nt, pubs: b.pubs, sorted: false, entry_first: false, base: Some(b), holes: holes as u64 });
}

/// a small grammar: nnt non-terminals, productions as digits, all free
#[no_mangle]
pub extern "C" fn c_refuse_free(nnt: u32, npd: u32, ml: u32, lo: u32, nt: u32, pubs: u32) {
    let mut np = [0u8; MAXNT];
    let mut d = npd;
    for i in 0..nnt as usize {
        np[nnt as usize - 1 - i] = (d % 10) as u8;
        d /= 10;
    }
    refused(&Shape { nnt: nnt as usize, np, ml: ml as usize, lo: lo as usize, nt: nt as usize, pubs, sorted: false, entry_first: false, base: None, holes: 0 });
}
