"""Harness crate around the generator's own modules (symbolic grammars)."""
import os
import re
import shutil
from grammars import CAT

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = '/repo/src'

CARGO = '''[package]
name = "%s"
version = "0.0.0"
edition = "2021"

[lib]
crate-type = ["cdylib"]
path = "src/lib.rs"

[dependencies]
fxhash = "0.2"
proc-macro2 = { version = "1.0", default-features = false }
quote = { version = "1.0", default-features = false }
syn = { version = "1.0", default-features = false, features = ["full", "derive", "parsing", "printing", "clone-impls", "extra-traits"] }

[profile.release]
opt-level = 1
lto = "fat"
codegen-units = 1
panic = "abort"
overflow-checks = true
debug = 0
incremental = false

[workspace]
'''

SHIM = '''
#[macro_export]
macro_rules! hb_parse_macro_input {
    ($i:ident as $t:ty) => { match syn::parse2::<$t>($i) { Ok(d) => d, Err(e) => { crate::hb_rejected(); return e.to_compile_error(); } } };
    ($i:ident) => { match syn::parse2($i) { Ok(d) => d, Err(e) => { crate::hb_rejected(); return e.to_compile_error(); } } };
}
pub static mut HB_REJECTED: bool = false;
pub fn hb_rejected() { unsafe { HB_REJECTED = true } }
'''


def lib_rs(whole):
    """lib.rs of /repo turned into the root of the harness: its modules by path, and (whole) its
    items with the compiler's token stream replaced by that of proc-macro2."""
    text = open(os.path.join(SRC, 'lib.rs')).read()

    def mod(m):
        n = m.group(2)
        for c in (n + '.rs', os.path.join(n, 'mod.rs')):
            p = os.path.join(SRC, c)
            if os.path.exists(p):
                return '#[path = "%s"]\n%spub mod %s;' % (p, '', n)
        return m.group(0)
    text = re.sub(r'(?m)^(pub(?:\([^)]*\))?\s+)?mod\s+(\w+)\s*;', mod, text)
    if whole:
        text = re.sub(r'#!\[[^\]]*\]', '', text)
        text = re.sub(r'extern\s+crate\s+proc_macro\s*;', '', text)
        text = text.replace('#[proc_macro]', '')
        text = re.sub(r'\bproc_macro\b', 'proc_macro2', text)
        text = re.sub(r'\b(::)?syn::parse_macro_input!', 'crate::hb_parse_macro_input!', text)
        text = re.sub(r'(?<![:\w])parse_macro_input!', 'crate::hb_parse_macro_input!', text)
        text = re.sub(r'(?m)^//!.*$', '', text)
    else:
        mods = re.findall(r'(?m)^((?:#\[[^\n]*\]\n)*)pub mod (\w+);', text)
        text = ''.join(a + 'pub mod ' + n + ';\n' for a, n in mods)
    return '#![allow(dead_code, unused, static_mut_refs)]\n' + SHIM + text


def bases():
    o = ['use crate::hs::Base;', 'pub static BASES: [Base; %d] = [' % len(CAT)]
    for g in CAT:
        n = len(g.nts)
        rhs = []
        # the sizes of hs.rs
        assert n + len(g.gram.pubs) <= 16 and sum(len(x) for x in g.gram.prods) + len(g.gram.pubs) <= 40 and max(len(p) for x in g.gram.prods for p in x) <= 6, g.name
        for a in range(n):
            for p in g.gram.prods[a]:
                rhs.append('&[' + ', '.join(str(s + n if s >= 0 else ~s) for s in p) + ']')
        o.append('    // ' + g.name)
        o.append('    Base { nnt: %d, nt: %d, np: &[%s], pubs: %d, rhs: &[%s] },' % (
            n, len(g.terms), ', '.join(str(len(x[3])) for x in g.nts), sum(1 << i for i in g.gram.pubs), ', '.join(rhs)))
    o.append('];')
    return '\n'.join(o) + '\n'


def write_crate(d, name, parts, whole=False):
    """parts: harness files of /verif/rt (without .rs)"""
    src = os.path.join(d, 'src')
    os.makedirs(src, exist_ok=True)
    for f in os.listdir(src):
        os.unlink(os.path.join(src, f))
    open(os.path.join(d, 'Cargo.toml'), 'w').write(CARGO % name)
    lock = open(os.path.join(VERIF, 'lib', 'Cargo.lock.b')).read()
    open(os.path.join(d, 'Cargo.lock'), 'w').write(lock.replace('name = "HARNESS"', 'name = "%s"' % name))
    t = lib_rs(whole)
    # (module=file, or both by one name)
    for p in ['hs'] + parts:
        m, f = p.split('=') if '=' in p else (p, p)
        shutil.copy(os.path.join(VERIF, 'rt', f + '.rs'), os.path.join(src, m + '.rs'))
        t += '\nmod %s;' % m
    open(os.path.join(src, 'bases.rs'), 'w').write(bases())
    t += '\nmod bases;'
    open(os.path.join(src, 'lib.rs'), 'w').write(t + '\n')
