//! Scenarios over the library side of the program, run through the harness crate: instruction
//! coding, instruction builders, address helpers. Results come back as return data.
use crate::expr::*;
use crate::props::*;
use crate::scen::*;
use crate::tok::*;
use crate::vm::*;
use crate::world::*;

/// the bytes are the documented encoding of some instruction
pub fn documented(ix: &[E]) -> E {
    if ix.is_empty() {
        return fls();
    }
    let t = |n: u8| eq(ix[0], k8(n));
    match ix.len() {
        1 => or(t(3), or(t(4), t(5))),
        2 => and(t(0), ule(ix[1], k8(1))),
        9 => or(t(1), t(2)),
        33 => t(6),
        _ => fls(),
    }
}

pub fn codec(n: usize, name: &str) -> Scn {
    let mut b = B::new(name);
    b.w.ix = vec![k8(0)];
    b.w.ix.extend(vbytes("data", n));
    b.done("lib.codec", Prog::Spl, Prog::Spl, k64(0))
}

/// accounts an instruction would succeed with, and data that is no instruction
pub fn malformed(mut s: Scn, n: usize) -> Scn {
    s.world.input_len = s.world.input_len - s.world.ix.len() as u64 + n as u64;
    s.world.ix = vbytes("data", n);
    let c = not(documented(&s.world.ix));
    s.world.assume(c);
    s.meta.live = false;
    s.meta.must_fail = true;
    s
}

/// (name, arguments before the program id is counted, accounts: (argument or fixed, signer, writable))
#[derive(Clone, Copy)]
pub enum A {
    Arg(usize),
    Id([u8; 32]),
}
pub const BUILDERS: [&str; 7] = ["create_mint", "wrap", "unwrap", "close_stuck_escrow", "sync_metadata_to_token_2022", "sync_metadata_to_spl_token", "set_canonical_pointer"];
const ARGS: [usize; 7] = [5, 10, 10, 6, 6, 7, 5];

/// accounts each instruction is documented to take, by the builder's arguments; n as in `build`
fn accounts(which: usize, n: usize) -> Vec<(A, bool, bool)> {
    use A::*;
    let w = |i: usize| (Arg(i), false, true);
    let r = |i: usize| (Arg(i), false, false);
    let s = |i: usize| (Arg(i), true, false);
    let id = |k: [u8; 32]| (Id(k), false, false);
    match which {
        // program, wrapped mint, backpointer, unwrapped mint, wrapped token program
        0 => vec![w(1), w(2), r(3), id(ids::system()), r(4)],
        // program, recipient, wrapped mint, authority, unwrapped program, wrapped program, source, unwrapped mint, escrow, holder
        // unwrap: program, escrow, recipient, authority, unwrapped mint, wrapped program, unwrapped program, source, wrapped mint, holder
        1 | 2 => {
            let mut v = if which == 1 {
                vec![w(1), w(2), r(3), r(4), r(5), w(6), r(7), w(8)]
            } else {
                vec![w(1), w(2), r(3), r(4), r(5), r(6), w(7), w(8)]
            };
            v.push(if n == 0 { s(9) } else { r(9) });
            for i in 0..n {
                v.push(s(10 + i));
            }
            v
        }
        // program, escrow, destination, unwrapped mint, wrapped mint, authority
        3 => vec![w(1), w(2), r(3), r(4), r(5), id(ids::t22())],
        // program, wrapped mint, authority, unwrapped mint, source?, owner?
        4 => {
            let mut v = vec![w(1), r(2), r(3), id(ids::t22())];
            if n & 1 != 0 {
                v.push(r(4));
            }
            if n & 2 != 0 {
                v.push(r(5));
            }
            v
        }
        // program, metaplex, authority, wrapped mint, unwrapped mint, source?, owner?
        5 => {
            let mut v = vec![w(1), w(2), r(3), r(4), id(ids::mpl()), id(ids::system()), id(ids::rent())];
            if n & 1 != 0 {
                v.push(r(5));
            }
            if n & 2 != 0 {
                v.push(r(6));
            }
            v
        }
        // program, mint authority, pointer, unwrapped mint, canonical program
        _ => vec![s(1), w(2), r(3), id(ids::system())],
    }
}

pub fn build(which: usize, n: usize, name: &str) -> Scn {
    let mut b = B::new(name);
    b.w.ix = vec![k8(1), k8(which as u8), k8(n as u8)];
    let mut args = ARGS[which];
    if which == 1 || which == 2 {
        args += n;
    }
    for i in 0..args {
        b.w.ix.extend(vkey(&format!("arg{i}")));
    }
    let amount = v64("amount");
    if which == 1 || which == 2 {
        b.w.ix.extend(to_bytes(amount));
    }
    b.done("lib.build", Prog::Spl, Prog::Spl, amount)
}

pub const ADDRESSES: [&str; 5] = ["wrapped_mint", "authority", "backpointer", "escrow", "pointer"];
pub fn address(which: usize, for_program: bool, name: &str) -> Scn {
    let mut b = B::new(name);
    b.w.ix = vec![k8(2), k8((which + if for_program { 10 } else { 0 }) as u8)];
    for n in ["a", "b", "c", "program"] {
        b.w.ix.extend(vkey(n));
    }
    b.done("lib.addr", Prog::Spl, Prog::Spl, k64(0))
}

pub fn asserts(e: &mut Engine, st: &mut State, o: &Outcome, m: &Meta, out: &mut Out) {
    let ix = e.world.ix.clone();
    let arg = |from: usize, i: usize| -> Vec<E> { ix[from + 32 * i..from + 32 * i + 32].to_vec() };
    let got: Vec<E> = st.retdata.as_ref().map(|r| r.1.clone()).unwrap_or_default();
    let same = |want: &[E]| if got.len() == want.len() { bytes_eq(&got, want) } else { fls() };
    match m.kind {
        "lib.codec" => {
            let d = &ix[1..];
            out.res("exactly the documented encodings are accepted", eq(documented(d), k1(o.ok())));
            if o.ok() {
                // tag and fields, then the instruction encoded again: both have to be the input
                let mut w = d.to_vec();
                w.extend(d);
                out.st("decoded fields are those encoded, and encode to the same bytes", same(&w));
            }
        }
        "lib.build" => {
            out.res("the builder returns", k1(o.ok()));
            if !o.ok() {
                return;
            }
            let which = as_const(ix[1]).unwrap() as usize;
            let n = as_const(ix[2]).unwrap() as usize;
            let acc = accounts(which, n);
            let mut w = arg(3, 0);
            w.push(k8(acc.len() as u8));
            for (a, s, wr) in acc {
                match a {
                    A::Arg(i) => w.extend(arg(3, i)),
                    A::Id(k) => w.extend(kk(k)),
                }
                w.extend([k8(s as u8), k8(wr as u8)]);
            }
            let head = w.len();
            let c = if got.len() >= head { bytes_eq(&got[..head], &w) } else { fls() };
            out.st("program and accounts, in order, with the documented signer and writable flags", c);
            let mut d = vec![k8(which as u8)];
            match which {
                0 => d.push(k8((n == 1) as u8)),
                1 | 2 => d.extend(to_bytes(m.amount)),
                6 => d.extend(arg(3, 4)),
                _ => {}
            }
            let c = if got.len() >= head { k1(got.len() == head + d.len()) } else { fls() };
            let c = if got.len() == head + d.len() { and(c, bytes_eq(&got[head..], &d)) } else { c };
            out.st("the instruction data is the documented encoding", c);
        }
        "lib.addr" => {
            out.res("the address helper returns", k1(o.ok()));
            if !o.ok() {
                return;
            }
            let t = as_const(ix[1]).unwrap() as usize;
            let (a, b, c) = (arg(2, 0), arg(2, 1), arg(2, 2));
            let p: Key = if t >= 10 { arg(2, 3).try_into().unwrap() } else { kk(ids::wrap()) };
            let derive = |e: &mut Engine, st: &mut State, what: &[u8], ks: &[&Vec<E>]| {
                let mut s = cbytes(what);
                for k in ks {
                    s.extend(*k);
                }
                e.spec_pda(st, &s, &p)
            };
            let k = match t % 10 {
                0 => derive(e, st, b"mint", &[&a, &b]),
                1 => derive(e, st, b"authority", &[&a]),
                2 => derive(e, st, b"backpointer", &[&a]),
                3 => {
                    // unwrapped mint, unwrapped program, wrapped program
                    let wm = derive(e, st, b"mint", &[&a, &c]).to_vec();
                    let au = derive(e, st, b"authority", &[&wm]);
                    let mut s = au.to_vec();
                    s.extend(&b);
                    s.extend(&a);
                    e.spec_pda(st, &s, &kk(ids::ata()))
                }
                _ => derive(e, st, b"canonical_pointer", &[&a]),
            };
            out.st("the address is the documented derivation", same(&k));
        }
        _ => {}
    }
}
