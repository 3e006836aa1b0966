//! Assertions for the instructions other than wrap and unwrap.
use crate::expr::*;
use crate::props::*;
use crate::scen::*;
use crate::scen2::*;
use crate::tok::*;
use crate::vm::*;
use crate::world::*;

fn is_token_program(k: &Key) -> E {
    or(key_eq(k, &kk(ids::spl())), key_eq(k, &kk(ids::t22())))
}
/// an initialized mint of the program that owns it
fn real_mint(a: &AcctSt) -> E {
    or(
        and(key_eq(&a.owner, &kk(ids::spl())), mint_ok(Prog::Spl, &a.data)),
        and(key_eq(&a.owner, &kk(ids::t22())), mint_ok(Prog::T22, &a.data)),
    )
}
/// the extensions a wrapped Token-2022 mint is documented to get: (type, value)
fn wanted_exts(m: &Meta, auth: &Key, mint: &Key) -> Vec<(u16, Vec<E>)> {
    if m.flag("custom2") {
        return vec![];
    }
    if m.flag("custom1") {
        let key = |s: &str| kk(b58(s)).to_vec();
        let auditor: [u8; 32] = [
            0xca, 0x89, 0xca, 0x86, 0xa9, 0x28, 0x5c, 0xdb, 0xcd, 0x6c, 0xdf, 0xed, 0x53, 0xa7, 0xe3, 0x1c, 0x58, 0x5f, 0x66, 0xe3, 0x4d, 0xa6,
            0xf3, 0x23, 0xf0, 0xbe, 0x4b, 0xe5, 0xa3, 0xf6, 0x6c, 0x11,
        ];
        let mut ct = key("con2YXp7bKscyhzJzbSQgwz6RFcXqe6otUGK5Rr8saK");
        ct.push(k8(1));
        ct.extend(kk(auditor_key(auditor)));
        let mut pz = key("pauySfjziLCpPMoaeFsWgvBCe7ygHKr6wXCyvTNZyGv");
        pz.push(k8(0));
        return vec![
            (ext::PERMANENT_DELEGATE, key("deLpBmD7UP27BHTuhnxR7mBE9rEV6mWUnwWsXMXTFwR")),
            (ext::CONFIDENTIAL_MINT, ct),
            (ext::DEFAULT_STATE, vec![k8(1)]),
            (ext::PAUSABLE, pz),
        ];
    }
    let mut ct = zeros(32);
    ct.push(k8(1));
    ct.extend(zeros(32));
    let mut mp = auth.to_vec();
    mp.extend(mint);
    vec![(ext::CONFIDENTIAL_MINT, ct), (ext::METADATA_POINTER, mp)]
}
fn auditor_key(_guess: [u8; 32]) -> [u8; 32] {
    // base64 of the documented auditor key
    let s = b"yonKhqkoXNvMbN/tU6fjHFhfZuNPpvMj8L55aP2bBG4=";
    let val = |c: u8| -> u32 {
        match c {
            b'A'..=b'Z' => (c - b'A') as u32,
            b'a'..=b'z' => (c - b'a') as u32 + 26,
            b'0'..=b'9' => (c - b'0') as u32 + 52,
            b'+' => 62,
            b'/' => 63,
            _ => 0,
        }
    };
    let mut v = vec![];
    for c in s.chunks(4) {
        let x = val(c[0]) << 18 | val(c[1]) << 12 | val(c[2]) << 6 | val(c[3]);
        v.extend([(x >> 16) as u8, (x >> 8) as u8, x as u8]);
    }
    v.truncate(32);
    v.try_into().unwrap()
}

pub fn create(prop: &str, e: &mut Engine, st: &mut State, m: &Meta, out: &mut Out) {
    let (umk, wmk, bpk, wpk) = (key(e, m, "unwrapped_mint"), key(e, m, "wrapped_mint"), key(e, m, "backpointer"), key(e, m, "wrapped_program"));
    let um = pre(e, m, "unwrapped_mint");
    let (w0, w1) = (pre(e, m, "wrapped_mint"), post(st, m, "wrapped_mint"));
    let (b0, b1) = (pre(e, m, "backpointer"), post(st, m, "backpointer"));
    let exists = m.flag("exists");
    match prop {
        "C09" | "C21" if !exists => {
            let k = spec_mint(e, st, &umk, &wpk);
            out.st("the mint is created at its derived address", key_eq(&wmk, &k));
            let k = spec_under(e, st, b"backpointer", &wmk);
            out.st("the backpointer is created at its derived address", key_eq(&bpk, &k));
            let a = spec_under(e, st, b"authority", &wmk);
            out.st("the wrapped token program is a token program", is_token_program(&wpk));
            out.st("the unwrapped mint is a real mint", real_mint(&um));
            out.st("the mint belongs to its token program", key_eq(&w1.owner, &wpk));
            let good = if m.wp == Prog::T22 || m.wp == Prog::Spl { mint_ok(m.wp, &w1.data) } else { fls() };
            out.st("the mint is initialized", good);
            if w1.data.len() >= 82 && um.data.len() >= 82 {
                let d = &w1.data;
                out.st("nothing has been minted", eq(u64at(d, M_SUPPLY), k64(0)));
                out.st("only the derived authority can mint", and(opt_some(d, M_AUTH), bytes_eq(&d[4..36], &a)));
                out.st("decimals are those of the unwrapped mint", eq(d[M_DECIMALS], um.data[M_DECIMALS]));
                let (fz, fk) = if m.flag("custom1") {
                    (tru(), kk(b58("freTRAXwCVELv5k7V6UobnCiG1hmhnj79AezxRwAR3h")).to_vec())
                } else {
                    (opt_some(&um.data, M_FREEZE), um.data[M_FREEZE + 4..M_FREEZE + 36].to_vec())
                };
                // the customized freeze authority applies to both token programs
                out.st("freeze authority present as documented", eq(opt_some(d, M_FREEZE), fz));
                out.st("freeze authority as documented", implies(fz, bytes_eq(&d[M_FREEZE + 4..M_FREEZE + 36], &fk)));
                if m.wp == Prog::T22 {
                    let want = wanted_exts(m, &a, &wmk);
                    match tlv(d) {
                        Some(have) => {
                            out.st("exactly the documented extensions", k1(have.len() == want.len()));
                            for (t, v) in &want {
                                let c = match have.iter().find(|h| h.0 == *t) {
                                    Some(h) if h.2 == v.len() => bytes_eq(&d[h.1..h.1 + h.2], v),
                                    _ => fls(),
                                };
                                out.st(&format!("extension {t} is set up as documented"), c);
                            }
                        }
                        None => out.st("exactly the documented extensions", fls()),
                    }
                } else {
                    out.st("plain layout", k1(d.len() == 82));
                }
            }
            out.st("the mint keeps its lamports", eq(w0.lamports, w1.lamports));
            out.st("the backpointer keeps its lamports", eq(b0.lamports, b1.lamports));
            out.st("the mint is rent exempt", ule(rent_min(w1.data.len()), w1.lamports));
            out.st("the backpointer is rent exempt", ule(rent_min(b1.data.len()), b1.lamports));
            out.st("the backpointer belongs to the program", key_eq(&b1.owner, &kk(e.world.program_id)));
            let c = if b1.data.len() == 32 { bytes_eq(&b1.data, &umk) } else { fls() };
            out.st("the backpointer names the unwrapped mint", c);
            frame(e, st, m, &["wrapped_mint", "backpointer"], out, "frame");
        }
        "C10" if exists => {
            frame(e, st, m, &[], out, "nothing changes");
            let ix = e.world.ix.clone();
            out.st("only the idempotent form accepts an existing mint", eq(ix[1], k8(1)));
            let k = spec_mint(e, st, &umk, &wpk);
            out.st("at the derived address", key_eq(&wmk, &k));
            let k = spec_under(e, st, b"backpointer", &wmk);
            out.st("with the derived backpointer", key_eq(&bpk, &k));
            out.st("the existing mint belongs to its token program", key_eq(&w0.owner, &wpk));
            out.st("the existing backpointer belongs to the program", key_eq(&b0.owner, &kk(e.world.program_id)));
            out.st("the unwrapped mint belongs to a token program", is_token_program(&um.owner));
        }
        "C04" => {
            let k = spec_mint(e, st, &umk, &wpk);
            let b = spec_under(e, st, b"backpointer", &wmk);
            let sys = kk(ids::system());
            let allowed = vec![
                (sys, "allocate", vec![(0, "wrapped_mint")], vec![k]),
                (sys, "assign", vec![(0, "wrapped_mint")], vec![k]),
                (sys, "allocate", vec![(0, "backpointer")], vec![b]),
                (sys, "assign", vec![(0, "backpointer")], vec![b]),
            ];
            confine(e, st, m, &allowed, out);
        }
        _ => {}
    }
}

pub fn close(prop: &str, e: &mut Engine, st: &mut State, m: &Meta, out: &mut Out) {
    let (umk, wmk) = (key(e, m, "unwrapped_mint"), key(e, m, "wrapped_mint"));
    let um = pre(e, m, "unwrapped_mint");
    let wm = pre(e, m, "wrapped_mint");
    let (s0, s1) = (pre(e, m, "escrow"), post(st, m, "escrow"));
    let (d0, d1) = (pre(e, m, "destination"), post(st, m, "destination"));
    match prop {
        "C12" => {
            let k = spec_mint(e, st, &umk, &wm.owner);
            out.st("the wrapped mint is the derived address", key_eq(&wmk, &k));
            let a = spec_under(e, st, b"authority", &wmk);
            let ak = key(e, m, "authority");
            out.st("the authority is the derived address", key_eq(&ak, &a));
            let es = spec_ata(e, st, &a, &kk(ids::t22()), &umk);
            let ek = key(e, m, "escrow");
            out.st("the escrow is the authority's associated account", key_eq(&ek, &es));
            out.st("both belong to Token-2022", and(key_eq(&s0.owner, &kk(ids::t22())), key_eq(&um.owner, &kk(ids::t22()))));
            if s0.data.len() >= 165 {
                out.st("the escrow was empty", eq(u64at(&s0.data, A_AMOUNT), k64(0)));
                out.st("the escrow was initialized and not frozen", eq(s0.data[A_STATE], k8(1)));
                out.st("the escrow belonged to the authority", bytes_eq(&s0.data[A_OWNER..A_OWNER + 32], &ak));
            } else {
                out.st("the escrow was a token account", fls());
            }
            out.st("the unwrapped mint is a real mint", mint_ok(Prog::T22, &um.data));
            out.st("the escrow is gone", and(k1(s1.data.is_empty()), eq(s1.lamports, k64(0))));
            out.st("its lamports went to the destination", eq(d1.lamports, add(d0.lamports, s0.lamports)));
            out.st("the destination keeps owner and contents", and(key_eq(&d0.owner, &d1.owner), bytes_eq_len(&d0.data, &d1.data)));
            frame(e, st, m, &["escrow", "destination"], out, "frame");
        }
        "C04" => {
            let a = spec_under(e, st, b"authority", &wmk);
            confine(e, st, m, &[(kk(ids::t22()), "close_account", vec![(0, "escrow"), (1, "destination"), (2, "authority")], vec![a])], out);
        }
        _ => {}
    }
}
fn bytes_eq_len(a: &[E], b: &[E]) -> E {
    if a.len() != b.len() {
        return fls();
    }
    bytes_eq(a, b)
}

pub fn pointer(prop: &str, e: &mut Engine, st: &mut State, m: &Meta, out: &mut Out) {
    let umk = key(e, m, "unwrapped_mint");
    let um = pre(e, m, "unwrapped_mint");
    let (p0, p1) = (pre(e, m, "pointer"), post(st, m, "pointer"));
    let pk = key(e, m, "pointer");
    let ak = key(e, m, "mint_authority");
    match prop {
        "C17" => {
            out.st("the mint authority signed", e.world.accts[m.r("mint_authority")].signer);
            out.st("the unwrapped mint is a real mint", real_mint(&um));
            let c = if um.data.len() >= 82 { and(opt_some(&um.data, M_AUTH), bytes_eq(&um.data[4..36], &ak)) } else { fls() };
            out.st("the signer is the mint authority", c);
            let k = spec_under(e, st, b"canonical_pointer", &umk);
            out.st("the pointer is the derived address", key_eq(&pk, &k));
            out.st("the pointer belongs to the program", key_eq(&p1.owner, &kk(e.world.program_id)));
            let ix = e.world.ix.clone();
            let c = if p1.data.len() == 32 { bytes_eq(&p1.data, &ix[1..33]) } else { fls() };
            out.st("the pointer names the given program", c);
            out.st("no lamports move", eq(p0.lamports, p1.lamports));
            if p0.data.is_empty() {
                out.st("a new pointer is rent exempt", ule(rent_min(p1.data.len()), p1.lamports));
            }
            frame(e, st, m, &["pointer"], out, "frame");
        }
        "C04" => {
            let k = spec_under(e, st, b"canonical_pointer", &umk);
            let sys = kk(ids::system());
            confine(
                e,
                st,
                m,
                &[(sys, "allocate", vec![(0, "pointer")], vec![k]), (sys, "assign", vec![(0, "pointer")], vec![k])],
                out,
            );
        }
        _ => {}
    }
}
