//! The properties, as assertions over the end of every path.
use crate::expr::*;
use crate::scen::*;
use crate::tok::*;
use crate::vm::*;
use crate::world::*;
use std::rc::Rc;

/// what a concrete replay has to agree on before a violation counts
#[derive(Clone, Copy, PartialEq)]
pub enum Judge {
    Outcome,
    State,
    Calls,
}
impl Judge {
    pub fn name(self) -> &'static str {
        match self {
            Judge::Outcome => "outcome",
            Judge::State => "state",
            Judge::Calls => "calls",
        }
    }
}
pub struct Assertion {
    pub id: String,
    pub cond: E,
    pub judge: Judge,
}
pub struct Out(pub Vec<Assertion>);
impl Out {
    pub fn st(&mut self, id: &str, cond: E) {
        self.0.push(Assertion { id: id.into(), cond, judge: Judge::State });
    }
    pub fn call(&mut self, id: &str, cond: E) {
        self.0.push(Assertion { id: id.into(), cond, judge: Judge::Calls });
    }
    pub fn res(&mut self, id: &str, cond: E) {
        self.0.push(Assertion { id: id.into(), cond, judge: Judge::Outcome });
    }
}

pub fn pre(e: &Engine, m: &Meta, r: &str) -> AcctSt {
    e.world.accts[m.r(r)].st.clone()
}
pub fn post(st: &State, m: &Meta, r: &str) -> AcctSt {
    st.accts[m.r(r)].clone()
}
fn amt(a: &AcctSt) -> Option<E> {
    (a.data.len() >= 165 && !a.opaque).then(|| u64at(&a.data, A_AMOUNT))
}
fn sup(a: &AcctSt) -> Option<E> {
    (a.data.len() >= 82 && !a.opaque).then(|| u64at(&a.data, M_SUPPLY))
}
fn oeq(a: Option<E>, b: Option<E>) -> E {
    match (a, b) {
        (Some(a), Some(b)) => eq(a, b),
        _ => fls(),
    }
}

pub fn same_acct(a: &AcctSt, b: &AcctSt) -> E {
    if a.opaque != b.opaque || a.data.len() != b.data.len() {
        return fls();
    }
    all(&[eq(a.lamports, b.lamports), key_eq(&a.owner, &b.owner), bytes_eq(&a.data, &b.data)])
}

pub fn key(e: &Engine, m: &Meta, r: &str) -> Key {
    e.world.accts[m.r(r)].key
}

/// documented addresses
pub fn spec_mint(e: &mut Engine, st: &mut State, um: &Key, wp: &Key) -> Key {
    let mut c = cbytes(b"mint");
    c.extend(um);
    c.extend(wp);
    e.spec_pda(st, &c, &kk(ids::wrap()))
}
pub fn spec_under(e: &mut Engine, st: &mut State, what: &[u8], k: &Key) -> Key {
    let mut c = cbytes(what);
    c.extend(k);
    e.spec_pda(st, &c, &kk(ids::wrap()))
}
pub fn spec_ata(e: &mut Engine, st: &mut State, owner: &Key, prog: &Key, mint: &Key) -> Key {
    let mut c = owner.to_vec();
    c.extend(prog);
    c.extend(mint);
    e.spec_pda(st, &c, &kk(ids::ata()))
}

/// signatures of `n`-th account role stand for key `k` under token program `p`
fn speaks_for(e: &Engine, m: &Meta, p: Prog, k: &Key) -> E {
    let h = &e.world.accts[m.r("holder")];
    let named = key_eq(&h.key, k);
    let d = &h.st.data;
    if d.len() != 355 {
        return and(named, h.signer);
    }
    let spl = key_eq(&h.st.owner, &kk(ids::spl()));
    let t22 = key_eq(&h.st.owner, &kk(ids::t22()));
    let n = as_const(d[1]).unwrap() as usize;
    let mut c = k8(0);
    for i in 0..n {
        let mk = rdkey(d, 3 + 32 * i);
        let signed = any(&e.world.accts.iter().map(|a| and(key_eq(&a.key, &mk), a.signer)).collect::<Vec<_>>());
        c = add(c, zext(8, signed));
    }
    let multi = and(not(eq(d[2], k8(0))), ule(d[0], c));
    // Token-2022 releases differ on whether they honour a multisignature account of the other program
    match p {
        Prog::Spl => and(named, ite(spl, multi, h.signer)),
        Prog::T22 => and(named, ite(t22, multi, or(h.signer, and(spl, multi)))),
    }
}
/// the holder may spend `amount` from `acct` of a mint with data `mint`
fn may_spend(e: &Engine, m: &Meta, p: Prog, acct: &AcctSt, mint: &AcctSt, amount: E) -> E {
    let d = &acct.data;
    if d.len() < 165 {
        return fls();
    }
    let owner = speaks_for(e, m, p, &rdkey(d, A_OWNER));
    let del = all(&[
        opt_some(d, A_DELEGATE),
        speaks_for(e, m, p, &rdkey(d, A_DELEGATE + 4)),
        ule(amount, u64at(d, A_DELEGATED)),
    ]);
    let mut perm = fls();
    if p == Prog::T22 {
        if let Some(o) = ext_at(&mint.data, ext::PERMANENT_DELEGATE) {
            perm = speaks_for(e, m, p, &rdkey(&mint.data, o));
        }
    }
    any(&[owner, del, perm])
}

/// every account outside `but` is exactly as before
pub fn frame(e: &Engine, st: &State, m: &Meta, but: &[&str], out: &mut Out, tag: &str) {
    for (i, a) in e.world.accts.iter().enumerate() {
        if but.iter().any(|r| m.has(r) && m.r(r) == i) {
            continue;
        }
        out.st(&format!("{tag}: {} untouched", a.name), same_acct(&a.st, &st.accts[i]));
    }
}
/// bytes of a token account outside `ranges` are exactly as before
pub fn frame_bytes(a: &AcctSt, b: &AcctSt, ranges: &[(usize, usize)]) -> E {
    if a.data.len() != b.data.len() || a.opaque || b.opaque {
        return fls();
    }
    let mut v = vec![key_eq(&a.owner, &b.owner)];
    let keep = |i: usize| !ranges.iter().any(|r| i >= r.0 && i < r.1);
    for i in 0..a.data.len() {
        if keep(i) && a.data[i] != b.data[i] {
            v.push(eq(a.data[i], b.data[i]));
        }
    }
    all(&v)
}

struct Tmpl<'a> {
    program: Key,
    kind: &'a str,
    /// role expected at each position
    metas: Vec<(usize, &'a str)>,
    /// addresses the program may sign for
    pdas: Vec<Key>,
}

/// every nested call that carries a signature is one of the documented ones
pub fn confine(e: &Engine, st: &State, m: &Meta, allowed: &[(Key, &str, Vec<(usize, &str)>, Vec<Key>)], out: &mut Out) {
    let _ = Tmpl { program: kk([0; 32]), kind: "", metas: vec![], pdas: vec![] };
    for (n, c) in st.cpis.iter().enumerate() {
        let silent = and(
            k1(c.signer_tags.is_empty()),
            all(&c.metas.iter().map(|x| not(x.signer)).collect::<Vec<_>>()),
        );
        let mut alts = vec![silent];
        for (p, k, metas, pdas) in allowed {
            if c.kind != *k {
                continue;
            }
            let mut v = vec![key_eq(&c.program, p)];
            for (i, r) in metas {
                match c.metas.get(*i) {
                    Some(x) => v.push(k1(x.acct == m.r(r))),
                    None => v.push(fls()),
                }
            }
            for t in &c.signer_tags {
                v.push(any(&pdas.iter().map(|p| key_eq(p, &key_const(t))).collect::<Vec<_>>()));
            }
            // signatures asked for beyond what the callers gave must come from the listed addresses
            alts.push(all(&v));
        }
        out.call(&format!("call {n} ({}) is a documented use of signatures", c.kind), any(&alts));
    }
    let _ = e;
}

pub fn wrap_unwrap(prop: &str, e: &mut Engine, st: &mut State, m: &Meta, out: &mut Out) {
    let wrap = m.kind == "wrap";
    let (upid, wpid) = (key(e, m, "unwrapped_program"), key(e, m, "wrapped_program"));
    let amount = m.amount;
    let um = pre(e, m, "unwrapped_mint");
    let wm = pre(e, m, "wrapped_mint");
    let wm2 = post(st, m, "wrapped_mint");
    let (u, u2) = (pre(e, m, "user"), post(st, m, "user"));
    let (r, r2) = (pre(e, m, "recipient"), post(st, m, "recipient"));
    let (es, es2) = (pre(e, m, "escrow"), post(st, m, "escrow"));
    let (f, _) = if m.up == Prog::Spl { (k64(0), tru()) } else { fee(&um.data, e.world.epoch, amount) };
    let net = sub(amount, f);
    let minus = |a: Option<E>, x: E| a.map(|a| sub(a, x));
    let plus = |a: Option<E>, x: E| a.map(|a| add(a, x));
    match prop {
        "C01" if wrap => {
            out.st("amount is not zero", not(eq(amount, k64(0))));
            out.st("the source pays exactly the amount", oeq(amt(&u2), minus(amt(&u), amount)));
            out.st("the escrow receives the amount less the fee", oeq(amt(&es2), plus(amt(&es), net)));
            out.st("the recipient receives what the escrow received", oeq(amt(&r2), plus(amt(&r), net)));
            out.st("the supply grows by what the escrow received", oeq(sup(&wm2), plus(sup(&wm), net)));
            let backed = match (amt(&es), amt(&es2), sup(&wm), sup(&wm2)) {
                (Some(a), Some(b), Some(c), Some(d)) => {
                    // neither wraps around, and the supply grows by no more than the escrow
                    all(&[ule(c, d), ule(a, b), ule(sub(d, c), sub(b, a))])
                }
                _ => fls(),
            };
            out.st("every new wrapped token is backed", backed);
        }
        "C02" if !wrap => {
            out.st("amount is not zero", not(eq(amount, k64(0))));
            out.st("the holder burns exactly the amount", oeq(amt(&u2), minus(amt(&u), amount)));
            out.st("the supply shrinks by the amount", oeq(sup(&wm2), minus(sup(&wm), amount)));
            if m.r("recipient") != m.r("escrow") {
                out.st("the escrow releases exactly the amount", oeq(amt(&es2), minus(amt(&es), amount)));
                out.st("the recipient receives the amount less the fee", oeq(amt(&r2), plus(amt(&r), net)));
            }
            let backed = match (amt(&es), amt(&es2), sup(&wm), sup(&wm2)) {
                // a - b <= c - d over the integers
                (Some(a), Some(b), Some(c), Some(d)) => or(ule(a, b), all(&[ule(d, c), ule(sub(a, b), sub(c, d))])),
                _ => fls(),
            };
            out.st("what leaves the escrow was burned", backed);
        }
        "C03" => {
            let (umk, wmk) = (key(e, m, "unwrapped_mint"), key(e, m, "wrapped_mint"));
            let k = spec_mint(e, st, &umk, &wpid);
            out.st("wrapped mint is the derived address", key_eq(&wmk, &k));
            let a = spec_under(e, st, b"authority", &wmk);
            let ak = key(e, m, "authority");
            out.st("mint authority is the derived address", key_eq(&ak, &a));
            let es = spec_ata(e, st, &a, &upid, &umk);
            let ek = key(e, m, "escrow");
            out.st("escrow is the authority's associated account", key_eq(&ek, &es));
            let tp = |k: &Key| or(key_eq(k, &kk(ids::spl())), key_eq(k, &kk(ids::t22())));
            out.st("unwrapped token program is a token program", tp(&upid));
            out.st("wrapped token program is a token program", tp(&wpid));
            let (s, d, sp, dp) = if wrap { ("user", "recipient", &upid, &wpid) } else { ("recipient", "user", &upid, &wpid) };
            for (n, mint, prog) in [(s, &umk, sp), (d, &wmk, dp), ("escrow", &umk, sp)] {
                let a = pre(e, m, n);
                let c = if a.data.len() >= 165 {
                    and(key_eq(&rdkey(&a.data, A_MINT), mint), key_eq(&a.owner, prog))
                } else {
                    fls()
                };
                out.st(&format!("{n} holds tokens of the right mint"), c);
            }
            let a = pre(e, m, "wrapped_mint");
            out.st("wrapped mint belongs to its token program", key_eq(&a.owner, &wpid));
            if wrap {
                let a = pre(e, m, "escrow");
                let c = if a.data.len() >= 165 { key_eq(&rdkey(&a.data, A_OWNER), &ak) } else { fls() };
                out.st("escrow is owned by the mint authority", c);
            }
        }
        "C04" => {
            let wmk = key(e, m, "wrapped_mint");
            let a = spec_under(e, st, b"authority", &wmk);
            let allowed = if wrap {
                vec![
                    (upid, "transfer", vec![(0, "user"), (1, "unwrapped_mint"), (2, "escrow"), (3, "holder")], vec![]),
                    (wpid, "mint_to", vec![(0, "wrapped_mint"), (1, "recipient"), (2, "authority")], vec![a]),
                ]
            } else {
                vec![
                    (wpid, "burn", vec![(0, "user"), (1, "wrapped_mint"), (2, "holder")], vec![]),
                    (upid, "transfer", vec![(0, "escrow"), (1, "unwrapped_mint"), (2, "recipient"), (3, "authority")], vec![a]),
                ]
            };
            confine(e, st, m, &allowed, out);
        }
        "C05" => {
            let (p, mint) = if wrap { (m.up, &um) } else { (m.wp, &wm) };
            // anyone may burn what was sent to the system program or the incinerator
            let trash = if wrap || u.data.len() < 165 {
                fls()
            } else {
                let o = rdkey(&u.data, A_OWNER);
                or(key_eq(&o, &kk(ids::system())), key_eq(&o, &kk(ids::incinerator())))
            };
            out.st("the spender was entitled to the amount", or(trash, may_spend(e, m, p, &u, mint, amount)));
            frame(e, st, m, &["user", "recipient", "escrow", "wrapped_mint"], out, "frame");
            let spent = [(A_AMOUNT, A_AMOUNT + 8), (A_DELEGATE, A_DELEGATE + 36), (A_DELEGATED, A_DELEGATED + 8)];
            let mut got = vec![(A_AMOUNT, A_AMOUNT + 8)];
            if let Some(o) = ext_at(&es.data, ext::TRANSFER_FEE_AMOUNT) {
                got.push((o, o + 8));
            }
            // the account paying, with the allowance a delegate used up
            out.st("frame: only the balance of the source changes", frame_bytes(&u, &u2, &spent));
            if m.r("recipient") != m.r("user") {
                let mut g = vec![(A_AMOUNT, A_AMOUNT + 8)];
                if let Some(o) = ext_at(&r.data, ext::TRANSFER_FEE_AMOUNT) {
                    g.push((o, o + 8));
                }
                out.st("frame: only the balance of the recipient changes", frame_bytes(&r, &r2, &g));
            }
            let esr: Vec<_> = if wrap { got } else { spent.to_vec() };
            out.st("frame: only the balance of the escrow changes", frame_bytes(&es, &es2, &esr));
            out.st("frame: only the supply of the wrapped mint changes", frame_bytes(&wm, &wm2, &[(M_SUPPLY, M_SUPPLY + 8)]));
            // allowances are used up by what a delegate spends, and by nothing else
            if u.data.len() >= 165 && u2.data.len() >= 165 {
                let (d0, d1) = (u64at(&u.data, A_DELEGATED), u64at(&u2.data, A_DELEGATED));
                let hk = key(e, m, "holder");
                let isdel = and(opt_some(&u.data, A_DELEGATE), bytes_eq(&u.data[A_DELEGATE + 4..A_DELEGATE + 36], &hk));
                out.st("allowance never grows", ule(d1, d0));
                out.st("allowance shrinks only for its delegate", or(isdel, eq(d1, d0)));
            }
            // lamports only follow native tokens
            let isnat = |a: &AcctSt| if a.data.len() >= 165 { opt_some(&a.data, A_NATIVE) } else { fls() };
            for (n, a, b) in [("user", &u, &u2), ("recipient", &r, &r2), ("escrow", &es, &es2)] {
                let from = if wrap { isnat(&u) } else { isnat(&es) };
                let nat = or(from, isnat(a));
                out.st(&format!("frame: lamports of {n}"), or(nat, eq(a.lamports, b.lamports)));
            }
            out.st("frame: lamports of the wrapped mint", eq(wm.lamports, wm2.lamports));
        }
        _ => {}
    }
}

pub fn assertions(prop: &str, e: &mut Engine, st: &mut State, o: &Outcome, m: &Meta) -> Vec<Assertion> {
    KNOWN.with(|k| *k.borrow_mut() = st.known.clone());
    let mut out = Out(vec![]);
    if m.kind.starts_with("lib.") {
        crate::libs::asserts(e, st, o, m, &mut out);
        return out.0;
    }
    if m.live {
        if matches!(prop, "C06" | "C07" | "C08" | "C10" | "C11" | "C13" | "C14" | "C15" | "C17") || m.flag("live_any") {
            out.res("an entitled caller with well-formed accounts succeeds", k1(o.ok()));
        }
        if !o.ok() {
            return out.0;
        }
    }
    if !o.ok() {
        return out.0;
    }
    if m.must_fail {
        out.res("the transaction is refused", fls());
        return out.0;
    }
    if prop == "C22" {
        backing(e, st, m, &mut out);
        return out.0;
    }
    match m.kind {
        "wrap" | "unwrap" => wrap_unwrap(prop, e, st, m, &mut out),
        "create" => crate::props2::create(prop, e, st, m, &mut out),
        "close" => crate::props2::close(prop, e, st, m, &mut out),
        "sync" => crate::meta::asserts(prop, e, st, m, &mut out),
        "pointer" => crate::props2::pointer(prop, e, st, m, &mut out),
        _ => {}
    }
    out.0
}

/// a wrapped mint and its escrow, as every history of this program leaves them: as many tokens in
/// the escrow as were minted, and both controlled by the derived authority alone
fn sound(w: &AcctSt, es: &AcctSt, auth: &Key) -> E {
    if w.data.len() < 82 || es.data.len() < 165 || w.opaque || es.opaque {
        return fls();
    }
    all(&[
        ule(u64at(&w.data, M_SUPPLY), u64at(&es.data, A_AMOUNT)),
        opt_some(&w.data, M_AUTH),
        bytes_eq(&w.data[M_AUTH + 4..M_AUTH + 36], auth),
        bytes_eq(&es.data[A_OWNER..A_OWNER + 32], auth),
        not(opt_some(&es.data, A_DELEGATE)),
        not(opt_some(&es.data, A_CLOSE)),
    ])
}

/// one step of an induction over histories: every successful instruction keeps the pair sound
fn backing(e: &mut Engine, st: &mut State, m: &Meta, out: &mut Out) {
    let tp = |k: &Key| or(key_eq(k, &kk(ids::spl())), key_eq(k, &kk(ids::t22())));
    if matches!(m.kind, "wrap" | "unwrap") {
        let (w, w2) = (pre(e, m, "wrapped_mint"), post(st, m, "wrapped_mint"));
        let (s, s2) = (pre(e, m, "escrow"), post(st, m, "escrow"));
        let a = key(e, m, "authority");
        let before = sound(&w, &s, &a);
        out.st("the pair stays sound", implies(before, sound(&w2, &s2, &a)));
        out.st("mint and escrow stay with their programs", and(key_eq(&w.owner, &w2.owner), key_eq(&s.owner, &s2.owner)));
    }
    for i in 0..e.world.accts.len() {
        let a = e.world.accts[i].clone();
        let b = st.accts[i].clone();
        let ours = |r: &str| m.has(r) && m.r(r) == i;
        let c = match m.kind {
            "wrap" | "unwrap" if ours("wrapped_mint") => {
                // only the supply moves
                implies(tp(&a.st.owner), frame_bytes(&a.st, &b, &[(M_SUPPLY, M_SUPPLY + 8)]))
            }
            "wrap" | "unwrap" if ["user", "recipient", "escrow"].iter().any(|r| ours(r)) => {
                // balance, fees withheld, and an allowance that is used
                let (x, y) = (&a.st.data, &b.data);
                let fees = ext_at(x, ext::TRANSFER_FEE_AMOUNT).map_or((0, 0), |o| (o, o + 8));
                let keep = frame_bytes(&a.st, &b, &[(A_AMOUNT, A_AMOUNT + 8), (A_DELEGATE, A_DELEGATE + 36), (A_DELEGATED, A_DELEGATED + 8), fees]);
                let del = if x.len() >= 165 && y.len() == x.len() && !b.opaque && !a.st.opaque {
                    or(
                        and(bytes_eq(&x[A_DELEGATE..A_DELEGATE + 36], &y[A_DELEGATE..A_DELEGATE + 36]), ule(u64at(y, A_DELEGATED), u64at(x, A_DELEGATED))),
                        and(not(opt_some(y, A_DELEGATE)), eq(u64at(y, A_DELEGATED), k64(0))),
                    )
                } else {
                    fls()
                };
                implies(tp(&a.st.owner), and(keep, del))
            }
            "close" if ours("escrow") => {
                let w = pre(e, m, "wrapped_mint");
                let k = key(e, m, "authority");
                // what is closed backed nothing
                let none = if w.data.len() >= 82 && !w.opaque { eq(u64at(&w.data, M_SUPPLY), k64(0)) } else { fls() };
                implies(sound(&w, &a.st, &k), none)
            }
            "create" if ours("wrapped_mint") && !m.flag("exists") => {
                let k = spec_under(e, st, b"authority", &a.key);
                if b.data.len() >= 82 && !b.opaque {
                    all(&[eq(u64at(&b.data, M_SUPPLY), k64(0)), opt_some(&b.data, M_AUTH), bytes_eq(&b.data[M_AUTH + 4..M_AUTH + 36], &k), not(tp(&a.st.owner))])
                } else {
                    fls()
                }
            }
            _ => {
                // balances, supplies and authorities of everyone else
                let n = if a.st.data.len() >= 165 && !matches!(m.kind, "sync") { 165 } else { 82 };
                let same = if a.st.opaque || b.opaque {
                    // metadata edits: what they can do is checked with the metadata
                    key_eq(&a.st.owner, &b.owner)
                } else if a.st.data.len() >= n && b.data.len() >= n {
                    and(key_eq(&a.st.owner, &b.owner), bytes_eq(&a.st.data[..n], &b.data[..n]))
                } else {
                    k1(a.st.data.len() == b.data.len())
                };
                implies(tp(&a.st.owner), same)
            }
        };
        out.st(&format!("balance, supply and authorities of {}", e.world.accts[i].name), c);
    }
}

#[allow(dead_code)]
fn unused(_: Rc<u8>) {}
