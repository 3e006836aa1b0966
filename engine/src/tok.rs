//! Layout of token accounts and mints (plain and with extensions), and the
//! documented behaviour of both token programs as transition relations.
use crate::expr::*;
use crate::vm::*;
use crate::world::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Prog {
    Spl,
    T22,
}
impl Prog {
    pub fn id(self) -> [u8; 32] {
        match self {
            Prog::Spl => ids::spl(),
            Prog::T22 => ids::t22(),
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Prog::Spl => "spl",
            Prog::T22 => "t22",
        }
    }
}

pub mod ext {
    pub const TRANSFER_FEE_CONFIG: u16 = 1;
    pub const TRANSFER_FEE_AMOUNT: u16 = 2;
    pub const MINT_CLOSE_AUTHORITY: u16 = 3;
    pub const CONFIDENTIAL_MINT: u16 = 4;
    pub const CONFIDENTIAL_ACCOUNT: u16 = 5;
    pub const DEFAULT_STATE: u16 = 6;
    pub const IMMUTABLE_OWNER: u16 = 7;
    pub const MEMO_TRANSFER: u16 = 8;
    pub const NON_TRANSFERABLE: u16 = 9;
    pub const INTEREST: u16 = 10;
    pub const CPI_GUARD: u16 = 11;
    pub const PERMANENT_DELEGATE: u16 = 12;
    pub const NON_TRANSFERABLE_ACCOUNT: u16 = 13;
    pub const HOOK: u16 = 14;
    pub const HOOK_ACCOUNT: u16 = 15;
    pub const METADATA_POINTER: u16 = 18;
    pub const TOKEN_METADATA: u16 = 19;
    pub const CONFIDENTIAL_FEE: u16 = 16;
    pub const CONFIDENTIAL_FEE_AMOUNT: u16 = 17;
    pub const CONFIDENTIAL_MINT_BURN: u16 = 24;
    /// the metadata extension with a long text in it
    pub const LONG_METADATA: u16 = 0x4000 | TOKEN_METADATA;
    pub const GROUP_POINTER: u16 = 20;
    pub const GROUP: u16 = 21;
    pub const MEMBER_POINTER: u16 = 22;
    pub const MEMBER: u16 = 23;
    pub const SCALED: u16 = 25;
    pub const PAUSABLE: u16 = 26;
    pub const PAUSABLE_ACCOUNT: u16 = 27;
}
pub fn ext_len(t: u16) -> usize {
    use ext::*;
    match t {
        TRANSFER_FEE_CONFIG => 108,
        TRANSFER_FEE_AMOUNT => 8,
        MINT_CLOSE_AUTHORITY => 32,
        CONFIDENTIAL_MINT => 65,
        CONFIDENTIAL_ACCOUNT => 295,
        DEFAULT_STATE => 1,
        IMMUTABLE_OWNER => 0,
        MEMO_TRANSFER => 1,
        NON_TRANSFERABLE => 0,
        INTEREST => 52,
        CPI_GUARD => 1,
        PERMANENT_DELEGATE => 32,
        NON_TRANSFERABLE_ACCOUNT => 0,
        HOOK => 64,
        HOOK_ACCOUNT => 1,
        METADATA_POINTER => 64,
        // a name of three characters
        TOKEN_METADATA => 83,
        CONFIDENTIAL_FEE => 129,
        CONFIDENTIAL_FEE_AMOUNT => 64,
        CONFIDENTIAL_MINT_BURN => 196,
        LONG_METADATA => 1280,
        GROUP_POINTER => 64,
        GROUP => 80,
        MEMBER_POINTER => 64,
        MEMBER => 72,
        SCALED => 56,
        PAUSABLE => 33,
        PAUSABLE_ACCOUNT => 0,
        _ => panic!("extension {t}"),
    }
}

/// offset of the flag that allows transfers that are not confidential
pub const CONF_CREDITS: usize = 262;

// account fields
pub const A_MINT: usize = 0;
pub const A_OWNER: usize = 32;
pub const A_AMOUNT: usize = 64;
pub const A_DELEGATE: usize = 72;
pub const A_STATE: usize = 108;
pub const A_NATIVE: usize = 109;
pub const A_DELEGATED: usize = 121;
pub const A_CLOSE: usize = 129;
// mint fields
pub const M_AUTH: usize = 0;
pub const M_SUPPLY: usize = 36;
pub const M_DECIMALS: usize = 44;
pub const M_INIT: usize = 45;
pub const M_FREEZE: usize = 46;

pub fn u64at(d: &[E], o: usize) -> E {
    rd(d, o, 8)
}
pub fn set64(d: &mut [E], o: usize, v: E) {
    put(d, o, &to_bytes(v));
}
pub fn opt_some(d: &[E], o: usize) -> E {
    eq(rd(d, o, 4), konst(32, 1))
}
pub fn k1(b: bool) -> E {
    if b {
        tru()
    } else {
        fls()
    }
}

/// (type, value offset, length) of every entry; None when the structure is not concrete
pub fn tlv(d: &[E]) -> Option<Vec<(u16, usize, usize)>> {
    let mut v = vec![];
    if d.len() <= 166 {
        return Some(v);
    }
    let mut o = 166;
    while o + 4 <= d.len() {
        let t = as_const(rd(d, o, 2))? as u16;
        if t == 0 {
            break;
        }
        let l = as_const(rd(d, o + 2, 2))? as usize;
        if o + 4 + l > d.len() {
            return None;
        }
        v.push((t, o + 4, l));
        o += 4 + l;
    }
    Some(v)
}
pub fn ext_at(d: &[E], t: u16) -> Option<usize> {
    tlv(d)?.iter().find(|x| x.0 == t).map(|x| x.1)
}

/// what a token program accepts as one of its (initialized) token accounts
pub fn account_ok(p: Prog, d: &[E]) -> E {
    let st = |d: &[E]| or(eq(d[A_STATE], k8(1)), eq(d[A_STATE], k8(2)));
    match p {
        Prog::Spl => {
            if d.len() != 165 {
                return fls();
            }
            st(d)
        }
        Prog::T22 => {
            if d.len() == 165 {
                return st(d);
            }
            if d.len() <= 165 || d.len() == 355 {
                return fls();
            }
            and(st(d), eq(d[165], k8(2)))
        }
    }
}
pub fn mint_ok(p: Prog, d: &[E]) -> E {
    match p {
        Prog::Spl => {
            if d.len() != 82 {
                return fls();
            }
            eq(d[M_INIT], k8(1))
        }
        Prog::T22 => {
            if d.len() == 82 {
                return eq(d[M_INIT], k8(1));
            }
            if d.len() <= 165 || d.len() == 355 {
                return fls();
            }
            let pad = bytes_eq(&d[82..165], &zeros(83));
            all(&[eq(d[M_INIT], k8(1)), eq(d[165], k8(1)), pad])
        }
    }
}
/// encodings the token programs never leave behind are excluded
pub fn account_wf(d: &[E]) -> E {
    let tag = |o: usize| {
        let t = rd(d, o, 4);
        or(eq(t, konst(32, 0)), eq(t, konst(32, 1)))
    };
    if d.len() < 165 {
        return tru();
    }
    all(&[tag(A_DELEGATE), tag(A_NATIVE), tag(A_CLOSE), ule(d[A_STATE], k8(2))])
}
pub fn mint_wf(d: &[E]) -> E {
    let tag = |o: usize| {
        let t = rd(d, o, 4);
        or(eq(t, konst(32, 0)), eq(t, konst(32, 1)))
    };
    if d.len() < 82 {
        return tru();
    }
    let mut v = vec![tag(M_AUTH), tag(M_FREEZE), ule(d[M_INIT], k8(1))];
    if let Some(o) = ext_at(d, ext::TRANSFER_FEE_CONFIG) {
        v.push(ule(rd(d, o + 72 + 16, 2), konst(16, 10_000)));
        v.push(ule(rd(d, o + 90 + 16, 2), konst(16, 10_000)));
    }
    all(&v)
}

thread_local! {
    /// facts of the path being executed, used to pick branches of model terms
    pub static KNOWN: std::cell::RefCell<crate::vm::im_set::Set> = Default::default();
}
fn kn(e: E) -> E {
    KNOWN.with(|k| {
        let k = k.borrow();
        if k.has(e) {
            tru()
        } else if k.has(not(e)) {
            fls()
        } else {
            e
        }
    })
}

/// fee the token program withholds from a transfer of `amount` (and whether it can be computed)
pub fn fee(mint: &[E], epoch: E, amount: E) -> (E, E) {
    let o = match ext_at(mint, ext::TRANSFER_FEE_CONFIG) {
        None => return (k64(0), tru()),
        Some(o) => o,
    };
    let (older, newer) = (o + 72, o + 90);
    let use_new = kn(ule(u64at(mint, newer), epoch));
    let pick = |a: usize, n: usize| ite(use_new, rd(mint, newer + a, n), rd(mint, older + a, n));
    let bps = pick(16, 2);
    let max = pick(8, 8);
    let zero = or(kn(eq(bps, konst(16, 0))), kn(eq(amount, k64(0))));
    let raw = bin(
        Op::Udiv,
        add(mul(zext(128, amount), zext(128, bps)), konst(128, 9_999)),
        konst(128, 10_000),
    );
    let fits = kn(eq(extract(127, 64, raw), k64(0)));
    let r = extract(63, 0, raw);
    let capped = ite(kn(ult(r, max)), r, max);
    (ite(zero, k64(0), capped), or(zero, fits))
}

// ---------------------------------------------------------------- scenario data

/// a token account with symbolic contents and the given extension types
pub fn account_data(n: &str, exts: &[u16]) -> Vec<E> {
    let mut d = vec![];
    let key = |s: &str| vkey(&format!("{n}.{s}")).to_vec();
    d.extend(key("mint"));
    d.extend(key("owner"));
    d.extend(to_bytes(v64(&format!("{n}.amount"))));
    d.extend(to_bytes(var(&format!("{n}.delegate_tag"), 32)));
    d.extend(key("delegate"));
    d.push(v8(&format!("{n}.state")));
    d.extend(to_bytes(var(&format!("{n}.native_tag"), 32)));
    d.extend(to_bytes(v64(&format!("{n}.native"))));
    d.extend(to_bytes(v64(&format!("{n}.delegated"))));
    d.extend(to_bytes(var(&format!("{n}.close_tag"), 32)));
    d.extend(key("close"));
    assert_eq!(d.len(), 165);
    if !exts.is_empty() {
        d.push(k8(2));
        push_exts(&mut d, n, exts);
    }
    d
}
pub fn mint_data(n: &str, exts: &[u16]) -> Vec<E> {
    let mut d = vec![];
    let key = |s: &str| vkey(&format!("{n}.{s}")).to_vec();
    d.extend(to_bytes(var(&format!("{n}.auth_tag"), 32)));
    d.extend(key("auth"));
    d.extend(to_bytes(v64(&format!("{n}.supply"))));
    d.push(v8(&format!("{n}.decimals")));
    d.push(v8(&format!("{n}.init")));
    d.extend(to_bytes(var(&format!("{n}.freeze_tag"), 32)));
    d.extend(key("freeze"));
    assert_eq!(d.len(), 82);
    if !exts.is_empty() {
        d.extend(zeros(83));
        d.push(k8(1));
        push_exts(&mut d, n, exts);
    }
    d
}
fn push_exts(d: &mut Vec<E>, n: &str, exts: &[u16]) {
    for t in exts {
        push_ext_header(d, *t, ext_len(*t));
        d.extend(ext_fields(&format!("{n}.ext{t}"), *t));
    }
    if d.len() == 355 {
        d.extend(zeros(4));
    }
}
pub fn push_ext_header(d: &mut Vec<E>, t: u16, l: usize) {
    d.extend(to_bytes(konst(16, (t & 0x3fff) as u128)));
    d.extend(to_bytes(konst(16, l as u128)));
}
pub fn ext_fields(n: &str, t: u16) -> Vec<E> {
    use ext::*;
    let key = |s: &str| vkey(&format!("{n}.{s}")).to_vec();
    let mut d = vec![];
    match t {
        TRANSFER_FEE_CONFIG => {
            d.extend(key("auth"));
            d.extend(key("withdraw"));
            d.extend(to_bytes(v64(&format!("{n}.withheld"))));
            for w in ["older", "newer"] {
                d.extend(to_bytes(v64(&format!("{n}.{w}.epoch"))));
                d.extend(to_bytes(v64(&format!("{n}.{w}.max"))));
                d.extend(to_bytes(var(&format!("{n}.{w}.bps"), 16)));
            }
        }
        TRANSFER_FEE_AMOUNT => d.extend(to_bytes(v64(&format!("{n}.withheld")))),
        MINT_CLOSE_AUTHORITY | PERMANENT_DELEGATE => d.extend(key("key")),
        HOOK | METADATA_POINTER => {
            d.extend(key("auth"));
            d.extend(key("addr"));
        }
        PAUSABLE => {
            d.extend(key("auth"));
            d.push(v8(&format!("{n}.paused")));
        }
        TOKEN_METADATA => {
            d.extend(key("auth"));
            d.extend(key("mint"));
            d.extend(to_bytes(konst(32, 3)));
            for i in 0..3 {
                d.push(zext(8, var(&format!("{n}.c{i}"), 7)));
            }
            d.extend(zeros(12));
        }
        LONG_METADATA => {
            d.extend(key("auth"));
            d.extend(key("mint"));
            d.extend(zeros(8));
            d.extend(to_bytes(konst(32, 1200)));
            d.extend((0..1200).map(|_| k8(b'u')));
            d.extend(zeros(4));
        }
        CONFIDENTIAL_MINT => {
            d.extend(key("auth"));
            d.push(v8(&format!("{n}.auto")));
            d.extend(key("auditor"));
        }
        _ => {
            for i in 0..ext_len(t) {
                d.push(v8(&format!("{n}.b{i}")));
            }
        }
    }
    assert_eq!(d.len(), ext_len(t));
    d
}
/// a multisig account with `n` signers
pub fn multisig_data(name: &str, n: usize) -> Vec<E> {
    let mut d = vec![v8(&format!("{name}.m")), k8(n as u8), k8(1)];
    for i in 0..11 {
        if i < n {
            d.extend(vkey(&format!("{name}.signer{i}")));
        } else {
            d.extend(zeros(32));
        }
    }
    assert_eq!(d.len(), 355);
    d
}

// ---------------------------------------------------------------- transition relations

/// an account as a called program sees it
pub struct View<'a> {
    pub key: Key,
    pub signer: E,
    pub writable: E,
    pub idx: usize,
    pub st: &'a AcctSt,
}

/// result of a call: `ok` and the new account states
pub struct Effect {
    pub ok: E,
    pub new: Vec<(usize, AcctSt)>,
    pub kind: String,
}

fn pid(p: Prog) -> Key {
    kk(p.id())
}

/// the authority check of both token programs, multisignature owners included
pub fn owner_ok(p: Prog, expected: &Key, auth: &View, signers: &[View]) -> E {
    let named = key_eq(expected, &auth.key);
    let d = &auth.st.data;
    if d.len() != 355 {
        return and(named, auth.signer);
    }
    // the deployed Token-2022 the replay runs against only honours its own multisignature accounts
    let ms_owner = key_eq(&auth.st.owner, &pid(p));
    let n = as_const(d[1]).expect("multisig n") as usize;
    let mut matched = vec![fls(); n];
    let mut ok = not(eq(d[2], k8(0)));
    let mut count = k8(0);
    for s in signers {
        for i in 0..n {
            let k = rdkey(d, 3 + 32 * i);
            let hit = and(key_eq(&k, &s.key), not(matched[i]));
            ok = and(ok, implies(hit, s.signer));
            matched[i] = or(matched[i], hit);
            count = add(count, zext(8, hit));
        }
    }
    let multi = and(ok, ule(d[0], count));
    and(named, ite(ms_owner, multi, auth.signer))
}

fn bool_ext(d: &[E], t: u16) -> E {
    match ext_at(d, t) {
        Some(o) => not(eq(d[o], k8(0))),
        None => fls(),
    }
}
fn nonzero_key(d: &[E], o: usize) -> E {
    not(bytes_eq(&d[o..o + 32], &zeros(32)))
}

/// spend from a token account: who may, and what happens to an allowance
fn spend_auth(p: Prog, src: &AcctSt, mint: Option<&AcctSt>, auth: &View, signers: &[View], amount: E, self_transfer: E, out: &mut Vec<E>) -> E {
    let d = &src.data;
    let owner = rdkey(d, A_OWNER);
    let delegate = rdkey(d, A_DELEGATE + 4);
    let has_delegate = opt_some(d, A_DELEGATE);
    let mut perm = fls();
    if p == Prog::T22 {
        if let Some(m) = mint {
            if let Some(o) = ext_at(&m.data, ext::PERMANENT_DELEGATE) {
                let k = rdkey(&m.data, o);
                perm = all(&[nonzero_key(&m.data, o), key_eq(&k, &auth.key)]);
            }
        }
    }
    let is_del = all(&[not(perm), has_delegate, key_eq(&delegate, &auth.key)]);
    let owner_branch = owner_ok(p, &owner, auth, signers);
    let self_ok = owner_ok(p, &auth.key, auth, signers);
    let allowance = u64at(d, A_DELEGATED);
    let ok = ite(perm, self_ok, ite(is_del, and(self_ok, ule(amount, allowance)), owner_branch));
    // allowance bookkeeping
    let uses = and(is_del, not(self_transfer));
    let left = sub(allowance, amount);
    set64(out, A_DELEGATED, ite(uses, left, allowance));
    let gone = and(uses, eq(left, k64(0)));
    let tag = rd(d, A_DELEGATE, 4);
    put(out, A_DELEGATE, &to_bytes(ite(gone, konst(32, 0), tag)));
    if p == Prog::T22 {
        // PodCOption::none() also clears the value
        for i in 0..32 {
            out[A_DELEGATE + 4 + i] = ite(gone, k8(0), d[A_DELEGATE + 4 + i]);
        }
    }
    ok
}

/// Transfer / TransferChecked / TransferCheckedWithFee
pub fn transfer(p: Prog, src: &View, mint: Option<(&View, E)>, dst: &View, auth: &View, signers: &[View], amount: E, stated_fee: Option<E>, epoch: E, hook_ok: E) -> Effect {
    let own = |a: &View| key_eq(&a.st.owner, &pid(p));
    let sd = &src.st.data;
    let dd = &dst.st.data;
    let same = src.idx == dst.idx;
    let mut ok = vec![own(src), own(dst), src.writable, dst.writable];
    let kind = "transfer".to_string();
    let fail = |kind: String| Effect { ok: fls(), new: vec![], kind };
    let aok = account_ok(p, sd);
    let bok = account_ok(p, dd);
    if is_false(aok) || is_false(bok) {
        return fail(kind);
    }
    ok.push(aok);
    ok.push(bok);
    ok.push(not(eq(sd[A_STATE], k8(2))));
    ok.push(not(eq(dd[A_STATE], k8(2))));
    ok.push(ule(amount, u64at(sd, A_AMOUNT)));
    let (mut f, mut fok) = (k64(0), tru());
    if let Some((m, dec)) = &mint {
        let md = &m.st.data;
        let mok = mint_ok(p, md);
        if is_false(mok) {
            return fail(kind);
        }
        ok.push(mok);
        if p == Prog::T22 {
            ok.push(own(m));
        }
        ok.push(bytes_eq(&sd[A_MINT..A_MINT + 32], &m.key));
        ok.push(eq(md[M_DECIMALS], *dec));
        if p == Prog::T22 {
            (f, fok) = fee(md, epoch, amount);
            ok.push(not(match ext_at(md, ext::PAUSABLE) {
                Some(o) => not(eq(md[o + 32], k8(0))),
                None => fls(),
            }));
        }
    } else if p == Prog::T22 {
        for t in [ext::HOOK_ACCOUNT, ext::TRANSFER_FEE_AMOUNT, ext::PAUSABLE_ACCOUNT] {
            if ext_at(sd, t).is_some() {
                return fail(kind);
            }
        }
    }
    ok.push(fok);
    if let Some(sf) = stated_fee {
        ok.push(eq(sf, f));
    }
    ok.push(bytes_eq(&sd[A_MINT..A_MINT + 32], &dd[A_MINT..A_MINT + 32]));
    if p == Prog::T22 {
        if ext_at(sd, ext::NON_TRANSFERABLE_ACCOUNT).is_some() {
            return fail(kind);
        }
        let guard = bool_ext(sd, ext::CPI_GUARD);
        ok.push(not(and(guard, key_eq(&rdkey(sd, A_OWNER), &auth.key))));
        // no memo precedes the transfer inside this program
        ok.push(not(bool_ext(dd, ext::MEMO_TRANSFER)));
    }
    let mut sn = (**sd).clone();
    ok.push(spend_auth(p, src.st, mint.as_ref().map(|m| m.0.st), auth, signers, amount, k1(same), &mut sn));
    if same {
        return Effect { ok: all(&ok), new: vec![], kind };
    }
    let mut dn = (**dd).clone();
    set64(&mut sn, A_AMOUNT, sub(u64at(sd, A_AMOUNT), amount));
    let credit = sub(amount, f);
    let da = u64at(dd, A_AMOUNT);
    let total = add(da, credit);
    ok.push(ule(da, total));
    ok.push(ule(f, amount));
    set64(&mut dn, A_AMOUNT, total);
    if p == Prog::T22 && !is_true(eq(f, k64(0))) {
        match ext_at(dd, ext::TRANSFER_FEE_AMOUNT) {
            Some(o) => {
                let w = u64at(dd, o);
                let nw = add(w, f);
                ok.push(ule(w, nw));
                set64(&mut dn, o, nw);
            }
            None => ok.push(eq(f, k64(0))),
        }
    }
    if let (Prog::T22, Some(o)) = (p, ext_at(dd, ext::CONFIDENTIAL_ACCOUNT)) {
        // whether the account takes transfers that are not confidential
        ok.push(not(eq(dd[o + CONF_CREDITS], k8(0))));
    }
    let native = opt_some(sd, A_NATIVE);
    let sl = ite(native, sub(src.st.lamports, amount), src.st.lamports);
    let dl = ite(native, add(dst.st.lamports, amount), dst.st.lamports);
    ok.push(implies(native, ule(amount, src.st.lamports)));
    if p == Prog::T22 {
        if let Some((m, _)) = &mint {
            if let Some(o) = ext_at(&m.st.data, ext::HOOK) {
                ok.push(implies(nonzero_key(&m.st.data, o + 32), hook_ok));
            }
        }
    }
    let mut s2 = src.st.clone();
    s2.data = std::rc::Rc::new(sn);
    s2.lamports = sl;
    let mut d2 = dst.st.clone();
    d2.data = std::rc::Rc::new(dn);
    d2.lamports = dl;
    Effect { ok: all(&ok), new: vec![(src.idx, s2), (dst.idx, d2)], kind }
}

pub fn mint_to(p: Prog, mint: &View, dst: &View, auth: &View, signers: &[View], amount: E, decimals: Option<E>) -> Effect {
    let kind = "mint_to".to_string();
    let fail = |kind: String| Effect { ok: fls(), new: vec![], kind };
    let own = |a: &View| key_eq(&a.st.owner, &pid(p));
    let (md, dd) = (&mint.st.data, &dst.st.data);
    if mint.idx == dst.idx {
        return fail(kind);
    }
    let (mok, aok) = (mint_ok(p, md), account_ok(p, dd));
    if is_false(mok) || is_false(aok) {
        return fail(kind);
    }
    let mut ok = vec![own(mint), own(dst), mint.writable, dst.writable, mok, aok];
    ok.push(not(eq(dd[A_STATE], k8(2))));
    ok.push(not(opt_some(dd, A_NATIVE)));
    ok.push(bytes_eq(&mint.key, &dd[A_MINT..A_MINT + 32]));
    if p == Prog::T22 {
        if ext_at(md, ext::NON_TRANSFERABLE).is_some()
            && (ext_at(dd, ext::IMMUTABLE_OWNER).is_none() || ext_at(dd, ext::NON_TRANSFERABLE_ACCOUNT).is_none())
        {
            return fail(kind);
        }
        if let Some(o) = ext_at(md, ext::PAUSABLE) {
            ok.push(eq(md[o + 32], k8(0)));
        }
    }
    if let Some(dec) = decimals {
        ok.push(eq(md[M_DECIMALS], dec));
    }
    ok.push(opt_some(md, M_AUTH));
    ok.push(owner_ok(p, &rdkey(md, M_AUTH + 4), auth, signers));
    let (a, s) = (u64at(dd, A_AMOUNT), u64at(md, M_SUPPLY));
    let (na, ns) = (add(a, amount), add(s, amount));
    ok.push(ule(a, na));
    ok.push(ule(s, ns));
    let (mut mn, mut dn) = ((**md).clone(), (**dd).clone());
    set64(&mut mn, M_SUPPLY, ns);
    set64(&mut dn, A_AMOUNT, na);
    let (mut m2, mut d2) = (mint.st.clone(), dst.st.clone());
    m2.data = std::rc::Rc::new(mn);
    d2.data = std::rc::Rc::new(dn);
    Effect { ok: all(&ok), new: vec![(mint.idx, m2), (dst.idx, d2)], kind }
}

pub fn burn(p: Prog, src: &View, mint: &View, auth: &View, signers: &[View], amount: E, decimals: Option<E>) -> Effect {
    let kind = "burn".to_string();
    let fail = |kind: String| Effect { ok: fls(), new: vec![], kind };
    let own = |a: &View| key_eq(&a.st.owner, &pid(p));
    let (md, sd) = (&mint.st.data, &src.st.data);
    if mint.idx == src.idx {
        return fail(kind);
    }
    let (mok, aok) = (mint_ok(p, md), account_ok(p, sd));
    if is_false(mok) || is_false(aok) {
        return fail(kind);
    }
    let mut ok = vec![own(mint), own(src), mint.writable, src.writable, mok, aok];
    ok.push(not(eq(sd[A_STATE], k8(2))));
    ok.push(not(opt_some(sd, A_NATIVE)));
    ok.push(ule(amount, u64at(sd, A_AMOUNT)));
    ok.push(bytes_eq(&mint.key, &sd[A_MINT..A_MINT + 32]));
    if let Some(dec) = decimals {
        ok.push(eq(md[M_DECIMALS], dec));
    }
    if p == Prog::T22 {
        if let Some(o) = ext_at(md, ext::PAUSABLE) {
            ok.push(eq(md[o + 32], k8(0)));
        }
        let guard = bool_ext(sd, ext::CPI_GUARD);
        ok.push(not(and(guard, key_eq(&rdkey(sd, A_OWNER), &auth.key))));
    }
    let mut sn = (**sd).clone();
    let owner = rdkey(sd, A_OWNER);
    let free = or(key_eq(&owner, &kk(ids::system())), key_eq(&owner, &kk(ids::incinerator())));
    let sp = spend_auth(p, src.st, Some(mint.st), auth, signers, amount, free, &mut sn);
    ok.push(or(free, sp));
    set64(&mut sn, A_AMOUNT, sub(u64at(sd, A_AMOUNT), amount));
    let s = u64at(md, M_SUPPLY);
    ok.push(ule(amount, s));
    let mut mn = (**md).clone();
    set64(&mut mn, M_SUPPLY, sub(s, amount));
    let (mut m2, mut s2) = (mint.st.clone(), src.st.clone());
    m2.data = std::rc::Rc::new(mn);
    s2.data = std::rc::Rc::new(sn);
    Effect { ok: all(&ok), new: vec![(mint.idx, m2), (src.idx, s2)], kind }
}

pub fn close_account(p: Prog, src: &View, dst: &View, auth: &View, signers: &[View]) -> Effect {
    let kind = "close_account".to_string();
    let fail = |kind: String| Effect { ok: fls(), new: vec![], kind };
    if src.idx == dst.idx {
        return fail(kind);
    }
    let d = &src.st.data;
    let aok = account_ok(p, d);
    if is_false(aok) {
        return fail(kind);
    }
    let own = key_eq(&src.st.owner, &pid(p));
    let mut ok = vec![own, src.writable, dst.writable, aok];
    ok.push(or(opt_some(d, A_NATIVE), eq(u64at(d, A_AMOUNT), k64(0))));
    let has_close = opt_some(d, A_CLOSE);
    let (ck, ow) = (rdkey(d, A_CLOSE + 4), rdkey(d, A_OWNER));
    let mut auth_key = [NONE; 32];
    for i in 0..32 {
        auth_key[i] = ite(has_close, ck[i], ow[i]);
    }
    let free = or(key_eq(&ow, &kk(ids::system())), key_eq(&ow, &kk(ids::incinerator())));
    ok.push(ite(free, key_eq(&dst.key, &kk(ids::incinerator())), owner_ok(p, &auth_key, auth, signers)));
    if p == Prog::T22 {
        let guard = bool_ext(d, ext::CPI_GUARD);
        ok.push(not(all(&[guard, not(free), not(key_eq(&dst.key, &ow))])));
        if let Some(o) = ext_at(d, ext::TRANSFER_FEE_AMOUNT) {
            ok.push(eq(u64at(d, o), k64(0)));
        }
    }
    let total = add(dst.st.lamports, src.st.lamports);
    ok.push(ule(dst.st.lamports, total));
    let mut s2 = src.st.clone();
    s2.lamports = k64(0);
    s2.owner = kk(ids::system());
    s2.data = std::rc::Rc::new(vec![]);
    let mut d2 = dst.st.clone();
    d2.lamports = total;
    Effect { ok: all(&ok), new: vec![(src.idx, s2), (dst.idx, d2)], kind }
}

fn one(a: &View, data: Vec<E>, ok: Vec<E>, kind: &str) -> Effect {
    let mut n = a.st.clone();
    n.data = std::rc::Rc::new(data);
    Effect { ok: all(&ok), new: vec![(a.idx, n)], kind: kind.to_string() }
}
/// an optional key: written, or cleared
fn put_opt(p: Prog, d: &mut [E], o: usize, some: E, k: &[E]) {
    put(d, o, &to_bytes(zext(32, some)));
    for i in 0..32 {
        let gone = if p == Prog::T22 { k8(0) } else { d[o + 4 + i] };
        d[o + 4 + i] = ite(some, k[i], gone);
    }
}

/// SetAuthority on an account or a mint; None: a kind of authority the model does not know
pub fn set_authority(p: Prog, a: &View, auth: &View, signers: &[View], what: u8, some: E, k: &[E]) -> Option<Effect> {
    let kind = "set_authority";
    let refuse = Some(Effect { ok: fls(), new: vec![], kind: kind.into() });
    let d = &a.st.data;
    let mut ok = vec![key_eq(&a.st.owner, &pid(p)), a.writable];
    let mut n = (**d).clone();
    let aok = account_ok(p, d);
    let mok = mint_ok(p, d);
    if !is_false(aok) {
        ok.push(aok);
        ok.push(not(eq(d[A_STATE], k8(2))));
        let owner = rdkey(d, A_OWNER);
        let guard = if p == Prog::T22 { bool_ext(d, ext::CPI_GUARD) } else { fls() };
        match what {
            2 => {
                ok.push(owner_ok(p, &owner, auth, signers));
                ok.push(some);
                ok.push(not(guard));
                if p == Prog::T22 && ext_at(d, ext::IMMUTABLE_OWNER).is_some() {
                    return refuse;
                }
                put(&mut n, A_OWNER, k);
                put_opt(p, &mut n, A_DELEGATE, fls(), &zeros(32));
                set64(&mut n, A_DELEGATED, k64(0));
                let keep = all(&[opt_some(d, A_CLOSE), not(opt_some(d, A_NATIVE))]);
                let c = rdkey(d, A_CLOSE + 4);
                put_opt(p, &mut n, A_CLOSE, keep, &c);
            }
            3 => {
                let has = opt_some(d, A_CLOSE);
                let c = rdkey(d, A_CLOSE + 4);
                let mut who = [NONE; 32];
                for i in 0..32 {
                    who[i] = ite(has, c[i], owner[i]);
                }
                ok.push(owner_ok(p, &who, auth, signers));
                ok.push(not(and(guard, some)));
                put_opt(p, &mut n, A_CLOSE, some, k);
            }
            _ => return refuse,
        }
    } else if !is_false(mok) {
        ok.push(mok);
        let at = match what {
            0 => Some(M_AUTH),
            1 => Some(M_FREEZE),
            _ => None,
        };
        if let Some(o) = at {
            ok.push(opt_some(d, o));
            ok.push(owner_ok(p, &rdkey(d, o + 4), auth, signers));
            put_opt(p, &mut n, o, some, k);
        } else {
            let (t, off) = match what {
                _ if p == Prog::Spl => return refuse,
                4 => (ext::TRANSFER_FEE_CONFIG, 0),
                5 => (ext::TRANSFER_FEE_CONFIG, 32),
                6 => (ext::MINT_CLOSE_AUTHORITY, 0),
                8 => (ext::PERMANENT_DELEGATE, 0),
                9 => (ext::CONFIDENTIAL_MINT, 0),
                10 => (ext::HOOK, 0),
                12 => (ext::METADATA_POINTER, 0),
                16 => (ext::PAUSABLE, 0),
                _ => return None,
            };
            let Some(o) = ext_at(d, t) else { return refuse };
            ok.push(nonzero_key(d, o + off));
            ok.push(owner_ok(p, &rdkey(d, o + off), auth, signers));
            for i in 0..32 {
                n[o + off + i] = ite(some, k[i], k8(0));
            }
        }
    } else {
        return refuse;
    }
    Some(one(a, n, ok, kind))
}

/// Approve, ApproveChecked
pub fn approve(p: Prog, a: &View, mint: Option<(&View, E)>, delegate: &Key, auth: &View, signers: &[View], amount: E) -> Effect {
    let d = &a.st.data;
    let aok = account_ok(p, d);
    if is_false(aok) {
        return Effect { ok: fls(), new: vec![], kind: "approve".into() };
    }
    let mut ok = vec![key_eq(&a.st.owner, &pid(p)), a.writable, aok, not(eq(d[A_STATE], k8(2)))];
    ok.push(owner_ok(p, &rdkey(d, A_OWNER), auth, signers));
    if p == Prog::T22 {
        ok.push(not(bool_ext(d, ext::CPI_GUARD)));
    }
    if let Some((m, dec)) = mint {
        ok.push(bytes_eq(&d[A_MINT..A_MINT + 32], &m.key));
        if m.st.data.len() >= 82 {
            ok.push(mint_ok(p, &m.st.data));
            ok.push(eq(m.st.data[M_DECIMALS], dec));
        } else {
            ok.push(fls());
        }
    }
    let mut n = (**d).clone();
    put_opt(p, &mut n, A_DELEGATE, tru(), delegate);
    set64(&mut n, A_DELEGATED, amount);
    one(a, n, ok, "approve")
}
pub fn revoke(p: Prog, a: &View, auth: &View, signers: &[View]) -> Effect {
    let d = &a.st.data;
    let aok = account_ok(p, d);
    if is_false(aok) {
        return Effect { ok: fls(), new: vec![], kind: "revoke".into() };
    }
    let mut ok = vec![key_eq(&a.st.owner, &pid(p)), a.writable, aok, not(eq(d[A_STATE], k8(2)))];
    let (ow, de) = (rdkey(d, A_OWNER), rdkey(d, A_DELEGATE + 4));
    let by_delegate = if p == Prog::T22 { and(opt_some(d, A_DELEGATE), key_eq(&de, &auth.key)) } else { fls() };
    let mut who = ow;
    for i in 0..32 {
        who[i] = ite(by_delegate, de[i], ow[i]);
    }
    ok.push(owner_ok(p, &who, auth, signers));
    let mut n = (**d).clone();
    put_opt(p, &mut n, A_DELEGATE, fls(), &zeros(32));
    set64(&mut n, A_DELEGATED, k64(0));
    one(a, n, ok, "revoke")
}
/// FreezeAccount, ThawAccount
pub fn freeze(p: Prog, a: &View, mint: &View, auth: &View, signers: &[View], on: bool) -> Effect {
    let (d, m) = (&a.st.data, &mint.st.data);
    let (aok, mok) = (account_ok(p, d), mint_ok(p, m));
    if is_false(aok) || is_false(mok) {
        return Effect { ok: fls(), new: vec![], kind: "freeze".into() };
    }
    let ok = vec![
        key_eq(&a.st.owner, &pid(p)),
        key_eq(&mint.st.owner, &pid(p)),
        a.writable,
        aok,
        mok,
        eq(d[A_STATE], k8(if on { 1 } else { 2 })),
        not(opt_some(d, A_NATIVE)),
        bytes_eq(&d[A_MINT..A_MINT + 32], &mint.key),
        opt_some(m, M_FREEZE),
        owner_ok(p, &rdkey(m, M_FREEZE + 4), auth, signers),
    ];
    let mut n = (**d).clone();
    n[A_STATE] = k8(if on { 2 } else { 1 });
    one(a, n, ok, "freeze")
}
/// Pause, Resume
pub fn pause(mint: &View, auth: &View, signers: &[View], on: bool) -> Effect {
    let d = &mint.st.data;
    let mok = mint_ok(Prog::T22, d);
    let (false, Some(o)) = (is_false(mok), if is_false(mok) { None } else { ext_at(d, ext::PAUSABLE) }) else {
        return Effect { ok: fls(), new: vec![], kind: "pause".into() };
    };
    let ok = vec![key_eq(&mint.st.owner, &pid(Prog::T22)), mint.writable, mok, nonzero_key(d, o), owner_ok(Prog::T22, &rdkey(d, o), auth, signers)];
    let mut n = (**d).clone();
    n[o + 32] = k8(on as u8);
    one(mint, n, ok, "pause")
}

fn uninit_ok(d: &[E]) -> E {
    // uninitialized mint with room for extensions: everything is zero but the extensions
    if d.len() < 82 {
        return fls();
    }
    eq(d[M_INIT], k8(0))
}

/// extension initializers write one entry into an uninitialized mint
pub fn init_ext(mint: &View, t: u16, value: Vec<E>, extra_ok: E) -> Effect {
    let kind = format!("init_ext_{t}");
    let fail = |kind: String| Effect { ok: fls(), new: vec![], kind };
    let d = &mint.st.data;
    if d.len() <= 166 || d.len() == 355 {
        return fail(kind);
    }
    let es = match tlv(d) {
        Some(v) => v,
        None => return fail(kind),
    };
    if es.iter().any(|e| e.0 == t) {
        return fail(kind);
    }
    let at = es.last().map(|e| e.1 + e.2).unwrap_or(166);
    if at + 4 + value.len() > d.len() {
        return fail(kind);
    }
    let mut n = (**d).clone();
    put(&mut n, at, &to_bytes(konst(16, t as u128)));
    put(&mut n, at + 2, &to_bytes(konst(16, value.len() as u128)));
    put(&mut n, at + 4, &value);
    let ok = all(&[key_eq(&mint.st.owner, &pid(Prog::T22)), mint.writable, uninit_ok(d), extra_ok]);
    let mut m2 = mint.st.clone();
    m2.data = std::rc::Rc::new(n);
    Effect { ok, new: vec![(mint.idx, m2)], kind }
}

pub fn initialize_mint(p: Prog, mint: &View, decimals: E, auth: &[E], freeze_some: E, freeze: &[E]) -> Effect {
    let kind = "initialize_mint".to_string();
    let fail = |kind: String| Effect { ok: fls(), new: vec![], kind };
    let d = &mint.st.data;
    let mut n = (**d).clone();
    let mut ok = vec![key_eq(&mint.st.owner, &pid(p)), mint.writable];
    match p {
        Prog::Spl => {
            if d.len() != 82 {
                return fail(kind);
            }
        }
        Prog::T22 => {
            if d.len() != 82 {
                if d.len() <= 166 {
                    return fail(kind);
                }
                let es = match tlv(d) {
                    Some(v) => v,
                    None => return fail(kind),
                };
                let mut want = 166 + es.iter().map(|e| 4 + e.2).sum::<usize>();
                if es.is_empty() {
                    want = 82;
                }
                if want == 355 {
                    want += 4;
                }
                if want != d.len() {
                    return fail(kind);
                }
                if let Some(o) = ext_at(d, ext::DEFAULT_STATE) {
                    ok.push(implies(eq(d[o], k8(2)), freeze_some));
                }
                n[165] = k8(1);
            }
        }
    }
    ok.push(uninit_ok(d));
    // rent exemption
    let min = (128 + d.len() as u64) * 3480 * 2;
    ok.push(ule(k64(min), mint.st.lamports));
    put(&mut n, M_AUTH, &to_bytes(konst(32, 1)));
    put(&mut n, M_AUTH + 4, auth);
    n[M_DECIMALS] = decimals;
    n[M_INIT] = k8(1);
    put(&mut n, M_FREEZE, &to_bytes(zext(32, freeze_some)));
    for i in 0..32 {
        n[M_FREEZE + 4 + i] = ite(freeze_some, freeze[i], k8(0));
    }
    let mut m2 = mint.st.clone();
    m2.data = std::rc::Rc::new(n);
    Effect { ok: all(&ok), new: vec![(mint.idx, m2)], kind }
}
