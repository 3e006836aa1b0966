//! Scenarios: symbolic transactions for one instruction of the program.
use crate::expr::*;
use crate::tok::*;
use crate::vm::*;
use crate::world::*;
use std::collections::BTreeSet;
use std::rc::Rc;

/// what the assertions need to know about a scenario
#[derive(Clone)]
pub struct Meta {
    pub name: String,
    pub kind: &'static str,
    /// role -> account index
    pub roles: Vec<(String, usize)>,
    pub up: Prog,
    pub wp: Prog,
    pub amount: E,
    /// every run is expected to succeed
    pub live: bool,
    /// no run may succeed
    pub must_fail: bool,
    pub flags: BTreeSet<String>,
    pub multisig: Option<usize>,
    pub extras: usize,
    pub hook: Option<Hook>,
    pub md: Option<crate::meta::Md>,
}
#[derive(Clone)]
pub struct Hook {
    pub program: usize,
    pub validation: usize,
    pub extra: Vec<(usize, bool, bool)>, // account, signer, writable
}
impl Meta {
    pub fn r(&self, n: &str) -> usize {
        self.roles.iter().find(|x| x.0 == n).unwrap_or_else(|| panic!("role {n}")).1
    }
    pub fn has(&self, n: &str) -> bool {
        self.roles.iter().any(|x| x.0 == n)
    }
    pub fn flag(&self, n: &str) -> bool {
        self.flags.contains(n)
    }
}
pub struct Scn {
    pub world: World,
    pub meta: Meta,
}

/// contents left behind by a token program are well formed
pub fn wf_account(w: &mut World, i: usize) {
    let a = &w.accts[i].st;
    let own = or(key_eq(&a.owner, &kk(ids::spl())), key_eq(&a.owner, &kk(ids::t22())));
    let c = implies(own, account_wf(&a.data));
    w.assume(c);
    let a = &w.accts[i].st;
    if a.data.len() != 165 {
        let c = not(key_eq(&a.owner, &kk(ids::spl())));
        w.assume(c);
    }
}
pub fn wf_mint(w: &mut World, i: usize) {
    let a = &w.accts[i].st;
    let own = or(key_eq(&a.owner, &kk(ids::spl())), key_eq(&a.owner, &kk(ids::t22())));
    let c = implies(own, mint_wf(&a.data));
    w.assume(c);
    let a = &w.accts[i].st;
    if a.data.len() != 82 {
        let c = not(key_eq(&a.owner, &kk(ids::spl())));
        w.assume(c);
    }
}

/// account extensions the token program adds for the mint extensions
pub fn account_exts_for(mint: &[u16]) -> Vec<u16> {
    let mut v = vec![];
    for t in mint {
        let x = match *t {
            ext::TRANSFER_FEE_CONFIG => ext::TRANSFER_FEE_AMOUNT,
            ext::NON_TRANSFERABLE => ext::NON_TRANSFERABLE_ACCOUNT,
            ext::HOOK => ext::HOOK_ACCOUNT,
            ext::PAUSABLE => ext::PAUSABLE_ACCOUNT,
            _ => continue,
        };
        v.push(x);
    }
    v
}

pub struct B {
    pub w: World,
    pub roles: Vec<(String, usize)>,
    pub alias: Vec<(String, String)>,
    pub flags: BTreeSet<String>,
    /// addresses are the documented ones
    pub canon: bool,
}
impl B {
    pub fn new(name: &str) -> B {
        B { w: World::new(name), roles: vec![], alias: vec![], flags: Default::default(), canon: false }
    }
    pub fn pda(&mut self, cat: Vec<E>, program: Key) -> Key {
        let n = self.w.pdas.len() as u64;
        for p in &self.w.pdas {
            if *p.cat == cat && p.program == program {
                return key_const(&p.tag);
            }
        }
        let tag = crate::sys::tag_bytes(1_000_000 + n);
        self.w.pdas.push(PdaEntry { cat: Rc::new(cat), program, tag, bump: v8(&format!("pdabump{n}")) });
        key_const(&tag)
    }
    pub fn slot(&mut self, role: &str, f: impl FnOnce(&mut B) -> usize) -> usize {
        let t = self.alias.iter().find(|a| a.0 == role).map(|a| a.1.clone());
        let i = match t {
            Some(t) if self.roles.iter().any(|r| r.0 == t) => {
                let i = self.roles.iter().find(|r| r.0 == t).unwrap().1;
                self.w.dup(i);
                i
            }
            _ => f(self),
        };
        self.roles.push((role.into(), i));
        i
    }
    pub fn r(&self, n: &str) -> usize {
        self.roles.iter().find(|x| x.0 == n).unwrap_or_else(|| panic!("role {n}")).1
    }
    fn lam(n: &str) -> E {
        v64(&format!("{n}.lamports"))
    }
    /// an account anywhere, owned by anyone, holding these bytes
    pub fn data_at(&mut self, n: &str, key: Option<Key>, data: Vec<E>) -> usize {
        self.slot(n, |b| {
            let k = key.unwrap_or_else(|| vkey(&format!("{n}.key")));
            b.w.add(n, k, vkey(&format!("{n}.program")), Self::lam(n), data)
        })
    }
    pub fn token(&mut self, n: &str, key: Option<Key>, exts: &[u16]) -> usize {
        let i = self.data_at(n, key, account_data(n, exts));
        if self.w.accts[i].name == n {
            wf_account(&mut self.w, i);
        }
        i
    }
    pub fn mint(&mut self, n: &str, key: Option<Key>, exts: &[u16]) -> usize {
        let i = self.data_at(n, key, mint_data(n, exts));
        if self.w.accts[i].name == n {
            wf_mint(&mut self.w, i);
        }
        i
    }
    pub fn wallet(&mut self, n: &str, key: Option<Key>) -> usize {
        self.data_at(n, key, vec![])
    }
    pub fn program(&mut self, n: &str, id: [u8; 32]) -> usize {
        self.slot(n, |b| b.w.add_program(n, id))
    }
    /// a program nobody vouches for
    pub fn fake_program(&mut self, n: &str) -> usize {
        self.slot(n, |b| {
            let k = vkey(&format!("{n}.key"));
            let i = b.w.add(n, k, kk(ids::loader()), k64(1_000_000_000), vec![]);
            b.w.accts[i].exec = true;
            b.w.accts[i].signer = fls();
            b.w.accts[i].writable = fls();
            for id in [ids::spl(), ids::t22(), ids::ata(), ids::mpl(), ids::system(), ids::wrap()] {
                b.w.assume(not(key_eq(&k, &kk(id))));
            }
            i
        })
    }
    pub fn assume(&mut self, e: E) {
        self.w.assume(e);
    }
    pub fn key(&self, n: &str) -> Key {
        self.w.accts[self.r(n)].key
    }
    pub fn d(&self, n: &str) -> Rc<Vec<E>> {
        self.w.accts[self.r(n)].st.data.clone()
    }
    pub fn owned(&mut self, n: &str, p: [u8; 32]) {
        let i = self.r(n);
        let c = key_eq(&self.w.accts[i].st.owner, &kk(p));
        self.w.assume(c);
    }
    /// fix the owning program (no constraint needed)
    pub fn set_owner(&mut self, n: &str, p: [u8; 32]) {
        let i = self.r(n);
        self.w.accts[i].st.owner = kk(p);
    }
    pub fn signs(&mut self, n: &str, yes: bool) {
        let i = self.r(n);
        self.w.accts[i].signer = k1(yes);
    }
    pub fn writes(&mut self, n: &str) {
        let i = self.r(n);
        self.w.accts[i].writable = tru();
    }
    pub fn keyat(&mut self, n: &str, off: usize, k: Key) {
        let d = self.d(n);
        let c = bytes_eq(&d[off..off + 32], &k);
        self.assume(c);
    }
    pub fn wrapped_mint_key(&mut self, umint: &Key, wp: [u8; 32]) -> Key {
        let mut c = cbytes(b"mint");
        c.extend(umint);
        c.extend(kk(wp));
        self.pda(c, kk(ids::wrap()))
    }
    pub fn authority_key(&mut self, wmint: &Key) -> Key {
        let mut c = cbytes(b"authority");
        c.extend(wmint);
        self.pda(c, kk(ids::wrap()))
    }
    pub fn backpointer_key(&mut self, wmint: &Key) -> Key {
        let mut c = cbytes(b"backpointer");
        c.extend(wmint);
        self.pda(c, kk(ids::wrap()))
    }
    pub fn pointer_key(&mut self, umint: &Key) -> Key {
        let mut c = cbytes(b"canonical_pointer");
        c.extend(umint);
        self.pda(c, kk(ids::wrap()))
    }
    pub fn ata_key(&mut self, owner: &Key, prog: [u8; 32], mint: &Key) -> Key {
        let mut c = owner.to_vec();
        c.extend(kk(prog));
        c.extend(mint);
        self.pda(c, kk(ids::ata()))
    }
    pub fn mpl_key(&mut self, mint: &Key) -> Key {
        let mut c = cbytes(b"metadata");
        c.extend(kk(ids::mpl()));
        c.extend(mint);
        self.pda(c, kk(ids::mpl()))
    }
    pub fn done(mut self, kind: &'static str, up: Prog, wp: Prog, amount: E) -> Scn {
        self.w.finish();
        Scn {
            meta: Meta {
                name: self.w.name.clone(),
                kind,
                roles: self.roles,
                up,
                wp,
                amount,
                live: false,
                must_fail: false,
                flags: self.flags,
                multisig: None,
                extras: 0,
                hook: None,
                md: None,
            },
            world: self.w,
        }
    }
}

#[derive(Clone)]
pub struct Opt {
    pub up: Prog,
    pub wp: Prog,
    pub mint_exts: Vec<u16>,
    pub user_exts: Vec<u16>,
    pub escrow_exts: Vec<u16>,
    pub wmint_exts: Vec<u16>,
    pub wacct_exts: Vec<u16>,
    pub multisig: Option<usize>,
    /// the places in the multisignature account the listed members have, by default one each
    pub members: Vec<usize>,
    pub extras: usize,
    pub alias: Vec<(&'static str, &'static str)>,
    pub live: bool,
    /// documented addresses assumed
    pub canon: bool,
    /// who spends the user's tokens in a live run
    pub delegate: bool,
    pub fake: Option<&'static str>,
    pub hook: bool,
    /// extra accounts the hook asks for
    pub hook_n: usize,
    /// number of accounts left off the end
    pub cut: usize,
}
pub const WDEF: [u16; 2] = [ext::CONFIDENTIAL_MINT, ext::METADATA_POINTER];
impl Opt {
    pub fn new(up: Prog, wp: Prog, mint_exts: &[u16]) -> Opt {
        let mut a = account_exts_for(mint_exts);
        a.insert(0, ext::IMMUTABLE_OWNER);
        if up == Prog::Spl {
            a = vec![];
        }
        Opt {
            up,
            wp,
            mint_exts: mint_exts.to_vec(),
            user_exts: a.clone(),
            escrow_exts: a,
            wmint_exts: if wp == Prog::T22 { WDEF.to_vec() } else { vec![] },
            wacct_exts: if wp == Prog::T22 { vec![ext::IMMUTABLE_OWNER] } else { vec![] },
            multisig: None,
            members: vec![],
            extras: 0,
            alias: vec![],
            live: false,
            canon: false,
            delegate: false,
            fake: None,
            hook: false,
            hook_n: 2,
            cut: 0,
        }
    }
}

fn setup(o: &Opt, name: &str) -> (B, Option<Key>, Option<Key>, Option<Key>, Key) {
    let mut b = B::new(name);
    b.alias = o.alias.iter().map(|a| (a.0.to_string(), a.1.to_string())).collect();
    b.canon = o.canon || o.live;
    let um = vkey("unwrapped_mint.key");
    let (mut wm, mut au, mut es) = (None, None, None);
    if b.canon {
        let k = b.wrapped_mint_key(&um, o.wp.id());
        let a = b.authority_key(&k);
        let e = b.ata_key(&a, o.up.id(), &um);
        (wm, au, es) = (Some(k), Some(a), Some(e));
    }
    (b, wm, au, es, um)
}

fn holder(b: &mut B, o: &Opt) {
    match o.multisig {
        None => {
            b.wallet("holder", None);
        }
        Some(n) => {
            let mut d = multisig_data("holder", n);
            if n > 7 {
                // many members: fixed, different keys
                for i in 0..n {
                    d[3 + 32 * i..35 + 32 * i].copy_from_slice(&member_key(i));
                }
            }
            b.data_at("holder", None, d);
        }
    }
}
fn member_key(i: usize) -> Vec<E> {
    (0..32).map(|j| k8((i * 7 + j * 3 + 1) as u8)).collect()
}
fn extras(b: &mut B, o: &Opt) {
    for i in 0..o.extras {
        let n = format!("extra{i}");
        let at = if o.multisig.map_or(false, |m| m > 7) { Some(o.members.get(i).copied().unwrap_or(i)) } else { None };
        b.slot(&n.clone(), |b| {
            let mut k = vkey(&format!("{n}.key"));
            if let Some(at) = at {
                k.copy_from_slice(&member_key(at));
            }
            b.w.add(&n, k, vkey(&format!("{n}.program")), v64(&format!("{n}.lamports")), vec![])
        });
    }
}
/// a transfer hook program with its list of extra accounts: writable ones and read-only ones in turn
fn hook_accounts(b: &mut B, n: usize) -> Hook {
    let p = b.fake_program("hook_program");
    let um = b.key("unwrapped_mint");
    let pk = b.w.accts[p].key;
    // the mint names this program
    let d = b.d("unwrapped_mint");
    let o = ext_at(&d, ext::HOOK).expect("hook");
    b.assume(bytes_eq(&d[o + 32..o + 64], &pk));
    let mut cat = cbytes(b"extra-account-metas");
    cat.extend(um);
    let vk = b.pda(cat, pk);
    let es: Vec<usize> = (0..n).map(|i| b.wallet(&format!("hook_extra{i}"), None)).collect();
    // TLV: discriminator of Execute, length, list of extra metas
    let mut v = cbytes(&[105, 37, 101, 197, 75, 251, 102, 26]);
    v.extend(to_bytes(konst(32, 4 + 35 * n as u128)));
    v.extend(to_bytes(konst(32, n as u128)));
    for (i, e) in es.iter().enumerate() {
        v.push(k8(0));
        v.extend(b.w.accts[*e].key);
        v.push(k8(0));
        v.push(k8((i % 2 == 0) as u8));
        if i % 2 == 0 {
            b.writes(&format!("hook_extra{i}"));
        }
    }
    let vi = b.data_at("hook_validation", Some(vk), v);
    b.w.accts[vi].st.owner = pk;
    Hook { program: p, validation: vi, extra: es.iter().enumerate().map(|(i, e)| (*e, false, i % 2 == 0)).collect() }
}

/// the parts of a live state both directions share
fn live_common(b: &mut B, o: &Opt, amount: E) {
    let (um, wm, au) = (b.key("unwrapped_mint"), b.key("wrapped_mint"), b.key("authority"));
    for n in ["unwrapped_mint", "escrow"] {
        b.set_owner(n, o.up.id());
    }
    b.set_owner("wrapped_mint", o.wp.id());
    let d = b.d("unwrapped_mint");
    b.assume(mint_ok(o.up, &d));
    b.assume(mint_wf(&d));
    if let Some(p) = ext_at(&d, ext::PAUSABLE) {
        b.assume(eq(d[p + 32], k8(0)));
    }
    if ext_at(&d, ext::HOOK).is_some() {
        let h = b.w.hook_ok;
        b.assume(h);
        if !o.hook {
            let p = ext_at(&d, ext::HOOK).unwrap();
            b.assume(bytes_eq(&d[p + 32..p + 64], &zeros(32)));
        }
    }
    let d = b.d("wrapped_mint");
    b.assume(mint_ok(o.wp, &d));
    b.assume(mint_wf(&d));
    b.assume(opt_some(&d, M_AUTH));
    b.keyat("wrapped_mint", M_AUTH + 4, au);
    let d = b.d("escrow");
    b.assume(account_ok(o.up, &d));
    b.assume(account_wf(&d));
    b.assume(eq(d[A_STATE], k8(1)));
    b.keyat("escrow", A_MINT, um);
    b.keyat("escrow", A_OWNER, au);
    if ext_at(&d, ext::MEMO_TRANSFER).is_some() {
        b.assume(not(eq(d[ext_at(&d, ext::MEMO_TRANSFER).unwrap()], k8(1))));
    }
    let _ = wm;
    b.assume(not(eq(amount, k64(0))));
    for n in ["escrow", "wrapped_mint"] {
        b.writes(n);
    }
    b.signs("authority", false);
}
pub fn no_overflow(b: &mut B, x: E, y: E) {
    b.assume(ule(x, add(x, y)));
}
pub fn no_flag(b: &mut B, n: &str, t: u16) {
    let d = b.d(n);
    if let Some(o) = ext_at(&d, t) {
        b.assume(eq(d[o], k8(0)));
    }
}
/// the spender of a token account in a live run
fn live_spender(b: &mut B, o: &Opt, n: &str, amount: E, p: Prog) {
    let k = b.key("holder");
    let d = b.d(n);
    if o.delegate {
        b.assume(opt_some(&d, A_DELEGATE));
        b.keyat(n, A_DELEGATE + 4, k);
        b.assume(ule(amount, u64at(&d, A_DELEGATED)));
        // a delegate, not the owner
        b.assume(not(bytes_eq(&d[A_OWNER..A_OWNER + 32], &k)));
    } else {
        b.keyat(n, A_OWNER, k);
        // an owner is not limited by an allowance in its own name
        let c = implies(
            and(opt_some(&d, A_DELEGATE), bytes_eq(&d[A_DELEGATE + 4..A_DELEGATE + 36], &k)),
            ule(amount, u64at(&d, A_DELEGATED)),
        );
        b.assume(c);
    }
    match o.multisig {
        None => b.signs("holder", true),
        Some(m) => {
            // every listed member is one and signs, and there are as many as it takes
            b.set_owner("holder", p.id());
            let d = b.d("holder");
            let places = if o.members.is_empty() { (0..m).collect() } else { o.members.clone() };
            for (i, at) in places.iter().enumerate() {
                let k = b.key(&format!("extra{i}"));
                b.keyat("holder", 3 + 32 * at, k);
                b.signs(&format!("extra{i}"), true);
            }
            b.assume(ule(k8(1), d[0]));
            b.assume(ule(d[0], k8(places.len() as u8)));
        }
    }
}

pub fn wrap(o: &Opt, name: &str) -> Scn {
    let (mut b, wm, au, es, um) = setup(o, name);
    let amount = v64("amount");
    b.w.ix = vec![k8(1)];
    b.w.ix.extend(to_bytes(amount));
    b.token("recipient", None, &o.wacct_exts);
    b.mint("wrapped_mint", wm, &o.wmint_exts);
    b.wallet("authority", au);
    match o.fake {
        Some("unwrapped_program") => b.fake_program("unwrapped_program"),
        _ => b.program("unwrapped_program", o.up.id()),
    };
    match o.fake {
        Some("wrapped_program") => b.fake_program("wrapped_program"),
        _ => b.program("wrapped_program", o.wp.id()),
    };
    b.token("user", None, &o.user_exts);
    b.mint("unwrapped_mint", Some(um), &o.mint_exts);
    b.token("escrow", es, &o.escrow_exts);
    holder(&mut b, o);
    extras(&mut b, o);
    let hook = if o.hook { Some(hook_accounts(&mut b, o.hook_n)) } else { None };
    b.w.hook_req = hook.clone();
    if o.live {
        live_common(&mut b, o, amount);
        b.set_owner("user", o.up.id());
        b.set_owner("recipient", o.wp.id());
        let (umk, wmk) = (b.key("unwrapped_mint"), b.key("wrapped_mint"));
        b.keyat("user", A_MINT, umk);
        b.keyat("recipient", A_MINT, wmk);
        for (n, p) in [("user", o.up), ("recipient", o.wp)] {
            let d = b.d(n);
            b.assume(account_ok(p, &d));
            b.assume(account_wf(&d));
            b.assume(eq(d[A_STATE], k8(1)));
            b.writes(n);
        }
        let (u, r, e, m) = (b.d("user"), b.d("recipient"), b.d("escrow"), b.d("wrapped_mint"));
        b.assume(ule(amount, u64at(&u, A_AMOUNT)));
        b.assume(not(opt_some(&r, A_NATIVE)));
        // a native account holds the lamports it stands for
        b.assume(eq(opt_some(&u, A_NATIVE), opt_some(&e, A_NATIVE)));
        let lam = b.w.accts[b.r("user")].st.lamports;
        b.assume(implies(opt_some(&u, A_NATIVE), ule(amount, lam)));
        no_overflow(&mut b, u64at(&r, A_AMOUNT), amount);
        no_overflow(&mut b, u64at(&e, A_AMOUNT), amount);
        no_overflow(&mut b, u64at(&m, M_SUPPLY), amount);
        if let Some(x) = ext_at(&e, ext::TRANSFER_FEE_AMOUNT) {
            no_overflow(&mut b, u64at(&e, x), amount);
        }
        no_flag(&mut b, "user", ext::CPI_GUARD);
        live_spender(&mut b, o, "user", amount, o.up);
    }
    cut(&mut b, o.cut);
    let mut s = b.done("wrap", o.up, o.wp, amount);
    s.meta.live = o.live;
    s.meta.must_fail = o.fake.is_some() || o.cut > 0;
    s.meta.multisig = o.multisig;
    s.meta.extras = o.extras;
    s.meta.hook = hook;
    s
}

pub fn unwrap(o: &Opt, name: &str) -> Scn {
    let (mut b, wm, au, es, um) = setup(o, name);
    let amount = v64("amount");
    b.w.ix = vec![k8(2)];
    b.w.ix.extend(to_bytes(amount));
    b.token("escrow", es, &o.escrow_exts);
    b.token("recipient", None, &o.user_exts);
    b.wallet("authority", au);
    b.mint("unwrapped_mint", Some(um), &o.mint_exts);
    match o.fake {
        Some("wrapped_program") => b.fake_program("wrapped_program"),
        _ => b.program("wrapped_program", o.wp.id()),
    };
    match o.fake {
        Some("unwrapped_program") => b.fake_program("unwrapped_program"),
        _ => b.program("unwrapped_program", o.up.id()),
    };
    b.token("user", None, &o.wacct_exts);
    b.mint("wrapped_mint", wm, &o.wmint_exts);
    holder(&mut b, o);
    extras(&mut b, o);
    let hook = if o.hook { Some(hook_accounts(&mut b, o.hook_n)) } else { None };
    b.w.hook_req = hook.clone();
    if o.live {
        live_common(&mut b, o, amount);
        b.set_owner("recipient", o.up.id());
        b.set_owner("user", o.wp.id());
        let (umk, wmk) = (b.key("unwrapped_mint"), b.key("wrapped_mint"));
        b.keyat("recipient", A_MINT, umk);
        b.keyat("user", A_MINT, wmk);
        for (n, p) in [("user", o.wp), ("recipient", o.up)] {
            let d = b.d(n);
            b.assume(account_ok(p, &d));
            b.assume(account_wf(&d));
            b.assume(eq(d[A_STATE], k8(1)));
            b.writes(n);
        }
        let (u, r, e, m) = (b.d("user"), b.d("recipient"), b.d("escrow"), b.d("wrapped_mint"));
        b.assume(ule(amount, u64at(&u, A_AMOUNT)));
        b.assume(not(opt_some(&u, A_NATIVE)));
        // supply counts every holder; the escrow backs the supply
        b.assume(ule(u64at(&u, A_AMOUNT), u64at(&m, M_SUPPLY)));
        b.assume(ule(u64at(&m, M_SUPPLY), u64at(&e, A_AMOUNT)));
        b.assume(eq(opt_some(&r, A_NATIVE), opt_some(&e, A_NATIVE)));
        let lam = b.w.accts[b.r("escrow")].st.lamports;
        b.assume(implies(opt_some(&e, A_NATIVE), ule(amount, lam)));
        b.assume(not(opt_some(&e, A_DELEGATE)));
        no_overflow(&mut b, u64at(&r, A_AMOUNT), amount);
        if let Some(x) = ext_at(&r, ext::TRANSFER_FEE_AMOUNT) {
            no_overflow(&mut b, u64at(&r, x), amount);
        }
        no_flag(&mut b, "user", ext::CPI_GUARD);
        no_flag(&mut b, "recipient", ext::MEMO_TRANSFER);
        if let Some(x) = ext_at(&r, ext::CONFIDENTIAL_ACCOUNT) {
            b.assume(eq(r[x + CONF_CREDITS], k8(1)));
        }
        live_spender(&mut b, o, "user", amount, o.wp);
    }
    cut(&mut b, o.cut);
    let mut s = b.done("unwrap", o.up, o.wp, amount);
    s.meta.live = o.live;
    s.meta.must_fail = o.fake.is_some() || o.cut > 0;
    s.meta.multisig = o.multisig;
    s.meta.extras = o.extras;
    s.meta.hook = hook;
    s
}

/// leave accounts off the end of the instruction
pub fn cut(b: &mut B, n: usize) {
    for _ in 0..n {
        let i = b.w.slots.pop().unwrap();
        b.roles.pop();
        if !b.w.slots.contains(&i) {
            assert_eq!(i + 1, b.w.accts.len());
            b.w.accts.pop();
        }
    }
}

/// engine and initial machine state for a scenario
pub fn start(prog: Rc<Program>, world: World) -> Option<(Engine, State)> {
    use crate::mem::*;
    let mut e = Engine::new(prog, world);
    let model = match e.solver.check_all(&e.world.cons.clone()) {
        crate::solver::Res::Sat(m) => m,
        _ => return None,
    };
    let mut regs = [Val::C(0); 11];
    regs[1] = Val::C(INPUT);
    regs[10] = Val::C(STACK + FRAME);
    let mut st = State {
        regs,
        pc: e.prog.entry,
        frames: vec![],
        mem: Memory {
            ro: e.prog.ro.clone(),
            stack: Region::new(STACK, 64 * FRAME, true),
            heap: Region::new(HEAP, 32 * 1024, true),
            input: e.world.input_region(),
        },
        cons: vec![],
        known: Default::default(),
        model,
        pdas: Rc::new(e.world.pdas.clone()),
        cpis: Rc::new(vec![]),
        accts: Rc::new(e.world.accts.iter().map(|a| a.st.clone()).collect()),
        retdata: None,
        fresh: 0,
        steps: 0,
        notes: Rc::new(vec![]),
        poison: Rc::new(vec![]),
        clock_read: false,
    };
    for c in e.world.cons.clone() {
        e.add_con(&mut st, c);
    }
    Some((e, st))
}
