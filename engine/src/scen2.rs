//! Scenarios for the instructions other than wrap and unwrap.
use crate::expr::*;
use crate::scen::*;
use crate::tok::*;
use crate::vm::*;
use crate::world::*;

pub fn rent_min(len: usize) -> E {
    k64((128 + len as u64) * 3480 * 2)
}
pub fn space_of(p: Prog) -> usize {
    if p == Prog::T22 {
        // base, padding, account type, and the two extensions wrapped mints get
        166 + 4 + ext_len(ext::CONFIDENTIAL_MINT) + 4 + ext_len(ext::METADATA_POINTER)
    } else {
        82
    }
}

#[derive(Clone)]
pub struct CreateOpt {
    pub up: Prog,
    pub wp: Prog,
    pub mint_exts: Vec<u16>,
    /// what is already at the two addresses
    pub mint_there: bool,
    pub back_there: bool,
    pub live: bool,
    pub fake: bool,
    pub cut: usize,
    pub alias: Vec<(&'static str, &'static str)>,
    /// customization of wrapped mints (harness only)
    pub custom: u8,
}
impl CreateOpt {
    pub fn new(up: Prog, wp: Prog, exts: &[u16]) -> CreateOpt {
        CreateOpt { up, wp, mint_exts: exts.to_vec(), mint_there: false, back_there: false, live: false, fake: false, cut: 0, alias: vec![], custom: 0 }
    }
}

pub fn create(o: &CreateOpt, name: &str) -> Scn {
    let mut b = B::new(name);
    b.alias = o.alias.iter().map(|a| (a.0.to_string(), a.1.to_string())).collect();
    b.canon = o.live;
    let um = vkey("unwrapped_mint.key");
    let idem = v8("idempotent");
    b.w.ix = vec![k8(if o.custom == 0 { 0 } else { 2 + o.custom }), idem];
    let (mut wk, mut bk) = (None, None);
    if o.live {
        let k = b.wrapped_mint_key(&um, o.wp.id());
        bk = Some(b.backpointer_key(&k));
        wk = Some(k);
    }
    if o.mint_there {
        let e: Vec<u16> = if o.wp == Prog::T22 { WDEF.to_vec() } else { vec![] };
        b.mint("wrapped_mint", wk, &e);
    } else {
        b.wallet("wrapped_mint", wk);
    }
    if o.back_there {
        b.data_at("backpointer", bk, vbytes("backpointer.data", 32));
    } else {
        b.wallet("backpointer", bk);
    }
    b.mint("unwrapped_mint", Some(um), &o.mint_exts);
    b.program("system", ids::system());
    if o.fake {
        b.fake_program("wrapped_program");
    } else {
        b.program("wrapped_program", o.wp.id());
    }
    if o.live {
        b.set_owner("unwrapped_mint", o.up.id());
        let d = b.d("unwrapped_mint");
        b.assume(mint_ok(o.up, &d));
        b.assume(mint_wf(&d));
        b.assume(ule(idem, k8(1)));
        let sp = space_of(o.wp);
        if !o.mint_there && !o.back_there {
            // the customized layouts are no bigger than this
            let sp = if o.custom != 0 { sp.max(400) } else { sp };
            for (n, s) in [("wrapped_mint", sp), ("backpointer", 32)] {
                b.set_owner(n, ids::system());
                b.writes(n);
                let l = b.w.accts[b.r(n)].st.lamports;
                b.assume(ule(rent_min(s), l));
            }
        } else {
            b.assume(eq(idem, k8(1)));
            b.set_owner("wrapped_mint", o.wp.id());
            b.set_owner("backpointer", ids::wrap());
        }
    }
    cut(&mut b, o.cut);
    let mut s = b.done("create", o.up, o.wp, k64(0));
    s.meta.live = o.live;
    s.meta.must_fail = o.fake || o.cut > 0;
    if o.fake && o.mint_there {
        // an existing mint of an unknown program cannot be told from the documented ones here
        s.meta.must_fail = false;
    }
    if o.mint_there || o.back_there {
        s.meta.flags.insert("exists".into());
    }
    if o.custom != 0 {
        s.meta.flags.insert(format!("custom{}", o.custom));
        s.meta.flags.insert("live_any".into());
    }
    s
}

#[derive(Clone)]
pub struct CloseOpt {
    pub wp: Prog,
    pub mint_exts: Vec<u16>,
    pub escrow_exts: Vec<u16>,
    pub live: bool,
    pub cut: usize,
    pub alias: Vec<(&'static str, &'static str)>,
    pub fake: bool,
}
impl CloseOpt {
    pub fn new(wp: Prog, mint: &[u16], escrow: &[u16]) -> CloseOpt {
        CloseOpt { wp, mint_exts: mint.to_vec(), escrow_exts: escrow.to_vec(), live: false, cut: 0, alias: vec![], fake: false }
    }
    /// the escrow has exactly the extensions a fresh one would get
    pub fn good(&self) -> bool {
        let mut want = account_exts_for(&self.mint_exts);
        if !want.contains(&ext::IMMUTABLE_OWNER) {
            want.push(ext::IMMUTABLE_OWNER);
        }
        let mut have = self.escrow_exts.clone();
        want.sort();
        have.sort();
        want == have
    }
}
pub fn close(o: &CloseOpt, name: &str) -> Scn {
    let mut b = B::new(name);
    b.alias = o.alias.iter().map(|a| (a.0.to_string(), a.1.to_string())).collect();
    let um = vkey("unwrapped_mint.key");
    b.w.ix = vec![k8(3)];
    let (mut wk, mut ak, mut ek) = (None, None, None);
    if o.live {
        let k = b.wrapped_mint_key(&um, o.wp.id());
        let a = b.authority_key(&k);
        ek = Some(b.ata_key(&a, ids::t22(), &um));
        (wk, ak) = (Some(k), Some(a));
    }
    b.token("escrow", ek, &o.escrow_exts);
    let twin = o.alias.contains(&("authority", "destination"));
    b.wallet("destination", if twin { ak } else { None });
    b.mint("unwrapped_mint", Some(um), &o.mint_exts);
    let e: Vec<u16> = if o.wp == Prog::T22 { WDEF.to_vec() } else { vec![] };
    b.mint("wrapped_mint", wk, &e);
    b.wallet("authority", ak);
    if o.fake {
        b.fake_program("token_program");
    } else {
        b.program("token_program", ids::t22());
    }
    if o.live {
        b.set_owner("escrow", ids::t22());
        b.set_owner("unwrapped_mint", ids::t22());
        b.set_owner("wrapped_mint", o.wp.id());
        let d = b.d("unwrapped_mint");
        b.assume(mint_ok(Prog::T22, &d));
        b.assume(mint_wf(&d));
        let d = b.d("escrow");
        b.assume(account_ok(Prog::T22, &d));
        b.assume(account_wf(&d));
        b.assume(eq(d[A_STATE], k8(1)));
        b.assume(eq(u64at(&d, A_AMOUNT), k64(0)));
        b.keyat("escrow", A_MINT, um);
        b.keyat("escrow", A_OWNER, ak.unwrap());
        // nobody but its owner, a derived address, could have named another closer
        b.assume(or(not(opt_some(&d, A_CLOSE)), key_eq(&rdkey(&d, A_CLOSE + 4), &ak.unwrap())));
        if let Some(x) = ext_at(&d, ext::TRANSFER_FEE_AMOUNT) {
            b.assume(eq(u64at(&d, x), k64(0)));
        }
        no_flag(&mut b, "escrow", ext::CPI_GUARD);
        b.writes("escrow");
        b.writes("destination");
    }
    cut(&mut b, o.cut);
    let mut s = b.done("close", Prog::T22, o.wp, k64(0));
    s.meta.live = o.live;
    s.meta.must_fail = o.cut > 0 || o.good() || o.fake;
    s
}

#[derive(Clone)]
pub struct PointerOpt {
    pub up: Prog,
    pub mint_exts: Vec<u16>,
    /// bytes already at the address
    pub len: usize,
    pub live: bool,
    pub cut: usize,
    pub alias: Vec<(&'static str, &'static str)>,
}
impl PointerOpt {
    pub fn new(up: Prog, exts: &[u16], len: usize) -> PointerOpt {
        PointerOpt { up, mint_exts: exts.to_vec(), len, live: false, cut: 0, alias: vec![] }
    }
}
pub fn pointer(o: &PointerOpt, name: &str) -> Scn {
    let mut b = B::new(name);
    b.alias = o.alias.iter().map(|a| (a.0.to_string(), a.1.to_string())).collect();
    let um = vkey("unwrapped_mint.key");
    b.w.ix = vec![k8(6)];
    b.w.ix.extend(vkey("new_program"));
    b.wallet("mint_authority", None);
    // what lies at the derived address was put there by the program
    let ck = b.pointer_key(&um);
    if o.live {
        b.data_at("pointer", Some(ck), vbytes("pointer.data", o.len));
    } else {
        b.data_at("pointer", None, vbytes("pointer.data", o.len));
    }
    if o.len > 0 && o.alias.is_empty() {
        let a = &b.w.accts[b.r("pointer")];
        let c = implies(key_eq(&a.key, &ck), key_eq(&a.st.owner, &kk(ids::wrap())));
        b.assume(c);
    }
    b.mint("unwrapped_mint", Some(um), &o.mint_exts);
    b.program("system", ids::system());
    if o.live {
        b.set_owner("unwrapped_mint", o.up.id());
        let d = b.d("unwrapped_mint");
        b.assume(mint_ok(o.up, &d));
        b.assume(mint_wf(&d));
        b.assume(opt_some(&d, M_AUTH));
        let k = b.key("mint_authority");
        b.keyat("unwrapped_mint", M_AUTH + 4, k);
        b.signs("mint_authority", true);
        b.writes("pointer");
        if o.len == 0 {
            b.set_owner("pointer", ids::system());
            let l = b.w.accts[b.r("pointer")].st.lamports;
            b.assume(ule(rent_min(32), l));
        } else {
            b.set_owner("pointer", ids::wrap());
        }
    }
    cut(&mut b, o.cut);
    let mut s = b.done("pointer", o.up, o.up, k64(0));
    s.meta.live = o.live;
    s.meta.must_fail = o.cut > 0;
    s
}
