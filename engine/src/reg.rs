//! The scenarios, and the properties each one serves.
use crate::scen::*;
use crate::scen2::*;
use crate::tok::ext::*;
use crate::tok::Prog::*;

pub struct Entry {
    pub name: String,
    pub props: Vec<&'static str>,
    /// 0: quick and thorough, 1: thorough only
    pub tier: u8,
    /// rough cost, for scheduling
    pub weight: u32,
    pub build: Box<dyn Fn(&str) -> Scn>,
}

impl Entry {
    /// which bytecode the scenario runs: the program, or the harness linked with it
    pub fn elf(&self) -> &'static str {
        if self.name.starts_with("h.") {
            "harness"
        } else {
            "program"
        }
    }
}

pub fn all() -> Vec<Entry> {
    let mut v: Vec<Entry> = vec![];
    let mut add = |name: &str, props: &[&'static str], tier: u8, weight: u32, build: Box<dyn Fn(&str) -> Scn>| {
        v.push(Entry { name: name.into(), props: props.to_vec(), tier, weight, build });
    };
    let safety = ["C01", "C03", "C04", "C05"];
    let usafety = ["C02", "C03", "C04", "C05"];
    for (n, up, wp, exts, tier, w) in [
        ("spl.spl", Spl, Spl, vec![], 0, 2),
        ("spl.t22", Spl, T22, vec![], 0, 2),
        ("t22.spl", T22, Spl, vec![], 0, 10),
        ("t22fee.t22", T22, T22, vec![TRANSFER_FEE_CONFIG], 0, 40),
        ("t22pd.t22", T22, T22, vec![PERMANENT_DELEGATE, PAUSABLE], 0, 40),
        ("t22hook.t22", T22, T22, vec![HOOK], 0, 40),
        ("t22misc.t22", T22, T22, vec![MINT_CLOSE_AUTHORITY, DEFAULT_STATE, INTEREST, GROUP_POINTER], 0, 10),
        ("t22conf.spl", T22, Spl, vec![CONFIDENTIAL_MINT, METADATA_POINTER, MEMBER_POINTER, SCALED], 0, 10),
        ("t22md.t22", T22, T22, vec![METADATA_POINTER, TOKEN_METADATA], 0, 10),
        ("t22group.spl", T22, Spl, vec![GROUP, SCALED, MEMBER], 0, 10),
        ("t22big.t22", T22, T22, vec![TRANSFER_FEE_CONFIG, PERMANENT_DELEGATE, PAUSABLE, METADATA_POINTER], 1, 80),
        // long mints
        ("t22long.t22", T22, T22, vec![GROUP, GROUP_POINTER, MEMBER_POINTER, MEMBER, METADATA_POINTER, LONG_METADATA], 0, 10),
        ("t22conffee.spl", T22, Spl, vec![TRANSFER_FEE_CONFIG, CONFIDENTIAL_MINT, CONFIDENTIAL_FEE, CONFIDENTIAL_MINT_BURN], 1, 40),
    ] {
        let o = Opt::new(up, wp, &exts);
        let o1 = o.clone();
        add(&format!("wrap.{n}"), &safety, tier, w, Box::new(move |n| wrap(&o1, n)));
        let o1 = o.clone();
        add(&format!("unwrap.{n}"), &usafety, tier, w, Box::new(move |n| unwrap(&o1, n)));
        let mut o1 = o.clone();
        o1.live = true;
        add(&format!("wrap.live.{n}"), &["C06"], tier, w / 2, Box::new(move |n| wrap(&o1, n)));
        let mut o1 = o.clone();
        o1.live = true;
        add(&format!("unwrap.live.{n}"), &["C07"], tier, w / 2, Box::new(move |n| unwrap(&o1, n)));
    }
    // wrapped mints that got metadata since
    for (n, up, exts, wm) in [
        ("spl", Spl, vec![], vec![CONFIDENTIAL_MINT, METADATA_POINTER, TOKEN_METADATA]),
        ("t22", T22, vec![METADATA_POINTER, TOKEN_METADATA], vec![CONFIDENTIAL_MINT, METADATA_POINTER, TOKEN_METADATA]),
        // made by another customizer
        ("bare", Spl, vec![], vec![]),
        ("pd", Spl, vec![], vec![PERMANENT_DELEGATE, PAUSABLE, METADATA_POINTER]),
    ] {
        let mut o = Opt::new(up, T22, &exts);
        o.wmint_exts = wm;
        if n == "pd" {
            o.wacct_exts = vec![IMMUTABLE_OWNER, PAUSABLE_ACCOUNT];
        }
        let o1 = o.clone();
        add(&format!("wrap.wmint_{n}"), &safety, 0, 10, Box::new(move |n| wrap(&o1, n)));
        let o1 = o.clone();
        add(&format!("unwrap.wmint_{n}"), &usafety, 0, 10, Box::new(move |n| unwrap(&o1, n)));
        if n != "pd" {
            o.live = true;
            let o1 = o.clone();
            add(&format!("wrap.live.wmint_{n}"), &["C06"], 0, 10, Box::new(move |n| wrap(&o1, n)));
            add(&format!("unwrap.live.wmint_{n}"), &["C07"], 0, 10, Box::new(move |n| unwrap(&o, n)));
        }
    }
    // the same account in two places
    for (n, al) in [
        ("user_escrow", ("escrow", "user")),
        ("recipient_escrow", ("escrow", "recipient")),
        ("recipient_user", ("user", "recipient")),
        ("holder_user", ("holder", "user")),
        ("holder_authority", ("holder", "authority")),
        ("recipient_wmint", ("wrapped_mint", "recipient")),
    ] {
        for (c, up, wp, exts) in [("spl.t22", Spl, T22, vec![]), ("t22pd.t22", T22, T22, vec![PERMANENT_DELEGATE])] {
            let mut o = Opt::new(up, wp, &exts);
            o.alias = vec![al];
            if n == "user_escrow" {
                o.user_exts = o.escrow_exts.clone();
            }
            if n == "recipient_escrow" || n == "recipient_user" {
                o.wacct_exts = o.escrow_exts.clone();
            }
            let o1 = o.clone();
            add(&format!("wrap.alias.{n}.{c}"), &["C01", "C04", "C05"], 0, 4, Box::new(move |n| wrap(&o1, n)));
            let mut o1 = o.clone();
            o1.alias = match n {
                "user_escrow" => vec![("user", "escrow")],
                "recipient_escrow" => vec![("recipient", "escrow")],
                "recipient_user" => vec![("user", "recipient")],
                "recipient_wmint" => vec![("wrapped_mint", "recipient")],
                _ => o1.alias,
            };
            add(&format!("unwrap.alias.{n}.{c}"), &["C02", "C04", "C05"], 0, 4, Box::new(move |n| unwrap(&o1, n)));
        }
    }
    // programs nobody vouches for; accounts missing
    for f in ["unwrapped_program", "wrapped_program"] {
        for (c, up, wp) in [("spl.t22", Spl, T22), ("t22.spl", T22, Spl)] {
            let mut o = Opt::new(up, wp, &[]);
            o.fake = Some(f);
            let o1 = o.clone();
            add(&format!("wrap.fake_{f}.{c}"), &["C03"], 0, 3, Box::new(move |n| wrap(&o1, n)));
            let o1 = o.clone();
            add(&format!("unwrap.fake_{f}.{c}"), &["C03"], 0, 3, Box::new(move |n| unwrap(&o1, n)));
        }
    }
    for k in 1..=9 {
        let mut o = Opt::new(Spl, Spl, &[]);
        o.cut = k;
        let o1 = o.clone();
        add(&format!("wrap.cut{k}"), &["C03"], 0, 1, Box::new(move |n| wrap(&o1, n)));
        let o1 = o.clone();
        add(&format!("unwrap.cut{k}"), &["C03"], 0, 1, Box::new(move |n| unwrap(&o1, n)));
    }
    // multisignature holders, in every role they can have
    for (c, up, wp) in [("spl.spl", Spl, Spl), ("spl.t22", Spl, T22), ("t22.spl", T22, Spl), ("t22.t22", T22, T22)] {
        for m in 1..=3usize {
            let mut o = Opt::new(up, wp, &[]);
            o.multisig = Some(m);
            o.extras = m;
            let tier = if m == 3 && c != "t22.t22" { 1 } else { 0 };
            let mut l = o.clone();
            l.live = true;
            let o1 = l.clone();
            add(&format!("wrap.live.multisig{m}.{c}"), &["C08"], tier, 4 * m as u32, Box::new(move |n| wrap(&o1, n)));
            let o1 = l.clone();
            add(&format!("unwrap.live.multisig{m}.{c}"), &["C08"], tier, 4 * m as u32, Box::new(move |n| unwrap(&o1, n)));
            l.delegate = true;
            let o1 = l.clone();
            add(&format!("wrap.live.delegate_multisig{m}.{c}"), &["C08"], 1, 4 * m as u32, Box::new(move |n| wrap(&o1, n)));
            let o1 = l.clone();
            add(&format!("unwrap.live.delegate_multisig{m}.{c}"), &["C08"], 1, 4 * m as u32, Box::new(move |n| unwrap(&o1, n)));
            let tier = if m == 2 && (c == "spl.t22" || c == "t22.spl") { 0 } else { 1 };
            let o1 = o.clone();
            add(&format!("wrap.multisig{m}.{c}"), &["C04", "C05"], tier, 12 * m as u32, Box::new(move |n| wrap(&o1, n)));
            let o1 = o.clone();
            add(&format!("unwrap.multisig{m}.{c}"), &["C04", "C05"], tier, 12 * m as u32, Box::new(move |n| unwrap(&o1, n)));
            if m > 1 {
                o.alias = vec![("extra1", "extra0")];
                let o1 = o.clone();
                add(&format!("wrap.multisig{m}.dup.{c}"), &["C04", "C05"], tier, 12 * m as u32, Box::new(move |n| wrap(&o1, n)));
                let o1 = o.clone();
                add(&format!("unwrap.multisig{m}.dup.{c}"), &["C04", "C05"], tier, 12 * m as u32, Box::new(move |n| unwrap(&o1, n)));
            }
        }
    }
    // fewer members than there are, in any order
    for (x, of, members) in [("3_02", 3usize, vec![0usize, 2]), ("3_21", 3, vec![2, 1]), ("3_1", 3, vec![1]), ("5_401", 5, vec![4, 0, 1]), ("11_10", 11, vec![10]), ("11_9_3", 11, vec![9, 3]), ("11_all", 11, (0..11).collect())] {
        for (c, up, wp) in [("spl.t22", Spl, T22), ("t22.spl", T22, Spl), ("spl.spl", Spl, Spl), ("t22.t22", T22, T22)] {
            let mut o = Opt::new(up, wp, &[]);
            o.multisig = Some(of);
            o.extras = members.len();
            o.members = members.clone();
            o.live = true;
            let tier = if x == "3_21" && (c == "spl.t22" || c == "t22.spl") || x == "3_1" && c == "t22.t22" || x == "11_10" && c == "spl.t22" || x == "11_all" && (c == "t22.spl" || c == "spl.t22") { 0 } else { 1 };
            let o1 = o.clone();
            add(&format!("wrap.live.members{x}.{c}"), &["C08"], tier, 3 * of as u32, Box::new(move |n| wrap(&o1, n)));
            let o1 = o.clone();
            add(&format!("unwrap.live.members{x}.{c}"), &["C08"], tier, 3 * of as u32, Box::new(move |n| unwrap(&o1, n)));
        }
    }
    // a transfer hook with its extra accounts, alone and with a multisignature holder
    for (c, wp) in [("t22", T22), ("spl", Spl)] {
        for m in 0..=2usize {
            let mut o = Opt::new(T22, wp, &[HOOK]);
            o.hook = true;
            if m > 0 {
                o.multisig = Some(m);
                o.extras = m;
            }
            let tier = if m == 1 || (m == 2 && c == "spl") { 1 } else { 0 };
            let mut l = o.clone();
            l.live = true;
            let o1 = l.clone();
            add(&format!("wrap.live.hook.ms{m}.{c}"), &["C08"], tier, 10, Box::new(move |n| wrap(&o1, n)));
            let o1 = l.clone();
            add(&format!("unwrap.live.hook.ms{m}.{c}"), &["C08"], tier, 10, Box::new(move |n| unwrap(&o1, n)));
            if m == 0 && c == "t22" {
                let o1 = o.clone();
                add(&format!("wrap.hook.{c}"), &["C01", "C04", "C05"], 0, 30, Box::new(move |n| wrap(&o1, n)));
                let o1 = o.clone();
                add(&format!("unwrap.hook.{c}"), &["C02", "C04", "C05"], 0, 30, Box::new(move |n| unwrap(&o1, n)));
            }
        }
    }
    for (k, m, tier) in [(0usize, 0usize, 0), (1, 0, 1), (3, 0, 1), (6, 0, 0), (0, 2, 1), (5, 3, 1)] {
        for (c, wp) in [("t22", T22), ("spl", Spl)] {
            let mut o = Opt::new(T22, wp, &[HOOK]);
            o.hook = true;
            o.hook_n = k;
            let tier = if k == 6 && c == "t22" { 1 } else { tier };
            o.live = true;
            if m > 0 {
                o.multisig = Some(m);
                o.extras = m;
            }
            let o1 = o.clone();
            add(&format!("wrap.live.hook{k}.ms{m}.{c}"), &["C08"], tier, 10, Box::new(move |n| wrap(&o1, n)));
            let o1 = o.clone();
            add(&format!("unwrap.live.hook{k}.ms{m}.{c}"), &["C08"], tier, 10, Box::new(move |n| unwrap(&o1, n)));
        }
    }
    // delegates, and account extensions a holder may have switched on
    for (c, up, wp, ue, we) in [
        ("spl.spl", Spl, Spl, vec![], vec![]),
        ("spl.t22", Spl, T22, vec![], vec![IMMUTABLE_OWNER, MEMO_TRANSFER]),
        ("t22.spl", T22, Spl, vec![IMMUTABLE_OWNER, MEMO_TRANSFER], vec![]),
        ("t22.t22", T22, T22, vec![IMMUTABLE_OWNER, CPI_GUARD], vec![IMMUTABLE_OWNER, CPI_GUARD]),
        ("conf.t22", T22, T22, vec![IMMUTABLE_OWNER, CONFIDENTIAL_ACCOUNT], vec![IMMUTABLE_OWNER, CONFIDENTIAL_ACCOUNT]),
    ] {
        let mut o = Opt::new(up, wp, if c == "conf.t22" { &[CONFIDENTIAL_MINT] } else { &[] });
        o.user_exts = ue;
        o.wacct_exts = we;
        let o1 = o.clone();
        add(&format!("wrap.ext.{c}"), &safety, 1, 5, Box::new(move |n| wrap(&o1, n)));
        let o1 = o.clone();
        add(&format!("unwrap.ext.{c}"), &usafety, 1, 5, Box::new(move |n| unwrap(&o1, n)));
        o.live = true;
        let o1 = o.clone();
        add(&format!("wrap.live.ext.{c}"), &["C06"], 1, 5, Box::new(move |n| wrap(&o1, n)));
        let o1 = o.clone();
        add(&format!("unwrap.live.ext.{c}"), &["C07"], 1, 5, Box::new(move |n| unwrap(&o1, n)));
        o.delegate = true;
        let o1 = o.clone();
        add(&format!("wrap.live.delegate.{c}"), &["C06"], 0, 5, Box::new(move |n| wrap(&o1, n)));
        let o1 = o.clone();
        add(&format!("unwrap.live.delegate.{c}"), &["C07"], 0, 5, Box::new(move |n| unwrap(&o1, n)));
    }
    // ---- creating wrapped mints
    for (n, up, wp, exts, tier) in [
        ("spl.spl", Spl, Spl, vec![], 0),
        ("spl.t22", Spl, T22, vec![], 0),
        ("t22.spl", T22, Spl, vec![TRANSFER_FEE_CONFIG], 0),
        ("t22.t22", T22, T22, vec![], 0),
        ("t22ext.t22", T22, T22, vec![PERMANENT_DELEGATE, PAUSABLE, METADATA_POINTER], 0),
        ("t22md.t22", T22, T22, vec![METADATA_POINTER, TOKEN_METADATA], 0),
        ("t22long.t22", T22, T22, vec![GROUP, GROUP_POINTER, MEMBER_POINTER, MEMBER, METADATA_POINTER, LONG_METADATA], 0),
        ("t22misc.spl", T22, Spl, vec![GROUP_POINTER, SCALED, HOOK], 1),
        ("t22close.t22", T22, T22, vec![MINT_CLOSE_AUTHORITY, DEFAULT_STATE], 1),
        ("t22nt.spl", T22, Spl, vec![NON_TRANSFERABLE, INTEREST, CONFIDENTIAL_MINT], 1),
    ] {
        let o = CreateOpt::new(up, wp, &exts);
        let o1 = o.clone();
        add(&format!("create.{n}"), &["C09", "C04"], tier, 5, Box::new(move |n| create(&o1, n)));
        for (mt, bt, x) in [(true, true, "both"), (true, false, "mint"), (false, true, "back")] {
            let mut o1 = o.clone();
            o1.mint_there = mt;
            o1.back_there = bt;
            add(&format!("create.exists_{x}.{n}"), &["C10", "C04"], if n.contains("ext") { 1 } else { tier }, 5, Box::new(move |n| create(&o1, n)));
        }
        let mut o1 = o.clone();
        o1.live = true;
        let o2 = o1.clone();
        add(&format!("create.live.{n}"), &["C11"], tier, 5, Box::new(move |n| create(&o2, n)));
        o1.mint_there = true;
        o1.back_there = true;
        add(&format!("create.live.exists.{n}"), &["C10"], tier, 5, Box::new(move |n| create(&o1, n)));
    }
    for k in 1..=5 {
        let mut o = CreateOpt::new(Spl, T22, &[]);
        o.cut = k;
        add(&format!("create.cut{k}"), &["C09"], 0, 1, Box::new(move |n| create(&o, n)));
    }
    for up in [Spl, T22] {
        let mut o = CreateOpt::new(up, Spl, &[]);
        o.fake = true;
        add(&format!("create.fake_program.{}", up.name()), &["C09", "C04"], 0, 2, Box::new(move |n| create(&o, n)));
    }
    for (n, al) in [("back_mint", ("backpointer", "wrapped_mint")), ("unwrapped_mint", ("unwrapped_mint", "wrapped_mint")), ("unwrapped_back", ("unwrapped_mint", "backpointer"))] {
        for (x, there) in [("empty", false), ("there", true)] {
            let mut o = CreateOpt::new(Spl, T22, &[]);
            o.alias = vec![al];
            o.mint_there = there;
            o.back_there = there;
            add(&format!("create.alias.{n}.{x}"), if there { &["C10", "C04"] } else { &["C09", "C04"] }, 0, 2, Box::new(move |n| create(&o, n)));
        }
    }
    // ---- closing escrows
    for (n, me, ee, tier) in [
        ("plain_plain", vec![], vec![], 0),
        ("plain_immutable", vec![], vec![IMMUTABLE_OWNER], 0),
        ("fee_immutable", vec![TRANSFER_FEE_CONFIG], vec![IMMUTABLE_OWNER], 0),
        ("fee_fee", vec![TRANSFER_FEE_CONFIG], vec![IMMUTABLE_OWNER, TRANSFER_FEE_AMOUNT], 0),
        ("fee_feeonly", vec![TRANSFER_FEE_CONFIG], vec![TRANSFER_FEE_AMOUNT], 0),
        ("plain_fee", vec![], vec![IMMUTABLE_OWNER, TRANSFER_FEE_AMOUNT], 0),
        ("hook_fee", vec![HOOK], vec![IMMUTABLE_OWNER, TRANSFER_FEE_AMOUNT], 0),
        ("hookfee_feehook", vec![HOOK, TRANSFER_FEE_CONFIG], vec![TRANSFER_FEE_AMOUNT, IMMUTABLE_OWNER, HOOK_ACCOUNT], 0),
        ("pausable_hook", vec![PAUSABLE, PERMANENT_DELEGATE], vec![IMMUTABLE_OWNER, HOOK_ACCOUNT], 1),
        ("nt_immutable", vec![NON_TRANSFERABLE], vec![IMMUTABLE_OWNER], 0),
        ("nt_nt", vec![NON_TRANSFERABLE, METADATA_POINTER], vec![IMMUTABLE_OWNER, NON_TRANSFERABLE_ACCOUNT], 0),
        ("close_plain", vec![MINT_CLOSE_AUTHORITY], vec![], 0),
        ("memo", vec![], vec![IMMUTABLE_OWNER, MEMO_TRANSFER], 0),
        ("md_plain", vec![METADATA_POINTER, TOKEN_METADATA, INTEREST], vec![], 0),
        ("feemd_imm", vec![TRANSFER_FEE_CONFIG, METADATA_POINTER, TOKEN_METADATA], vec![IMMUTABLE_OWNER], 0),
        ("guard", vec![TRANSFER_FEE_CONFIG], vec![IMMUTABLE_OWNER, CPI_GUARD], 1),
        ("long_imm", vec![PAUSABLE, GROUP, GROUP_POINTER, MEMBER_POINTER, MEMBER, METADATA_POINTER, LONG_METADATA], vec![IMMUTABLE_OWNER], 0),
        // as many extensions as required, and as large, but others
        ("nt_pausable", vec![NON_TRANSFERABLE], vec![IMMUTABLE_OWNER, PAUSABLE_ACCOUNT], 0),
        ("hook_memo", vec![HOOK], vec![MEMO_TRANSFER, IMMUTABLE_OWNER], 0),
        ("hook_noimm", vec![HOOK], vec![HOOK_ACCOUNT, MEMO_TRANSFER], 0),
        ("hook_guard", vec![HOOK], vec![IMMUTABLE_OWNER, CPI_GUARD], 0),
        ("pausable_nt", vec![PAUSABLE], vec![IMMUTABLE_OWNER, NON_TRANSFERABLE_ACCOUNT], 1),
        // required ones in another order
        ("hook_hook", vec![HOOK], vec![HOOK_ACCOUNT, IMMUTABLE_OWNER], 0),
        ("pausable_pausable", vec![PAUSABLE], vec![IMMUTABLE_OWNER, PAUSABLE_ACCOUNT], 0),
        ("fee_feenoimm", vec![TRANSFER_FEE_CONFIG, HOOK], vec![TRANSFER_FEE_AMOUNT, HOOK_ACCOUNT], 0),
    ] {
        for wp in [Spl, T22] {
            let tier = if wp == T22 && n.len() > 9 { 1 } else { tier };
            let o = CloseOpt::new(wp, &me, &ee);
            let good = o.good();
            let mut l = o.clone();
            let c = wp.name();
            add(&format!("close.{n}.{c}"), &["C12", "C04"], tier, 3, Box::new(move |n| close(&o, n)));
            if !good {
                l.live = true;
                add(&format!("close.live.{n}.{c}"), &["C13"], tier, 3, Box::new(move |n| close(&l, n)));
            }
        }
    }
    for k in 1..=6 {
        let mut o = CloseOpt::new(Spl, &[TRANSFER_FEE_CONFIG], &[IMMUTABLE_OWNER]);
        o.cut = k;
        add(&format!("close.cut{k}"), &["C12"], 0, 1, Box::new(move |n| close(&o, n)));
    }
    for (n, al) in [("dest_escrow", ("destination", "escrow")), ("authority_dest", ("authority", "destination")), ("wmint_dest", ("wrapped_mint", "destination")), ("umint_dest", ("unwrapped_mint", "destination"))] {
        let mut o = CloseOpt::new(T22, &[TRANSFER_FEE_CONFIG], &[IMMUTABLE_OWNER]);
        o.alias = vec![al];
        let o1 = o.clone();
        add(&format!("close.alias.{n}"), &["C12", "C04"], 0, 2, Box::new(move |n| close(&o1, n)));
        if al.0 == "authority" {
            o.live = true;
            add(&format!("close.live.alias.{n}"), &["C13"], 0, 2, Box::new(move |n| close(&o, n)));
        }
    }
    // ---- canonical pointers
    for (n, up, exts, tier) in [("spl", Spl, vec![], 0), ("t22", T22, vec![], 0), ("t22ext", T22, vec![MINT_CLOSE_AUTHORITY, METADATA_POINTER], 0), ("t22long", T22, vec![GROUP, GROUP_POINTER, MEMBER_POINTER, MEMBER, METADATA_POINTER, LONG_METADATA], 1)] {
        for len in [0usize, 32, 31, 33, 40, 64] {
            let o = PointerOpt::new(up, &exts, len);
            let mut l = o.clone();
            let t = if len > 32 || len == 31 { 1 } else { tier };
            add(&format!("pointer.len{len}.{n}"), &["C17", "C04"], t, 3, Box::new(move |n| pointer(&o, n)));
            if len == 0 || len == 32 {
                l.live = true;
                add(&format!("pointer.live.len{len}.{n}"), &["C17"], tier, 3, Box::new(move |n| pointer(&l, n)));
            }
        }
    }
    for k in 1..=4 {
        let mut o = PointerOpt::new(Spl, &[], 0);
        o.cut = k;
        add(&format!("pointer.cut{k}"), &["C17"], 0, 1, Box::new(move |n| pointer(&o, n)));
    }
    for (n, al, len) in [("umint_pointer", ("unwrapped_mint", "pointer"), 82), ("pointer_authority", ("pointer", "mint_authority"), 0), ("umint_authority", ("unwrapped_mint", "mint_authority"), 0)] {
        let mut o = PointerOpt::new(Spl, &[], len);
        o.alias = vec![al];
        add(&format!("pointer.alias.{n}"), &["C17", "C04"], 0, 2, Box::new(move |n| pointer(&o, n)));
    }
    // ---- metadata
    for (n, al) in [("user_escrow", ("escrow", "user")), ("recipient_user", ("user", "recipient"))] {
        for (c, up, wp, exts) in [("spl.t22", Spl, T22, vec![]), ("t22pd.t22", T22, T22, vec![PERMANENT_DELEGATE]), ("t22pdfee.spl", T22, Spl, vec![TRANSFER_FEE_CONFIG, PERMANENT_DELEGATE])] {
            let mut o = Opt::new(up, wp, &exts);
            o.multisig = Some(1);
            o.extras = 1;
            o.alias = vec![al];
            o.user_exts = o.escrow_exts.clone();
            if n == "recipient_user" {
                o.wacct_exts = o.escrow_exts.clone();
            }
            let t = (n == "recipient_user") as u8;
            let o1 = o.clone();
            add(&format!("wrap.multisig1.{n}.{c}"), &["C01", "C04", "C05"], t, 8, Box::new(move |n| wrap(&o1, n)));
            let mut o1 = o.clone();
            o1.alias = vec![if n == "user_escrow" { ("user", "escrow") } else { ("user", "recipient") }];
            add(&format!("unwrap.multisig1.{n}.{c}"), &["C02", "C04", "C05"], t, 8, Box::new(move |n| unwrap(&o1, n)));
        }
    }
    use crate::meta::{sync, MplCfg, Src, SyncOpt, Tgt, TmCfg, Val2};
    let tm = |n: usize, y: usize, u: usize, x: Vec<(&'static str, Val2)>| TmCfg { name: n, symbol: y, uri: u, extra: x, wide: false };
    let mc = |n: usize, y: usize, u: usize| MplCfg { name: n, symbol: y, uri: u, ..Default::default() };
    let full = MplCfg { creators: Some(2), nonce: true, standard: true, collection: true, uses: true, details: true, rules: Some(true), sym: "primary", ..mc(5, 3, 9) };
    let any = Val2::Any;
    let mut sources: Vec<(&str, Src, u8)> = vec![
        ("own0", Src::Own(tm(4, 3, 8, vec![])), 0),
        ("own2", Src::Own(tm(3, 2, 5, vec![("ab", any(4)), ("zz", any(1))])), 0),
        ("spl", Src::Spl(MplCfg { sym: "fee", ..mc(4, 3, 8) }), 0),
        ("splpad", Src::Spl(MplCfg { pad: true, creators: Some(1), tail: 20, sym: "verified share mutable", ..mc(4, 3, 8) }), 0),
        ("splcol", Src::Spl(MplCfg { collection: true, uses: true, standard: true, sym: "collection method primary", ..mc(4, 3, 8) }), 0),
        ("spluse", Src::Spl(MplCfg { uses: true, details: true, sym: "total", ..mc(4, 3, 8) }), 0),
        ("spluse2", Src::Spl(MplCfg { uses: true, details: true, sym: "remaining", ..mc(4, 3, 8) }), 1),
        ("splfull", Src::Spl(full.clone()), 0),
        ("splstd", Src::Spl(MplCfg { standard: true, sym: "standard primary mutable", ..mc(1, 1, 1) }), 0),
        ("bare", Src::Bare(MplCfg { creators: Some(0), nonce: true, rules: Some(false), sym: "nonce", ..mc(0, 3, 8) }), 0),
        ("ptr", Src::Ptr(MplCfg { creators: Some(2), details: true, sym: "verified", ..mc(4, 0, 0) }), 0),
        ("ptrsize", Src::Ptr(MplCfg { details: true, sym: "size", ..mc(4, 0, 0) }), 1),
        ("spl5c", Src::Spl(MplCfg { creators: Some(5), collection: true, sym: "verified", ..mc(2, 2, 2) }), 0),
        ("ptrshare", Src::Ptr(MplCfg { creators: Some(3), sym: "share", ..mc(4, 0, 0) }), 1),
        ("ext", Src::Ext(tm(2, 4, 0, vec![("k", any(3))])), 0),
        ("splmax", Src::Spl(MplCfg { sym: "primary", ..mc(32, 10, 200) }), 0),
        ("splwide", Src::Spl(MplCfg { wide: true, sym: "mutable", ..mc(9, 5, 12) }), 0),
        ("splbig", Src::Spl(MplCfg { big: true, creators: Some(3), nonce: true, standard: true, uses: true, details: true, collection: true, sym: "primary", ..mc(2, 2, 2) }), 0),
        ("splempty", Src::Spl(MplCfg { sym: "mutable", ..mc(0, 0, 0) }), 0),
        ("ownwide", Src::Own(TmCfg { wide: true, ..tm(9, 5, 12, vec![("ab", any(9)), ("\u{e9}", any(3))]) }), 0),
    ];
    // only for Token-2022
    let own22: Vec<(&str, Src)> = vec![
        ("ownlong", Src::Own(tm(40, 14, 230, vec![("description", any(120))]))),
        ("own6", Src::Own(tm(1, 1, 1, vec![("a", any(1)), ("b", any(2)), ("c", any(0)), ("d", any(1)), ("e", any(3)), ("f", any(1))]))),
        ("ownkey", Src::Own(tm(2, 1, 1, vec![("k?", any(2)), ("?z", any(1))]))),
        ("ownempty", Src::Own(tm(0, 0, 0, vec![("a", any(0)), ("", any(2)), ("b", any(0))]))),
        ("extlong", Src::Ext(tm(80, 20, 250, vec![("a long name of a field", any(70))]))),
    ];
    for (n, src) in &own22 {
        let mut tgts = vec![("new", Tgt::NoRecord)];
        if *n != "ownkey" {
            tgts.push(("upd0", Tgt::Token(tm(if *n == "own6" { 1 } else { 40 }, 1, 1, vec![("b", any(2)), ("q", any(2)), ("e", any(3))]))));
        }
        for (tn, tgt) in tgts {
            let o = SyncOpt::new(T22, src.clone(), tgt);
            let mut l = o.clone();
            l.live = true;
            let t = if *n == "extlong" && tn != "new" { 1 } else { 0 };
            add(&format!("sync22.{n}.{tn}"), &["C14", "C16"], t, 5, Box::new(move |n| sync(&o, n)));
            add(&format!("sync22.live.{n}.{tn}"), &["C14"], t, 5, Box::new(move |n| sync(&l, n)));
        }
    }
    for (n, src, tier) in &sources {
        for (tn, tgt, to, ttier) in [
            ("new", Tgt::NoRecord, T22, 0u8),
            ("upd0", Tgt::Token(tm(4, 3, 8, vec![])), T22, 0),
            ("updx", Tgt::Token(tm(4, 2, 8, vec![("ab", any(4)), ("k", any(2)), ("seller_fee_basis_points", any(3))])), T22, 0),
            ("upds", Tgt::Token(tm(5, 3, 8, vec![("seller_fee_basis_points", any(2)), ("key", any(12)), ("collection", any(5)), ("is_mutable", any(4))])), T22, 1),
        ] {
            let t = (*tier).max(ttier).max(if tn == "updx" && !matches!(*n, "own2" | "ext" | "spl") { 1 } else { 0 });
            let o = SyncOpt::new(to, src.clone(), tgt);
            let mut l = o.clone();
            l.live = true;
            add(&format!("sync22.{n}.{tn}"), &["C14", "C16"], t, 5, Box::new(move |n| sync(&o, n)));
            add(&format!("sync22.live.{n}.{tn}"), &["C14"], t, 5, Box::new(move |n| sync(&l, n)));
        }
    }
    let col = |v| ("collection", Val2::Collection(v));
    sources.extend([
        ("ownfee", Src::Own(tm(4, 3, 8, vec![("seller_fee_basis_points", Val2::Fee(3)), ("x", any(2))])), 0),
        ("ownfee1", Src::Own(tm(4, 3, 8, vec![("seller_fee_basis_points", Val2::Fee(1))])), 1),
        ("ownfee5", Src::Own(tm(4, 3, 8, vec![("seller_fee_basis_points", Val2::Fee(5))])), 0),
        ("owncre1", Src::Own(tm(4, 3, 8, vec![("creators", Val2::Creators(1))])), 0),
        ("owncre2", Src::Own(tm(4, 3, 8, vec![("creators", Val2::Creators(2)), ("seller_fee_basis_points", Val2::Fee(2))])), 0),
        ("owncre5", Src::Own(tm(2, 1, 1, vec![("creators", Val2::Creators(5))])), 0),
        ("owncol", Src::Own(tm(4, 3, 8, vec![col(false)])), 0),
        ("owncolv", Src::Own(tm(4, 3, 8, vec![col(true)])), 0),
        ("ownuses", Src::Own(tm(4, 3, 8, vec![("uses", Val2::Uses(1)), ("uses2", any(2))])), 0),
        ("ownbig", Src::Own(tm(2, 1, 1, vec![("uses", Val2::BigUses)])), 0),
        ("ownempty", Src::Own(tm(0, 0, 0, vec![("seller_fee_basis_points", Val2::Fee(1))])), 0),
        ("owncre0", Src::Own(tm(1, 1, 1, vec![("creators", Val2::Shares(&[]))])), 0),
        ("ownshare", Src::Own(tm(2, 1, 1, vec![("creators", Val2::Shares(&[3, 1]))])), 0),
        ("ownshare1", Src::Own(tm(2, 1, 1, vec![("creators", Val2::Shares(&[1, 2, 2]))])), 0),
        ("ownmax", Src::Own(tm(32, 10, 200, vec![("seller_fee_basis_points", Val2::Fee(2))])), 0),
        ("ownkey", Src::Own(tm(2, 1, 1, vec![("k?", any(2)), ("?z", any(1))])), 1),
        ("extmax", Src::Ext(tm(32, 10, 200, vec![])), 1),
        ("extcre", Src::Ext(tm(4, 3, 8, vec![("creators", Val2::Creators(2)), ("uses", Val2::Uses(0))])), 1),
    ]);
    for (n, src, tier) in &sources {
        let old = MplCfg { sym: "*", creators: Some(1), collection: true, uses: true, nonce: true, standard: true, tail: 300, pad: true, seed: 1, ..mc(6, 2, 4) };
        for (tn, tgt, ttier) in [
            ("new", Tgt::NoRecord, 0u8),
            ("upd0", Tgt::Mpl(MplCfg { sym: "*", pad: true, tail: 500, ..mc(4, 3, 8) }), if n.starts_with("own") { 1 } else { 0 }),
            ("updx", Tgt::Mpl(old), if matches!(*n, "spl" | "own2" | "splcol" | "owncre2") { 0 } else { 1 }),
        ] {
            let o = SyncOpt::new(Spl, src.clone(), tgt);
            let mut l = o.clone();
            l.live = true;
            let t = (*tier).max(ttier);
            add(&format!("syncspl.{n}.{tn}"), &["C15", "C16"], t, 5, Box::new(move |n| sync(&o, n)));
            if !n.starts_with("own2") && *n != "owncre0" {
                add(&format!("syncspl.live.{n}.{tn}"), &["C15"], t, 5, Box::new(move |n| sync(&l, n)));
            }
        }
    }
    // metadata of its own on a mint that points elsewhere
    for (to, p, c) in [(T22, "sync22", "C14"), (Spl, "syncspl", "C15")] {
        for (n, src) in [("ptr", Src::Ptr(MplCfg { sym: "mutable", ..mc(3, 1, 2) })), ("ext", Src::Ext(tm(2, 2, 1, vec![("k", any(1))])))] {
            let mut o = SyncOpt::new(to, src, Tgt::NoRecord);
            o.decoy = true;
            let mut l = o.clone();
            l.live = true;
            add(&format!("{p}.decoy.{n}"), &[c, "C16"], 0, 3, Box::new(move |n| sync(&o, n)));
            add(&format!("{p}.live.decoy.{n}"), &[c], 0, 3, Box::new(move |n| sync(&l, n)));
        }
    }
    // what happened to the wrapped record since it was written
    for (n, src, old) in [
        ("signed", MplCfg { creators: Some(1), sym: "verified", ..mc(3, 1, 2) }, MplCfg { creators: Some(1), sym: "verified", ..mc(3, 1, 2) }),
        ("joined", MplCfg { collection: true, sym: "collection", ..mc(3, 1, 2) }, MplCfg { collection: true, sym: "collection", ..mc(3, 1, 2) }),
        ("used", MplCfg { uses: true, sym: "mutable", ..mc(3, 1, 2) }, MplCfg { uses: true, ..mc(3, 1, 2) }),
        ("used_alike", MplCfg { uses: true, sym: "mutable", ..mc(3, 1, 2) }, MplCfg { uses: true, ..mc(3, 1, 2) }),
    ] {
        let mut o = SyncOpt::new(Spl, Src::Spl(src), Tgt::Mpl(MplCfg { pad: true, tail: 300, sym: if n == "used" { "*" } else { "verified collection mutable fee" }, ..old }));
        o.live = true;
        o.since = n;
        add(&format!("syncspl.live.since.{n}"), &["C15"], 0, 3, Box::new(move |n| sync(&o, n)));
    }
    // what does not fit into a Metaplex record
    for (n, c) in [("name", tm(33, 3, 8, vec![])), ("symbol", tm(4, 11, 8, vec![])), ("uri", tm(4, 3, 201, vec![]))] {
        for (tn, tgt) in [("new", Tgt::NoRecord), ("upd0", Tgt::Mpl(MplCfg { sym: "*", pad: true, tail: 500, ..mc(4, 3, 8) }))] {
            let t = (tn == "upd0") as u8;
            let o = SyncOpt::new(Spl, Src::Own(c.clone()), tgt);
            add(&format!("syncspl.long_{n}.{tn}"), &["C15"], t, 3, Box::new(move |n| sync(&o, n)));
        }
    }
    // ---- the library around the program
    use crate::libs;
    for n in 0..=320usize {
        let t = (n > 80 && !matches!(n, 96 | 100 | 127..=129 | 255..=257 | 300)) as u8;
        add(&format!("h.codec.{n}"), &["C18"], t, 1, Box::new(move |x| libs::codec(n, x)));
    }
    for n in (0..=12usize).chain([16, 17, 31, 32, 33, 34, 40, 64, 65]) {
        let t = if n <= 10 || (32..=34).contains(&n) { 0 } else { 1 };
        let o = {
            let mut o = Opt::new(Spl, T22, &[]);
            o.live = true;
            o
        };
        let o1 = o.clone();
        add(&format!("malformed.{n}.wrap"), &["C18"], t, 1, Box::new(move |x| libs::malformed(wrap(&o1, x), n)));
        add(&format!("malformed.{n}.unwrap"), &["C18"], t, 1, Box::new(move |x| libs::malformed(unwrap(&o, x), n)));
        let mut o = CreateOpt::new(Spl, T22, &[]);
        o.live = true;
        add(&format!("malformed.{n}.create"), &["C18"], t, 1, Box::new(move |x| libs::malformed(create(&o, x), n)));
        let mut o = CloseOpt::new(T22, &[TRANSFER_FEE_CONFIG], &[IMMUTABLE_OWNER]);
        o.live = true;
        add(&format!("malformed.{n}.close"), &["C18"], t, 1, Box::new(move |x| libs::malformed(close(&o, x), n)));
        for len in [0, 32] {
            let mut o = PointerOpt::new(Spl, &[], len);
            o.live = true;
            add(&format!("malformed.{n}.pointer{len}"), &["C18"], t, 1, Box::new(move |x| libs::malformed(pointer(&o, x), n)));
        }
        for (to, p) in [(T22, "sync22"), (Spl, "syncspl")] {
            let mut o = SyncOpt::new(to, Src::Own(tm(2, 2, 2, vec![])), Tgt::NoRecord);
            o.live = true;
            add(&format!("malformed.{n}.{p}"), &["C18"], t, 1, Box::new(move |x| libs::malformed(sync(&o, x), n)));
        }
    }
    for (i, b) in libs::BUILDERS.iter().enumerate() {
        let (ns, deep): (Vec<usize>, Vec<usize>) = match i {
            0 => (vec![0, 1], vec![]),
            1 | 2 => (vec![0, 1, 2, 3, 4, 11], vec![5, 6, 7, 8, 9, 10, 12]),
            4 | 5 => (vec![0, 1, 2, 3], vec![]),
            _ => (vec![0], vec![]),
        };
        for (t, l) in [(0, ns), (1, deep)] {
            for n in l {
                add(&format!("h.build.{b}.{n}"), &["C19"], t, 1, Box::new(move |x| libs::build(i, n, x)));
            }
        }
    }
    for (i, a) in libs::ADDRESSES.iter().enumerate() {
        add(&format!("h.addr.{a}"), &["C20"], 0, 1, Box::new(move |x| libs::address(i, false, x)));
        add(&format!("h.addr.{a}.for_program"), &["C20"], 0, 1, Box::new(move |x| libs::address(i, true, x)));
    }
    for (c, cn) in [(1u8, "compliance"), (2, "no_extension"), (3, "default")] {
        for (n, up, wp, exts, tier) in [
            ("spl.spl", Spl, Spl, vec![], 0),
            ("spl.t22", Spl, T22, vec![], 0),
            ("t22.t22", T22, T22, vec![PERMANENT_DELEGATE, METADATA_POINTER], 0),
            ("t22.spl", T22, Spl, vec![TRANSFER_FEE_CONFIG], 1),
        ] {
            let mut o = CreateOpt::new(up, wp, &exts);
            o.custom = c;
            let mut l = o.clone();
            add(&format!("h.create.{cn}.{n}"), &["C21"], tier, 5, Box::new(move |x| create(&o, x)));
            l.live = true;
            add(&format!("h.create.live.{cn}.{n}"), &["C21"], tier, 5, Box::new(move |x| create(&l, x)));
        }
    }
    for to in [T22, Spl] {
        let p = if to == T22 { "sync22" } else { "syncspl" };
        let o = SyncOpt::new(to, Src::Nothing, Tgt::NoRecord);
        add(&format!("{p}.unanswered"), &["C16"], 0, 3, Box::new(move |n| sync(&o, n)));
        let mut o = SyncOpt::new(to, Src::Own(tm(2, 2, 2, vec![])), Tgt::NoRecord);
        o.fake = true;
        add(&format!("{p}.fake_program"), &["C16"], 0, 3, Box::new(move |n| sync(&o, n)));
        for k in 1..=(if to == T22 { 4 } else { 7 }) {
            let mut o = SyncOpt::new(to, Src::Own(tm(2, 2, 2, vec![])), Tgt::NoRecord);
            o.cut = k;
            add(&format!("{p}.cut{k}"), &["C16"], 0, 1, Box::new(move |n| sync(&o, n)));
        }
        let mut o = SyncOpt::new(to, Src::Spl(mc(2, 2, 2)), Tgt::NoRecord);
        o.cut = 1;
        add(&format!("{p}.nosource"), &["C16"], 0, 1, Box::new(move |n| sync(&o, n)));
        for (x, al) in [("umint_wmint", ("unwrapped_mint", "wrapped_mint")), ("source_umint", ("source", "unwrapped_mint")), ("source_wmint", ("source", "wrapped_mint")), ("source_authority", ("source", "authority"))] {
            for (c, s) in [("ext", Src::Ext(tm(2, 1, 1, vec![]))), ("own", Src::Own(tm(2, 1, 1, vec![])))] {
                if c == "own" && x != "umint_wmint" {
                    continue;
                }
                let mut o = SyncOpt::new(to, s, Tgt::NoRecord);
                o.alias = vec![al];
                add(&format!("{p}.alias.{x}.{c}"), &["C16"], 0, 2, Box::new(move |n| sync(&o, n)));
            }
        }
    }
    // backing is about every instruction
    for x in v.iter_mut() {
        if x.name.starts_with("h.") || x.name.contains(".live.") {
            continue;
        }
        if x.props.iter().any(|p| matches!(*p, "C01" | "C02" | "C09" | "C10" | "C12" | "C16" | "C17")) {
            x.props.push("C22");
        }
    }
    v
}
