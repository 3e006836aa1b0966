//! Runs concrete transactions produced by the symbolic executor against the real
//! program ELF, the real token programs and the real runtime, and compares.
use {
    mollusk_svm::{program::loader_keys, Mollusk},
    serde_json::{json, Value},
    solana_account::Account,
    solana_instruction::{AccountMeta, Instruction},
    solana_transaction_context::InstructionAccount,
    solana_program_runtime::{declare_process_instruction, invoke_context::InvokeContext},
    solana_pubkey::Pubkey,
    std::cell::RefCell,
};

#[derive(Clone)]
struct StubCfg {
    ok: bool,
    /// return data: program it is attributed to, bytes
    ret: Option<(Pubkey, Vec<u8>)>,
    /// accounts it must be handed, and whether they must be writable
    needs: Vec<(Pubkey, bool)>,
}
thread_local! {
    /// what a stand-in program does
    static STUB: RefCell<StubCfg> = const { RefCell::new(StubCfg { ok: true, ret: None, needs: vec![] }) };
}

type Call = (Pubkey, Vec<u8>, Vec<(Pubkey, bool, bool)>);
thread_local! {
    /// calls the program itself made
    static CALLS: RefCell<Vec<Call>> = const { RefCell::new(vec![]) };
}
struct Inspect;
impl mollusk_svm::InvocationInspectCallback for Inspect {
    fn before_invocation(
        &self,
        _: &Mollusk,
        _: &Pubkey,
        _: &[u8],
        _: &[InstructionAccount],
        _: &InvokeContext,
    ) {
    }
    fn after_invocation(&self, _: &Mollusk, ic: &InvokeContext, _: bool) {
        let tc = &ic.transaction_context;
        let mut v = vec![];
        for i in 0..tc.get_instruction_trace_length() {
            let Ok(c) = tc.get_instruction_context_at_index_in_trace(i) else { continue };
            if c.get_stack_height() != 2 {
                continue;
            }
            let n = c.get_number_of_instruction_accounts();
            let metas = (0..n)
                .map(|k| {
                    (
                        *c.get_key_of_instruction_account(k).unwrap(),
                        c.is_instruction_account_signer(k).unwrap(),
                        c.is_instruction_account_writable(k).unwrap(),
                    )
                })
                .collect();
            v.push((*c.get_program_key().unwrap(), c.get_instruction_data().to_vec(), metas));
        }
        CALLS.with(|c| *c.borrow_mut() = v);
    }
}

declare_process_instruction!(Stub, 1, |ic| {
    let cfg = STUB.with(|s| s.borrow().clone());
    if !cfg.ok {
        return Err(solana_instruction::error::InstructionError::InvalidError);
    }
    {
        let tc = &ic.transaction_context;
        let c = tc.get_current_instruction_context()?;
        for (k, w) in &cfg.needs {
            let n = c.get_number_of_instruction_accounts();
            let hit = (0..n).any(|i| {
                c.get_key_of_instruction_account(i).map(|x| x == k).unwrap_or(false)
                    && (!*w || c.is_instruction_account_writable(i).unwrap_or(false))
            });
            if !hit {
                return Err(solana_instruction::error::InstructionError::MissingAccount);
            }
        }
    }
    if let Some((id, r)) = cfg.ret {
        ic.transaction_context.set_return_data(id, r)?;
    }
    Ok(())
});

fn hex(v: &Value) -> Vec<u8> {
    let s = v.as_str().unwrap();
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn to_hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn key(v: &[u8]) -> Pubkey {
    Pubkey::new_from_array(v.try_into().unwrap())
}
fn num(v: &Value) -> u64 {
    v.as_str().map(|s| s.parse().unwrap()).or(v.as_u64()).unwrap()
}
fn subst(buf: &mut [u8], map: &[([u8; 32], [u8; 32])]) {
    if buf.len() < 32 {
        return;
    }
    for i in 0..=buf.len() - 32 {
        for (t, r) in map {
            if buf[i..i + 32] == t[..] {
                buf[i..i + 32].copy_from_slice(r);
            }
        }
    }
}

fn base(elf: &[u8], program: &Pubkey, fixtures: &str) -> Mollusk {
    let mut m = Mollusk::default();
    m.invocation_inspect_callback = Box::new(Inspect);
    m.add_program_with_loader_and_elf(program, &loader_keys::LOADER_V3, elf);
    mollusk_svm_programs_token::token::add_program(&mut m);
    mollusk_svm_programs_token::associated_token::add_program(&mut m);
    let f = |n: &str| std::fs::read(format!("{fixtures}/{n}.so")).unwrap_or_else(|e| panic!("{fixtures}/{n}.so: {e}"));
    m.add_program_with_loader_and_elf(&mollusk_svm_programs_token::token2022::ID, &loader_keys::LOADER_V3, &f("spl_token_2022"));
    let mpl: Pubkey = "metaqbxxUerdq28cj1RbAWkYQm3ybzjb6a8bt518x1s".parse().unwrap();
    m.add_program_with_loader_and_elf(&mpl, &loader_keys::LOADER_V3, &f("mpl_token_metadata"));
    m.compute_budget.compute_unit_limit = 100_000_000;
    m.compute_budget.heap_size = 256 * 1024;
    m
}

/// the account holds the expected metadata
fn same_md(m: &Value, data: &[u8], fix: &dyn Fn(&Value) -> Vec<u8>) -> Result<(), String> {
    struct P<'a>(&'a [u8], usize);
    impl P<'_> {
        fn n(&mut self, k: usize) -> Result<Vec<u8>, String> {
            let r = self.0.get(self.1..self.1 + k).ok_or("metadata cut short")?.to_vec();
            self.1 += k;
            Ok(r)
        }
        fn u(&mut self, k: usize) -> Result<u64, String> {
            let mut b = self.n(k)?;
            b.resize(8, 0);
            Ok(u64::from_le_bytes(b.try_into().unwrap()))
        }
        fn s(&mut self) -> Result<Vec<u8>, String> {
            let k = self.u(4)? as usize;
            self.n(k)
        }
    }
    let trim = |mut v: Vec<u8>| {
        while v.last() == Some(&0) {
            v.pop();
        }
        v
    };
    let cmp = |what: &str, a: Vec<u8>, b: Vec<u8>| if a == b { Ok(()) } else { Err(format!("metadata {what}: {} expected {}", to_hex(&a), to_hex(&b))) };
    match m["kind"].as_str().unwrap() {
        "token" => {
            let mut o = 166;
            let mut rec = None;
            while o + 4 <= data.len() {
                let t = u16::from_le_bytes([data[o], data[o + 1]]);
                let l = u16::from_le_bytes([data[o + 2], data[o + 3]]) as usize;
                if t == 0 {
                    break;
                }
                if t == 19 {
                    rec = data.get(o + 4..o + 4 + l);
                }
                o += 4 + l;
            }
            let mut p = P(rec.ok_or("no metadata")?, 0);
            cmp("authority", p.n(32)?, fix(&m["ua"]))?;
            cmp("mint", p.n(32)?, fix(&m["mint"]))?;
            for f in ["name", "symbol", "uri"] {
                cmp(f, p.s()?, fix(&m[f]))?;
            }
            let k = p.u(4)?;
            let mut got = vec![];
            for _ in 0..k {
                got.push((p.s()?, p.s()?));
            }
            let mut want: Vec<_> = m["extra"].as_array().unwrap().iter().map(|x| (fix(&x[0]), fix(&x[1]))).collect();
            got.sort();
            want.sort();
            if got != want {
                return Err(format!("additional metadata {got:?} expected {want:?}"));
            }
        }
        "mpl" => {
            let mut p = P(data, 1);
            if data.first() != Some(&4) {
                return Err("not a metadata record".into());
            }
            cmp("authority", p.n(32)?, fix(&m["ua"]))?;
            cmp("mint", p.n(32)?, fix(&m["mint"]))?;
            for f in ["name", "symbol", "uri"] {
                cmp(f, trim(p.s()?), trim(fix(&m[f])))?;
            }
            let num = |what: &str, a: u64, b: &Value| if Some(a) == b.as_u64() { Ok(()) } else { Err(format!("metadata {what}: {a} expected {b}")) };
            num("fee", p.u(2)?, &m["fee"])?;
            let creators = p.u(1)? == 1;
            if creators == m["creators"].is_null() {
                return Err("creators".into());
            }
            if creators {
                let k = p.u(4)?;
                num("creators", k, &Value::from(m["creators"].as_array().unwrap().len()))?;
                for c in m["creators"].as_array().unwrap() {
                    cmp("creator", p.n(32)?, fix(&c[0]))?;
                    num("creator verified", p.u(1)?, &c[1])?;
                    num("creator share", p.u(1)?, &c[2])?;
                }
            }
            num("primary", p.u(1)?, &m["primary"])?;
            num("mutable", p.u(1)?, &m["mutable"])?;
            if p.u(1)? == 1 {
                p.n(1)?;
            }
            if p.u(1)? == 1 {
                p.n(1)?;
            }
            let col = p.u(1)? == 1;
            if col == m["collection"].is_null() {
                return Err("collection".into());
            }
            if col {
                num("collection verified", p.u(1)?, &m["collection"][0])?;
                cmp("collection", p.n(32)?, fix(&m["collection"][1]))?;
            }
            let uses = p.u(1)? == 1;
            if uses == m["uses"].is_null() {
                return Err("uses".into());
            }
            if uses {
                num("use method", p.u(1)?, &m["uses"][0])?;
                num("remaining", p.u(8)?, &m["uses"][1])?;
                num("total", p.u(8)?, &m["uses"][2])?;
            }
        }
        _ => {}
    }
    Ok(())
}

fn run(c: &Value, elf: &[u8], fixtures: &str) -> Value {
    let program = key(&hex(&c["program_id"]));
    let mut m = base(elf, &program, fixtures);
    if let Some(h) = c.get("heap").and_then(|h| h.as_u64()) {
        m.compute_budget.heap_size = h as u32;
    } else {
        m.compute_budget.heap_size = 32 * 1024;
    }
    m.sysvars.clock.epoch = num(&c["clock"]["epoch"]);
    m.sysvars.clock.slot = num(&c["clock"]["slot"]);
    // derived addresses; one whose seeds hold another derived address comes after it
    let mut map: Vec<([u8; 32], [u8; 32])> = vec![];
    let tag = |p: &Value| -> [u8; 32] { hex(&p["tag"]).try_into().unwrap() };
    let mut todo: Vec<&Value> = c["pdas"].as_array().unwrap().iter().collect();
    while !todo.is_empty() {
        let waits = |p: &Value| {
            let holds = |b: &[u8], t: &[u8; 32]| b.windows(32).any(|w| w == t);
            todo.iter().any(|q| {
                let t = tag(q);
                t != tag(p) && !map.iter().any(|x| x.0 == t) && (holds(&hex(&p["cat"]), &t) || holds(&hex(&p["program"]), &t))
            })
        };
        let at = todo.iter().position(|p| !waits(p)).unwrap_or(0);
        let p = todo.remove(at);
        let mut cat = hex(&p["cat"]);
        let mut prog = hex(&p["program"]);
        subst(&mut cat, &map);
        subst(&mut prog, &map);
        let tag = tag(p);
        if map.iter().any(|x| x.0 == tag) {
            continue;
        }
        let chunks: Vec<&[u8]> = cat.chunks(32).collect();
        let real = if p["raw"].as_bool().unwrap() {
            match Pubkey::create_program_address(&chunks, &key(&prog)) {
                Ok(k) => k,
                Err(_) => continue,
            }
        } else {
            Pubkey::find_program_address(&chunks, &key(&prog)).0
        };
        map.push((tag, real.to_bytes()));
    }
    let fixkey = |v: &Value| {
        let mut k = hex(v);
        subst(&mut k, &map);
        key(&k)
    };
    let fixbuf = |v: &Value| {
        let mut k = hex(v);
        subst(&mut k, &map);
        k
    };
    STUB.with(|s| {
        let ret = c.get("stub_return").filter(|v| !v.is_null()).map(|v| (fixkey(&v["program"]), fixbuf(&v["data"])));
        let needs = c
            .get("stub_needs")
            .and_then(|v| v.as_array())
            .map(|v| v.iter().map(|x| (fixkey(&x[0]), x[1].as_bool().unwrap())).collect())
            .unwrap_or_default();
        *s.borrow_mut() = StubCfg { ok: c["stub_ok"].as_bool().unwrap_or(true), ret, needs }
    });
    for s in c["stubs"].as_array().unwrap() {
        let id = fixkey(s);
        if id.to_bytes() == [0; 32] {
            continue;
        }
        m.program_cache.add_builtin(mollusk_svm::program::Builtin {
            program_id: id,
            name: "stub",
            entrypoint: Stub::vm,
        });
    }
    let mut accounts: Vec<(Pubkey, Account)> = vec![];
    let mut metas = vec![];
    let accs = c["accounts"].as_array().unwrap();
    for a in accs {
        let k = fixkey(&a["key"]);
        let acc = if a["exec"].as_bool().unwrap() {
            if let Some(elf) = m.program_cache.load_program(&k) {
                Account { lamports: 1_000_000_000, data: vec![], owner: elf.account_owner(), executable: true, rent_epoch: u64::MAX }
            } else {
                Account { lamports: 1_000_000_000, data: vec![], owner: loader_keys::LOADER_V3, executable: true, rent_epoch: u64::MAX }
            }
        } else {
            Account {
                lamports: num(&a["lamports"]),
                data: fixbuf(&a["data"]),
                owner: fixkey(&a["owner"]),
                executable: false,
                rent_epoch: u64::MAX,
            }
        };
        accounts.push((k, acc));
    }
    for s in c["slots"].as_array().unwrap() {
        let i = s.as_u64().unwrap() as usize;
        let a = &accs[i];
        metas.push(AccountMeta {
            pubkey: accounts[i].0,
            is_signer: a["signer"].as_bool().unwrap(),
            is_writable: a["writable"].as_bool().unwrap(),
        });
    }
    let ix = Instruction { program_id: program, accounts: metas, data: fixbuf(&c["ix"]) };
    let r = m.process_instruction(&ix, &accounts);
    let ok = r.program_result.is_ok();
    let mut diffs = vec![];
    let mut cdiffs: Vec<String> = vec![];
    let mut odiff = false;
    let e = &c["expect"];
    let want_ok = e["ok"].as_bool().unwrap();
    if want_ok != ok {
        odiff = true;
        diffs.push(format!("expected {} but the program {}: {:?}", e["label"], if ok { "succeeded" } else { "failed" }, r.program_result));
    } else if ok {
        for (i, x) in e["accounts"].as_array().unwrap().iter().enumerate() {
            if accs[i]["exec"].as_bool().unwrap() {
                continue;
            }
            let (k, a) = match r.resulting_accounts.iter().find(|y| y.0 == accounts[i].0) {
                Some(y) => y,
                None => continue,
            };
            let name = accs[i]["name"].as_str().unwrap();
            if a.lamports != num(&x["lamports"]) && !x["opaque"].as_bool().unwrap() {
                diffs.push(format!("{name} {k}: lamports {} expected {}", a.lamports, x["lamports"]));
            }
            if !x["md"].is_null() {
                if let Err(w) = same_md(&x["md"], &a.data, &fixbuf) {
                    diffs.push(format!("{name} {k}: {w}"));
                }
            }
            // an emptied account is removed by the runtime
            if a.lamports == 0 && num(&x["lamports"]) == 0 {
                continue;
            }
            if a.owner != fixkey(&x["owner"]) {
                diffs.push(format!("{name} {k}: owner {}", a.owner));
            }
            if !x["opaque"].as_bool().unwrap() {
                let d = fixbuf(&x["data"]);
                if a.data != d {
                    let p = a.data.iter().zip(&d).position(|(x, y)| x != y);
                    diffs.push(format!("{name} {k}: data differs ({} bytes, expected {}; first at {:?})", a.data.len(), d.len(), p));
                }
            }
        }
        if e["ret"].is_string() {
            let w = fixbuf(&e["ret"]);
            if w != r.return_data {
                diffs.push(format!("returned {}, expected {}", to_hex(&r.return_data), to_hex(&w)));
            }
        }
        // nested calls made by the program itself
        if let Some(want) = e["cpis"].as_array() {
            let got = CALLS.with(|c| c.borrow().clone());
            let want: Vec<Call> = want
                .iter()
                .map(|w| {
                    let metas = w["metas"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|m| (fixkey(&m[0]), m[1].as_bool().unwrap(), m[2].as_bool().unwrap()))
                        .collect();
                    (fixkey(&w["program"]), fixbuf(&w["data"]), metas)
                })
                .collect();
            if got.len() != want.len() {
                cdiffs.push(format!("{} nested calls, expected {}", got.len(), want.len()));
            } else {
                for (g, w) in got.iter().zip(&want) {
                    if g != w {
                        cdiffs.push(format!("nested call differs: {} {} {:?} / {} {} {:?}", g.0, to_hex(&g.1), g.2, w.0, to_hex(&w.1), w.2));
                    }
                }
            }
        }
    } else if let Some(code) = e["code"].as_str() {
        let code: u64 = code.parse().unwrap();
        let got: u64 = match &r.program_result {
            mollusk_svm::result::ProgramResult::Failure(f) => u64::from(f.clone()),
            _ => 0,
        };
        if got != code {
            diffs.push(format!("error {:#x}, expected {:#x} ({:?})", got, code, r.program_result));
        }
    }
    json!({
        "ok": ok,
        "result": format!("{:?}", r.program_result),
        "outcome_agrees": !odiff,
        "state_agrees": diffs.is_empty(),
        "calls_agree": !odiff && cdiffs.is_empty(),
        "agrees": diffs.is_empty() && cdiffs.is_empty(),
        "diffs": diffs.into_iter().chain(cdiffs).collect::<Vec<_>>(),
        "units": r.compute_units_consumed,
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    // wrapreplay ELF FIXTURES CASES.json OUT.json
    let elf = std::fs::read(&a[1]).expect("elf");
    let cases: Value = serde_json::from_slice(&std::fs::read(&a[3]).expect("cases")).expect("json");
    let mut out = vec![];
    for c in cases.as_array().unwrap() {
        if std::env::var("LOGS").is_err() {
            std::env::set_var("RUST_LOG", "off");
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(c, &elf, &a[2])));
        out.push(match r {
            Ok(v) => v,
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
                json!({"ok": false, "agrees": false, "result": "replay panicked", "diffs": [m]})
            }
        });
    }
    std::fs::write(&a[4], serde_json::to_string_pretty(&Value::Array(out)).unwrap()).unwrap();
}
