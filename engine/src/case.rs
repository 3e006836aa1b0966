//! Concrete transactions taken from a solver model, for replay on the real program.
use crate::expr::*;
use crate::meta::MdVal;
use crate::scen::Meta;
use crate::vm::*;
use crate::world::*;
use serde_json::{json, Value};

fn hx(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn bytes(ev: &mut Eval, v: &[E]) -> String {
    let b: Vec<u8> = v.iter().map(|e| ev.get(*e) as u8).collect();
    hx(&b)
}

fn md(ev: &mut Eval, m: &MdVal) -> Value {
    match m {
        MdVal::Payer => json!({"kind": "payer"}),
        MdVal::T22(t) => json!({
            "kind": "token", "ua": bytes(ev, &t.ua), "mint": bytes(ev, &t.mint),
            "name": bytes(ev, &t.name), "symbol": bytes(ev, &t.symbol), "uri": bytes(ev, &t.uri),
            "extra": t.extra.iter().map(|(k, v)| json!([bytes(ev, k), bytes(ev, v)])).collect::<Vec<_>>(),
        }),
        MdVal::Mpl(r) => {
            let d = &r.data;
            let creators = match &d.creators {
                None => Value::Null,
                Some(c) => c.iter().map(|(k, v, s)| json!([bytes(ev, k), ev.get(*v) as u64, ev.get(*s) as u64])).collect(),
            };
            let collection = match &d.collection {
                None => Value::Null,
                Some((v, k)) => json!([ev.get(*v) as u64, bytes(ev, k)]),
            };
            let uses = match &d.uses {
                None => Value::Null,
                Some((m, a, b)) => json!([ev.get(*m) as u64, ev.get(*a) as u64, ev.get(*b) as u64]),
            };
            json!({
                "kind": "mpl", "ua": bytes(ev, &r.ua), "mint": bytes(ev, &r.mint),
                "name": bytes(ev, &d.name), "symbol": bytes(ev, &d.symbol), "uri": bytes(ev, &d.uri),
                "fee": ev.get(d.fee) as u64, "creators": creators, "collection": collection, "uses": uses,
                "primary": ev.get(r.primary) as u64, "mutable": ev.get(r.mutable) as u64,
            })
        }
    }
}

/// the transaction a model describes, with the outcome predicted for it
pub fn build(e: &Engine, st: &State, o: &Outcome, m: &Meta) -> Value {
    let w = &e.world;
    let mut ev = Eval::new(&st.model);
    let mut pdas = vec![];
    for p in st.pdas.iter() {
        let raw = p.cat.last().map(|l| width(*l) == 1).unwrap_or(false);
        let n = if raw { p.cat.len() - 1 } else { p.cat.len() };
        pdas.push(json!({
            "cat": bytes(&mut ev, &p.cat[..n]), "program": bytes(&mut ev, &p.program), "tag": hx(&p.tag), "raw": raw,
        }));
    }
    let known = [ids::spl(), ids::t22(), ids::ata(), ids::mpl(), ids::system(), ids::wrap()];
    let stubs: Vec<String> = w
        .accts
        .iter()
        .filter(|a| a.exec && !known.iter().any(|k| a.key == kk(*k)))
        .map(|a| bytes(&mut ev, &a.key))
        .collect();
    let accounts: Vec<Value> = w
        .accts
        .iter()
        .map(|a| {
            json!({
                "name": a.name, "key": bytes(&mut ev, &a.key), "owner": bytes(&mut ev, &a.st.owner),
                "lamports": (ev.get(a.st.lamports) as u64).to_string(),
                "data": bytes(&mut ev, &a.st.data),
                "signer": ev.get(a.signer) == 1, "writable": ev.get(a.writable) == 1, "exec": a.exec,
            })
        })
        .collect();
    let post: Vec<Value> = st
        .accts
        .iter()
        .map(|a| {
            json!({
                "owner": bytes(&mut ev, &a.owner), "lamports": (ev.get(a.lamports) as u64).to_string(),
                "data": if a.opaque { String::new() } else { bytes(&mut ev, &a.data) }, "opaque": a.opaque,
                "md": a.md.as_ref().map(|m| md(&mut ev, m)).unwrap_or(Value::Null),
            })
        })
        .collect();
    let cpis: Vec<Value> = st
        .cpis
        .iter()
        .map(|c| {
            json!({
                "program": bytes(&mut ev, &c.program), "data": bytes(&mut ev, &c.data), "kind": c.kind,
                "metas": c.metas.iter().map(|x| json!([bytes(&mut ev, &x.key), ev.get(x.signer) == 1, ev.get(x.writable) == 1])).collect::<Vec<_>>(),
            })
        })
        .collect();
    let needs: Value = match &m.hook {
        None => Value::Null,
        Some(h) => {
            let mut v = vec![json!([bytes(&mut ev, &w.accts[h.validation].key), false])];
            for (a, _, wr) in &h.extra {
                v.push(json!([bytes(&mut ev, &w.accts[*a].key), wr]));
            }
            Value::Array(v)
        }
    };
    let ret = match &w.other.ret {
        Some((k, b)) => json!({"program": bytes(&mut ev, k), "data": bytes(&mut ev, b)}),
        None => Value::Null,
    };
    json!({
        "scenario": m.name,
        "program_id": hx(&w.program_id),
        "clock": {"epoch": (ev.get(w.epoch) as u64).to_string(), "slot": "1"},
        "pdas": pdas, "stubs": stubs, "stub_ok": ev.get(w.hook_ok) == 1, "stub_return": ret, "stub_needs": needs,
        "accounts": accounts, "slots": w.slots, "ix": bytes(&mut ev, &w.ix),
        "expect": {
            "ok": o.ok(),
            "code": match o { Outcome::Exit(c) if *c != 0 => Value::String(c.to_string()), _ => Value::Null },
            "label": o.label(),
            "accounts": post,
            "ret": match (&st.retdata, o.ok() && m.kind.starts_with("lib.")) { (Some((_, b)), true) => Value::String(bytes(&mut ev, b)), _ => Value::Null },
            "cpis": if o.ok() { Value::Array(cpis) } else { Value::Null },
        },
    })
}
