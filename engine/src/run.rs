//! Explores one scenario, decides the assertions of one property at the end of every path,
//! and writes a report.
use crate::expr::*;
use crate::props;
use crate::scen::*;
use crate::solver::Res;
use crate::vm::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::rc::Rc;

fn merge_model(st: &State, m: &Model) -> Rc<Model> {
    let mut full = (*st.model).clone();
    for (k, v) in m.iter() {
        full.insert(*k, *v);
    }
    Rc::new(full)
}

/// Derivations in the model that feed each other in a circle cannot exist (the hash would have to
/// have a chosen fixed point); rule each such circle out until the model has none.
/// None: no model satisfies `extra` without one.
fn uncycle(e: &mut Engine, st: &mut State, extra: E) -> Option<()> {
    for _ in 0..20 {
        let pdas = st.pdas.clone();
        let n = pdas.len();
        let mut ev = Eval::new(&st.model);
        // edge i -> j: an address in the seeds of i is the address of j
        let mut edge = vec![vec![None; n]; n];
        for (i, p) in pdas.iter().enumerate() {
            let cat = &p.cat;
            let mut end = cat.len();
            while end >= 32 {
                let win = &cat[end - 32..end];
                let v: Vec<u8> = win.iter().map(|x| ev.get(*x) as u8).collect();
                for (j, q) in pdas.iter().enumerate() {
                    if v[..] == q.tag[..] && q.cat.last().map(|l| width(*l) != 1).unwrap_or(true) {
                        edge[i][j] = Some(bytes_eq(win, &q.tag.iter().map(|b| konst(8, *b as u128)).collect::<Vec<_>>()));
                    }
                }
                end -= 32;
                if end < 32 {
                    break;
                }
            }
        }
        drop(ev);
        // shortest circle through each node
        let mut found = None;
        for s in 0..n {
            let mut prev = vec![usize::MAX; n];
            let mut q = std::collections::VecDeque::from([s]);
            'b: while let Some(x) = q.pop_front() {
                for y in 0..n {
                    if edge[x][y].is_some() {
                        if y == s {
                            let mut c = vec![edge[x][y].unwrap()];
                            let mut z = x;
                            while z != s {
                                c.push(edge[prev[z]][z].unwrap());
                                z = prev[z];
                            }
                            found = Some(all(&c));
                            break 'b;
                        }
                        if prev[y] == usize::MAX {
                            prev[y] = x;
                            q.push_back(y);
                        }
                    }
                }
            }
            if found.is_some() {
                break;
            }
        }
        let c = match found {
            None => return Some(()),
            Some(c) => not(c),
        };
        if is_false(c) {
            return None;
        }
        // together: a constraint of its own would not be looked at with `extra`
        let r = e.scheck(st, and(c, extra));
        e.add_con(st, c);
        match r {
            Res::Sat(m) => st.model = merge_model(st, &m),
            Res::Unsat => return None,
            Res::Unknown => return Some(()),
        }
    }
    Some(())
}

pub fn scenario(prog: Rc<Program>, s: Scn, prop: &str, wall: f64) -> Value {
    let t0 = std::time::Instant::now();
    let meta = s.meta;
    let Some((mut eng, st)) = start(prog.clone(), s.world) else {
        return json!({"scenario": meta.name, "error": "the scenario's assumptions are unsatisfiable"});
    };
    eng.limits.max_wall_s = wall;
    eng.solver.dump_dir = std::env::var("DUMP").ok();
    let mut labels = BTreeMap::<String, usize>::new();
    let mut per_id = BTreeMap::<String, (u64, u64)>::new(); // assertion -> checked, discharged by the solver
    let mut fails: Vec<Value> = vec![];
    let mut fail_ids = BTreeMap::<String, usize>::new();
    let mut wits: Vec<Value> = vec![];
    let mut wit_n = BTreeMap::<String, usize>::new();
    let mut incon: Vec<String> = vec![];
    let mut nfail = 0u64;
    let mut oks = 0u64;
    let mut trivial = 0u64;
    let mut solved = 0u64;
    let paths = eng.explore(st, |e, mut st, o| {
        let l = o.label();
        *labels.entry(l.clone()).or_default() += 1;
        if let Outcome::Incon(w) = &o {
            incon.push(w.clone());
            return;
        }
        if uncycle(e, &mut st, tru()).is_none() {
            *labels.get_mut(&l).unwrap() -= 1;
            *labels.entry("impossible: circular derivation".into()).or_default() += 1;
            return;
        }
        if o.ok() {
            oks += 1;
        }
        let mut asserts = props::assertions(prop, e, &mut st, &o, &meta);
        // everything at once first
        let conj = all(&asserts.iter().map(|a| a.cond).collect::<Vec<_>>());
        let n = asserts.len() as u64;
        let mut good = is_true(conj);
        if good {
            trivial += n;
        } else if !is_false(conj) && eval(&st.model, conj) == 1 {
            if std::env::var("SLOW").is_ok() {
                for a in &asserts { if !is_true(a.cond) { eprintln!("A {} {}", a.id, show(a.cond, 12)); } }
            }
            if let Res::Unsat = e.scheck(&st, not(conj)) {
                good = true;
                solved += n;
            }
        }
        for a in asserts.drain(..) {
            let s = per_id.entry(a.id.clone()).or_default();
            s.0 += 1;
            if good {
                s.1 += 1;
                continue;
            }
            if is_true(a.cond) {
                s.1 += 1;
                trivial += 1;
                continue;
            }
            let neg = not(a.cond);
            let r = if eval(&st.model, neg) == 1 { Res::Sat(st.model.clone()) } else { e.scheck(&st, neg) };
            if std::env::var("SLOW").is_ok() {
                eprintln!("assert {} {}", a.id, show(a.cond, 10));
            }
            match r {
                Res::Unsat => {
                    s.1 += 1;
                    solved += 1;
                }
                Res::Unknown => incon.push(format!("solver timeout on \"{}\"", a.id)),
                Res::Sat(m) => {
                    let mut s2 = st.clone();
                    s2.model = merge_model(&st, &m);
                    if uncycle(e, &mut s2, neg).is_none() {
                        s.1 += 1;
                        solved += 1;
                        continue;
                    }
                    nfail += 1;
                    let k = fail_ids.entry(format!("{} / {l}", a.id)).or_default();
                    *k += 1;
                    if *k > 3 || fails.len() > 40 {
                        continue;
                    }
                    let holds = s2.cons.iter().all(|c| eval(&s2.model, *c) == 1) && eval(&s2.model, a.cond) == 0;
                    let mut c = crate::case::build(e, &s2, &o, &meta);
                    c["assertion"] = a.id.clone().into();
                    c["judge"] = a.judge.name().into();
                    c["model_checked"] = holds.into();
                    fails.push(c);
                }
            }
        }
        let k = wit_n.entry(format!("{l}/{}", st.cpis.len())).or_default();
        if *k < if o.ok() { 3 } else { 1 } && wits.len() < 40 && st.cons.iter().all(|c| eval(&st.model, *c) == 1) {
            *k += 1;
            wits.push(crate::case::build(e, &st, &o, &meta));
        }
    });
    let funcs = {
        let mut ent: Vec<usize> = prog.func_entries.iter().cloned().collect();
        ent.sort();
        ent.iter().filter(|f| eng.covered.get(**f).copied().unwrap_or(false)).count()
    };
    let insns = eng.covered.iter().filter(|c| **c).count();
    if std::env::var("SLOW").is_ok() {
        let mut f: Vec<_> = eng.trace_forks.iter().collect();
        f.sort_by_key(|x| std::cmp::Reverse(*x.1));
        eprintln!("forks by pc: {:?}", &f[..f.len().min(12)]);
    }
    let s = &eng.solver.stats;
    incon.sort();
    incon.dedup();
    json!({
        "scenario": meta.name, "kind": meta.kind, "live": meta.live, "must_fail": meta.must_fail,
        "paths": paths, "success_paths": oks, "labels": labels, "forks": eng.forks, "steps": eng.total_steps,
        "queries": s.queries, "cached": s.cached, "unknown": s.unknown, "solver_s": s.time_s, "solver_max_s": s.max_s,
        "assertions": per_id.iter().map(|(k, v)| json!({"id": k, "checked": v.0, "held": v.1})).collect::<Vec<_>>(),
        "assertion_instances": per_id.values().map(|v| v.0).sum::<u64>(),
        "by_simplification": trivial, "by_solver": solved, "failed": nfail,
        "functions_covered": funcs, "instructions_covered": insns, "instructions_total": prog.insns.len(),
        "incon": incon, "fails": fails, "witnesses": wits, "wall_s": t0.elapsed().as_secs_f64(),
    })
}
