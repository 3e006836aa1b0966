#![allow(dead_code)]
mod case;
mod cpi;
mod expr;
mod mem;
mod libs;
mod meta;
mod props;
mod props2;
mod reg;
mod run;
mod scen;
mod scen2;
mod solver;
mod sys;
mod tok;
mod vm;
mod world;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("dis") => {
            let p = vm::Program::load(&std::fs::read(&a[2]).unwrap());
            println!("insns {} entry {} funcs {} hooks {:?}", p.insns.len(), p.entry, p.func_entries.len(), p.hooks);
            let s: usize = a.get(3).map(|x| x.parse().unwrap()).unwrap_or(p.entry);
            let n: usize = a.get(4).map(|x| x.parse().unwrap()).unwrap_or(20);
            for i in s..(s + n).min(p.insns.len()) {
                let t = if p.insns[i].opc == 0x85 { format!("-> {:?} {:?}", p.calls.get(&(p.insns[i].imm as u32)).or(p.calls.get(&((i as i64 + 1 + p.insns[i].imm) as u32))), p.syscalls.get(&(p.insns[i].imm as u32))) } else { String::new() };
                println!("{i} {:?} live {:011b} {t}", p.insns[i], p.live[i]);
            }
        }
        // find the three builtins by their first instructions and record their bodies
        Some("sig") => {
            let p = vm::Program::load(&std::fs::read(&a[2]).unwrap());
            let mut fs: Vec<usize> = p.func_entries.iter().cloned().collect();
            fs.sort();
            let pre: [(&str, Vec<(u8, usize, usize, i64)>); 3] = [
                ("memcmp", vec![(0x25, 3, 0, 32)]),
                ("__multi3", vec![(0xbf, 5, 2, 0), (0x2f, 5, 3, 0), (0xbf, 0, 1, 0), (0x77, 0, 0, 32), (0xbf, 6, 3, 0)]),
                ("__udivti3", vec![(0xbf, 6, 3, 0), (0x55, 4, 0, 0)]),
            ];
            let mut out = serde_json::Map::new();
            for (n, pat) in pre {
                for (k, f) in fs.iter().enumerate() {
                    let m = pat.iter().enumerate().all(|(j, w)| {
                        let i = p.insns[f + j];
                        i.opc == w.0 && i.dst == w.1 && i.src == w.2 && (w.3 == i.imm)
                    });
                    if m {
                        // everything reachable inside the function
                        let mut seen = std::collections::BTreeSet::new();
                        let mut w = vec![*f];
                        while let Some(x) = w.pop() {
                            if !seen.insert(x) {
                                continue;
                            }
                            let i = p.insns[x];
                            if i.opc == 0x95 {
                                continue;
                            }
                            if i.opc == 0x18 && (i.imm as u64) >> 32 == 1 && i.imm as u64 & 0xffff_ffff > 0 {
                                // panic location: does not return
                                seen.remove(&x);
                                continue;
                            }
                            if i.opc == 0x18 {
                                w.push(x + 2);
                                continue;
                            }
                            let cls = i.opc & 7;
                            if cls == 5 && i.opc != 0x85 && i.opc != 0x8d {
                                w.push((x as i64 + 1 + i.off) as usize);
                                if i.opc == 0x05 {
                                    continue;
                                }
                            }
                            w.push(x + 1);
                        }
                        let e = seen.iter().max().unwrap() + 1;
                        let _ = k;
                        eprintln!("{n} at {f}..{e}");
                        let b: Vec<serde_json::Value> =
                            (*f..e).map(|x| p.insns[x]).map(|i| serde_json::json!([i.opc, i.dst, i.src, i.off, i.imm])).collect();
                        out.insert(n.into(), b.into());
                    }
                }
            }
            println!("{}", serde_json::to_string(&out).unwrap());
        }
        // run ELF SCENARIO PROPERTY OUT [WALL]
        Some("run") => {
            let p = std::rc::Rc::new(vm::Program::load(&std::fs::read(&a[2]).unwrap()));
            let s = reg::all().into_iter().find(|x| x.name == a[3]).unwrap_or_else(|| panic!("no scenario {}", a[3]));
            let wall = a.get(6).map(|x| x.parse().unwrap()).unwrap_or(600.0);
            let v = run::scenario(p, (s.build)(&s.name), &a[4], wall);
            std::fs::write(&a[5], serde_json::to_string(&v).unwrap()).unwrap();
        }
        Some("list") => {
            for s in reg::all() {
                println!("{}\t{}\t{}\t{}\t{}", s.name, s.props.join(","), s.tier, s.weight, s.elf());
            }
        }
        _ => panic!("usage"),
    }
}
