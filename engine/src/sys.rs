//! Syscalls, program-derived addresses and the few hooked library functions.
use crate::expr::*;
use crate::mem::*;
use crate::vm::*;
use crate::world::*;
use std::rc::Rc;

/// one instruction of a recognised library function (call targets are not compared)
pub struct Sig(pub u8, pub usize, pub usize, pub i64, pub i64);
impl Sig {
    pub fn matches(&self, i: &Insn) -> bool {
        self.0 == i.opc && self.1 == i.dst && self.2 == i.src && self.3 == i.off
            && (self.0 == 0x85 || self.4 == i.imm || (self.0 == 0x18 && self.4 >> 32 == 1 && i.imm >> 32 == 1))
    }
}
/// complete bodies of the compiler builtins that are replaced by their definition:
/// memcmp, __multi3, __udivti3; and the rendering of addresses (base58) and 64-bit integers (decimal) in
/// log messages, which yields arbitrary text for a value that is not known (all other library code is executed as compiled)
pub fn signatures() -> Vec<(String, Vec<Sig>)> {
    let v: serde_json::Value = serde_json::from_str(include_str!("../sigs.json")).unwrap();
    v.as_object()
        .unwrap()
        .iter()
        .map(|(k, v)| {
            let b = v
                .as_array()
                .unwrap()
                .iter()
                .map(|x| {
                    let g = |i: usize| x[i].as_i64().unwrap();
                    Sig(g(0) as u8, g(1) as usize, g(2) as usize, g(3), g(4))
                })
                .collect();
            (k.clone(), b)
        })
        .collect()
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn tag_bytes(n: u64) -> [u8; 32] {
    let mut s = 0x7A67_0000 + n;
    let mut t = [0u8; 32];
    for i in 0..4 {
        t[i * 8..i * 8 + 8].copy_from_slice(&splitmix(&mut s).to_le_bytes());
    }
    t
}

impl Engine {
    /// registry entry for exactly these expressions
    pub fn pda_entry(&mut self, cat: Vec<E>, program: Key) -> PdaEntry {
        let n = self.pda_registry.len() as u64;
        let (tag, bump) = *self.pda_registry.entry((cat.clone(), program.to_vec())).or_insert_with(|| {
            (tag_bytes(n), v8(&format!("bump{n}")))
        });
        PdaEntry { cat: Rc::new(cat), program, tag, bump }
    }
    fn add_pda(&mut self, st: &mut State, e: PdaEntry) {
        // nobody holds the secret key of a derived address
        let tag = key_const(&e.tag);
        let cs: Vec<E> = self
            .world
            .accts
            .iter()
            .map(|a| or(not(key_eq(&a.key, &tag)), not(a.signer)))
            .collect();
        for c in cs {
            if is_false(eval_const(c)) {
                continue;
            }
            if !is_true(c) {
                // the current model may violate the new constraint
                if eval(&st.model, c) != 1 {
                    let mut cons = st.cons.clone();
                    cons.push(c);
                    match self.scheck(st, c) {
                        crate::solver::Res::Sat(m) => {
                            let mut full = (*st.model).clone();
                            for (k, v) in m.iter() {
                                full.insert(*k, *v);
                            }
                            st.model = Rc::new(full);
                        }
                        _ => {}
                    }
                }
                self.add_con(st, c);
            }
        }
        Rc::make_mut(&mut st.pdas).push(e);
    }
    /// find_program_address on this path
    pub fn find_pda(&mut self, st: &mut State, cat: Vec<E>, program: Key) -> R<PdaEntry> {
        for i in 0..st.pdas.len() {
            let p = st.pdas[i].clone();
            if p.cat.len() != cat.len() {
                continue;
            }
            let c = and(bytes_eq(&p.cat, &cat), key_eq(&p.program, &program));
            if self.decide(st, c)? {
                return Ok(p);
            }
        }
        let e = self.pda_entry(cat, program);
        self.add_pda(st, e.clone());
        Ok(e)
    }
    /// address a specification expects: a choice among the known entries, else a new one
    pub fn spec_pda(&mut self, st: &mut State, cat: &[E], program: &Key) -> Key {
        let mut hits = vec![];
        for i in 0..st.pdas.len() {
            let p = st.pdas[i].clone();
            if p.cat.len() != cat.len() {
                continue;
            }
            let c = and(bytes_eq(&p.cat, cat), key_eq(&p.program, program));
            if self.must(st, c) {
                return key_const(&p.tag);
            }
            if self.may(st, c) {
                hits.push((c, p.tag));
            }
        }
        let e = self.pda_entry(cat.to_vec(), *program);
        self.add_pda(st, e.clone());
        let mut k = key_const(&e.tag);
        for (c, t) in hits {
            for i in 0..32 {
                k[i] = ite(c, k8(t[i]), k[i]);
            }
        }
        k
    }
    fn read_slices(&mut self, st: &mut State, addr: u64, n: u64) -> R<Vec<Vec<E>>> {
        let mut v = vec![];
        for i in 0..n {
            let p = st.mem.load(addr + 16 * i, 8)?;
            let l = st.mem.load(addr + 16 * i + 8, 8)?;
            let p = self.concretize(st, p, "slice ptr")?;
            let l = self.concretize(st, l, "slice len")?;
            v.push(self.read_bytes(st, p, l)?);
        }
        Ok(v)
    }
    pub fn read_bytes(&mut self, st: &mut State, p: u64, l: u64) -> R<Vec<E>> {
        if !st.poison.is_empty() && p >> 32 == 4 {
            self.check_poison(st, p, l)?;
        }
        Ok(st.mem.bytes(p, l)?)
    }
    /// seeds of one PDA, concatenated
    pub fn read_seeds(&mut self, st: &mut State, addr: u64, n: u64) -> R<Vec<E>> {
        let parts = self.read_slices(st, addr, n)?;
        if parts.len() > 16 || parts.iter().any(|p| p.len() > 32) {
            return Err(Stop::End(Outcome::Abort("seed limits".into())));
        }
        Ok(parts.concat())
    }

    pub fn syscall(&mut self, st: &mut State, name: &str) -> R<Val> {
        let a = st.regs;
        let c = |s: &mut Self, st: &mut State, i: usize| -> R<u64> { s.concretize(st, a[i], name) };
        match name {
            "abort" => Err(Stop::End(Outcome::Abort("abort".into()))),
            "sol_panic_" => Err(Stop::End(Outcome::Abort("panic".into()))),
            "sol_log_" => {
                if self.log {
                    if let (Val::C(p), Val::C(l)) = (a[1], a[2]) {
                        if let Ok(b) = st.mem.bytes(p, l) {
                            let s: String = b.iter().map(|e| as_const(*e).map(|v| v as u8 as char).unwrap_or('?')).collect();
                            eprintln!("log: {s}");
                        }
                    }
                }
                Ok(Val::C(0))
            }
            "sol_log_64_" | "sol_log_pubkey" | "sol_log_compute_units_" | "sol_log_data" => Ok(Val::C(0)),
            "sol_memcpy_" | "sol_memmove_" => {
                let n = c(self, st, 3)?;
                if n == 0 {
                    return Ok(Val::C(0));
                }
                let (d, s) = (c(self, st, 1)?, c(self, st, 2)?);
                let b = self.read_bytes(st, s, n)?;
                st.mem.write_bytes(d, &b)?;
                Ok(Val::C(0))
            }
            "sol_memset_" => {
                let n = c(self, st, 3)?;
                let d = c(self, st, 1)?;
                let v = extract(7, 0, a[2].e());
                st.mem.write_bytes(d, &vec![v; n as usize])?;
                Ok(Val::C(0))
            }
            "sol_memcmp_" => {
                let n = c(self, st, 3)?;
                let (x, y, o) = (c(self, st, 1)?, c(self, st, 2)?, c(self, st, 4)?);
                let x = self.read_bytes(st, x, n)?;
                let y = self.read_bytes(st, y, n)?;
                let r = cmp_bytes(&x, &y);
                st.mem.store(o, 4, Val::of(zext(64, r)))?;
                Ok(Val::C(0))
            }
            "sol_try_find_program_address" => {
                let (s, n, p, out, bump) = (c(self, st, 1)?, c(self, st, 2)?, c(self, st, 3)?, c(self, st, 4)?, c(self, st, 5)?);
                let cat = self.read_seeds(st, s, n)?;
                let prog = key_of(&self.read_bytes(st, p, 32)?);
                let e = self.find_pda(st, cat, prog)?;
                st.mem.write_bytes(out, &key_const(&e.tag))?;
                st.mem.write_bytes(bump, &[e.bump])?;
                Ok(Val::C(0))
            }
            "sol_create_program_address" => {
                let (s, n, p, out) = (c(self, st, 1)?, c(self, st, 2)?, c(self, st, 3)?, c(self, st, 4)?);
                let cat = self.read_seeds(st, s, n)?;
                let prog = key_of(&self.read_bytes(st, p, 32)?);
                let tag = self.signer_tag(st, &cat, &prog)?;
                st.mem.write_bytes(out, &key_const(&tag))?;
                Ok(Val::C(0))
            }
            "sol_get_clock_sysvar" => {
                let o = c(self, st, 1)?;
                st.clock_read = true;
                let mut b = vec![];
                for n in ["clock.slot", "clock.start"] {
                    b.extend(to_bytes(self.named(n)));
                }
                b.extend(to_bytes(self.world.epoch));
                for n in ["clock.leader", "clock.unix"] {
                    b.extend(to_bytes(self.named(n)));
                }
                st.mem.write_bytes(o, &b)?;
                Ok(Val::C(0))
            }
            "sol_get_rent_sysvar" => {
                let o = c(self, st, 1)?;
                let mut b = 3480u64.to_le_bytes().to_vec();
                b.extend(2.0f64.to_le_bytes());
                b.push(50);
                st.mem.write_bytes(o, &cbytes(&b))?;
                Ok(Val::C(0))
            }
            "sol_get_return_data" => {
                let (o, n, p) = (c(self, st, 1)?, c(self, st, 2)?, c(self, st, 3)?);
                match st.retdata.clone() {
                    None => Ok(Val::C(0)),
                    Some((prog, data)) => {
                        let k = (data.len() as u64).min(n);
                        if k > 0 {
                            st.mem.write_bytes(o, &data[..k as usize])?;
                            st.mem.write_bytes(p, &prog)?;
                        }
                        Ok(Val::C(data.len() as u64))
                    }
                }
            }
            "sol_set_return_data" => {
                let (p, n) = (c(self, st, 1)?, c(self, st, 2)?);
                let b = self.read_bytes(st, p, n)?;
                let id = key_const(&self.world.program_id);
                st.retdata = Some((id, b));
                Ok(Val::C(0))
            }
            "sol_get_stack_height" => Ok(Val::C(1)),
            "sol_invoke_signed_rust" => {
                let (ix, infos, ni, seeds, ns) = (c(self, st, 1)?, c(self, st, 2)?, c(self, st, 3)?, c(self, st, 4)?, c(self, st, 5)?);
                self.cpi(st, ix, infos, ni, seeds, ns)
            }
            _ => Err(Stop::End(Outcome::Incon(format!("syscall {name} is not modelled")))),
        }
    }

    pub fn named(&mut self, n: &str) -> E {
        if let Some(e) = self.named_vars.get(n) {
            return *e;
        }
        let e = v64(n);
        self.named_vars.insert(n.into(), e);
        e
    }

    /// address that signer seeds (with their bump) stand for
    pub fn signer_tag(&mut self, st: &mut State, cat: &[E], program: &Key) -> R<[u8; 32]> {
        for i in 0..st.pdas.len() {
            let p = st.pdas[i].clone();
            if p.cat.len() + 1 != cat.len() {
                continue;
            }
            let mut full = (*p.cat).clone();
            full.push(p.bump);
            let c = and(bytes_eq(&full, cat), key_eq(&p.program, program));
            if self.decide(st, c)? {
                return Ok(p.tag);
            }
        }
        // some other off-curve address
        let mut cat = cat.to_vec();
        cat.push(konst(1, 1)); // keep raw seeds apart from canonical derivations
        let e = self.pda_entry(cat, *program);
        self.add_pda(st, e.clone());
        Ok(e.tag)
    }

    /// the address formatter was just entered: for an unknown address, skip the arithmetic and hand
    /// arbitrary characters to the rest of the function (which writes them to the formatter)
    pub fn skip_base58(&mut self, st: &mut State, start: usize) -> R<()> {
        let (p, f) = match (st.regs[1], st.regs[2]) {
            (Val::C(p), Val::C(f)) => (p, f),
            _ => return Ok(()),
        };
        let key = self.read_bytes(st, p, 32)?;
        if key.iter().all(|b| as_const(*b).is_some()) {
            return Ok(());
        }
        let text = self.base58.entry(key).or_insert_with(|| (0..44).map(|i| zext(8, var(&format!("text.{i}"), 7))).collect()).clone();
        let fp = match st.regs[10] {
            Val::C(v) => v,
            _ => return Ok(()),
        };
        let fail = |_| Stop::End(Outcome::Abort("frame".into()));
        st.mem.write_bytes(fp - 200, &text).map_err(fail)?;
        st.mem.store(fp - 208, 8, Val::C(f)).map_err(fail)?;
        st.regs[3] = Val::C(44);
        st.pc = start + 203;
        Ok(())
    }

    /// r1:r2 and r3:r4 hold 128-bit operands (low, high); the result is in r0 and r2
    pub fn hook(&mut self, st: &mut State, name: &str) -> R<bool> {
        match name {
            "__udivti3" | "__multi3" => {
                let x = wide(st.regs[2].e(), st.regs[1].e());
                let y = wide(st.regs[4].e(), st.regs[3].e());
                if as_const(x).is_some() && as_const(y).is_some() {
                    return Ok(false);
                }
                let r = if name == "__udivti3" {
                    let z = eq(y, konst(128, 0));
                    if self.decide(st, z)? {
                        return Ok(false);
                    }
                    bin(Op::Udiv, x, y)
                } else {
                    mul(x, y)
                };
                st.regs[0] = Val::of(extract(63, 0, r));
                st.regs[2] = Val::of(extract(127, 64, r));
                Ok(true)
            }
            "fmt_u64" => {
                // decimal digits of a 64-bit integer into the end of a 20-byte buffer; only log
                // messages use it: arbitrary digits when the number is not known
                let (v, p) = match (st.regs[1], st.regs[2]) {
                    (Val::C(_), _) => return Ok(false),
                    (v, Val::C(p)) => (v.e(), p),
                    _ => return Ok(false),
                };
                if as_const(extract(63, 16, v)).is_some() {
                    return Ok(false);
                }
                let text = self.base58.entry(vec![v]).or_insert_with(|| (0..20).map(|i| zext(8, var(&format!("digit.{i}"), 7))).collect()).clone();
                st.mem.write_bytes(p, &text).map_err(|_| Stop::End(Outcome::Abort("digits".into())))?;
                st.regs[0] = Val::C(0);
                Ok(true)
            }
            "memcmp" => {
                let (x, y, n) = match (st.regs[1], st.regs[2], st.regs[3]) {
                    (Val::C(x), Val::C(y), Val::C(n)) => (x, y, n),
                    _ => return Ok(false),
                };
                let xb = self.read_bytes(st, x, n)?;
                let yb = self.read_bytes(st, y, n)?;
                let r = cmp_bytes(&xb, &yb);
                st.regs[0] = Val::of(if n > 32 { zext(64, r) } else { sext(64, r) });
                Ok(true)
            }
            _ => Ok(false),
        }
    }
}

/// high:low as one 128-bit value, undoing an addition with carry (an identity modulo 2^128)
fn wide(h: E, l: E) -> E {
    if let (Node::Bin(Op::Add, h0, c), Node::Bin(Op::Add, l0, k)) = (node(h), node(l)) {
        for (h0, c) in [(h0, c), (c, h0)] {
            if let Node::Zext(_, u) = node(c) {
                for (l0, k) in [(l0, k), (k, l0)] {
                    if u == ult(l, l0) {
                        return add(wide(h0, l0), zext(128, k));
                    }
                }
            }
        }
    }
    if let Node::Bin(Op::Add, l0, k) = node(l) {
        // high half was zero: high is the carry itself
        if let Node::Zext(_, u) = node(h) {
            for (l0, k) in [(l0, k), (k, l0)] {
                if u == ult(l, l0) {
                    return add(zext(128, l0), zext(128, k));
                }
            }
        }
    }
    concat(h, l)
}

/// memcmp as a 32-bit value: difference of the first differing bytes
pub fn cmp_bytes(x: &[E], y: &[E]) -> E {
    let mut r = konst(32, 0);
    for i in (0..x.len()).rev() {
        if x[i] == y[i] {
            continue;
        }
        let d = sub(zext(32, x[i]), zext(32, y[i]));
        r = ite(eq(x[i], y[i]), r, d);
    }
    let all_eq = bytes_eq(x, y);
    if is_true(all_eq) {
        konst(32, 0)
    } else if as_const(r).is_some() {
        r
    } else if is_false(all_eq) {
        // known to differ: keep the sign, forget nothing else
        r
    } else {
        // zero exactly when the strings are equal, so equality tests stay small
        // (only the sign of a difference is meaningful to callers)
        ite(all_eq, konst(32, 0), or(r, konst(32, 1)))
    }
}

fn eval_const(e: E) -> E {
    e
}
