//! Cross-program invocation: parsing, privilege rules, dispatch to the callee models,
//! and the runtime's rules for a program's own changes.
use crate::expr::*;
use crate::mem::*;
use crate::tok;
use crate::tok::{Prog, View};
use crate::vm::*;
use crate::world::*;
use std::rc::Rc;

pub fn disc(s: &str) -> [u8; 8] {
    // sha256 prefixes of the token-metadata interface
    match s {
        "initialize" => [210, 225, 30, 162, 88, 184, 77, 141],
        "update_field" => [221, 233, 49, 45, 181, 202, 220, 200],
        "remove_key" => [234, 18, 32, 56, 89, 141, 37, 181],
        "update_authority" => [215, 228, 166, 228, 84, 100, 86, 123],
        "emit" => [250, 166, 180, 250, 13, 12, 184, 70],
        _ => panic!(),
    }
}

struct Parsed {
    views: Vec<usize>, // meta index -> account
    signer: Vec<E>,
    writable: Vec<E>,
    keys: Vec<Key>,
}

impl Engine {
    fn acct_by_key(&mut self, st: &mut State, key: &Key) -> R<Option<usize>> {
        let n = self.world.accts.len();
        for i in 0..n {
            if self.world.accts[i].key == *key {
                return Ok(Some(i));
            }
        }
        for i in 0..n {
            let c = key_eq(&self.world.accts[i].key, key);
            if st.known.has(c) {
                return Ok(Some(i));
            }
        }
        for i in 0..n {
            let c = key_eq(&self.world.accts[i].key, key);
            if self.decide(st, c)? {
                return Ok(Some(i));
            }
        }
        Ok(None)
    }

    fn data_len(&mut self, st: &mut State, i: usize) -> R<u64> {
        let off = self.world.accts[i].off;
        let v = st.mem.input.load(off + 80, 8);
        self.concretize(st, v, "account length")
    }

    /// bring the program's own changes into the runtime's view; the condition under which they are allowed
    fn sync(&mut self, st: &mut State) -> R<E> {
        let me = key_const(&self.world.program_id);
        let n = self.world.accts.len();
        let mut ok = vec![];
        let mut before = konst(128, 0);
        let mut after = konst(128, 0);
        for i in 0..n {
            let off = self.world.accts[i].off;
            let old = st.accts[i].clone();
            let mine = key_eq(&old.owner, &me);
            let writable = self.world.accts[i].writable;
            let exec = self.world.accts[i].exec;
            let mut lam = st.mem.input.load(off + 72, 8).e();
            // the same bytes as before are the same number, however it was put together
            if to_bytes(old.lamports).iter().enumerate().all(|(k, b)| st.mem.input.get_e(off + 72 + k as u64) == *b) {
                lam = old.lamports;
            }
            let mut owner = [NONE; 32];
            for k in 0..32 {
                owner[k] = st.mem.input.get_e(off + 40 + k as u64);
            }
            let len = self.data_len(st, i)?;
            let mut new = old.clone();
            if lam != old.lamports {
                let same = eq(lam, old.lamports);
                ok.push(or(same, all(&[writable, k1(!exec), or(mine, ule(old.lamports, lam))])));
                new.lamports = lam;
            }
            before = add(before, zext(128, old.lamports));
            after = add(after, zext(128, lam));
            let mut changed = fls();
            if !old.opaque {
                if len as usize != old.data.len() {
                    if len > old.data.len() as u64 + 10240 {
                        return Err(Stop::End(Outcome::RuntimeReject("account growth".into())));
                    }
                    changed = tru();
                    let d: Vec<E> = (0..len).map(|k| st.mem.input.get_e(off + 88 + k)).collect();
                    new.data = Rc::new(d);
                } else {
                    let mut d: Option<Vec<E>> = None;
                    for k in 0..len as usize {
                        let e = st.mem.input.get_e(off + 88 + k as u64);
                        if e != old.data[k] {
                            d.get_or_insert_with(|| (*old.data).clone())[k] = e;
                        }
                    }
                    if let Some(d) = d {
                        // a store is refused even where it puts back the byte that was there
                        changed = tru();
                        new.data = Rc::new(d);
                    }
                }
            }
            if !is_false(changed) {
                ok.push(implies(changed, all(&[writable, mine, k1(!exec)])));
            }
            if owner != old.owner {
                let same = key_eq(&owner, &old.owner);
                let zero = all(&new.data.iter().map(|b| eq(*b, k8(0))).collect::<Vec<_>>());
                ok.push(or(same, all(&[writable, mine, k1(!exec), zero])));
                new.owner = owner;
            }
            if lam != old.lamports || !is_false(changed) || owner != old.owner {
                Rc::make_mut(&mut st.accts)[i] = new;
            }
        }
        if before != after {
            ok.push(eq(before, after));
        }
        Ok(all(&ok))
    }

    pub fn verify_changes(&mut self, st: &mut State) -> Result<E, Outcome> {
        match self.sync(st) {
            Ok(e) => Ok(e),
            Err(Stop::End(o)) => Err(o),
            Err(Stop::Fork(..)) => Err(Outcome::Incon("symbolic account length at exit".into())),
        }
    }

    fn write_back(&mut self, st: &mut State, i: usize, new: AcctSt, info_data_rc: Option<u64>) -> R<()> {
        let off = self.world.accts[i].off;
        let old = st.accts[i].clone();
        if new.lamports != old.lamports {
            st.mem.input.store(off + 72, 8, Val::of(new.lamports));
        }
        if new.owner != old.owner {
            for k in 0..32 {
                st.mem.input.set_e(off + 40 + k as u64, new.owner[k]);
            }
        }
        if !Rc::ptr_eq(&new.data, &old.data) {
            let (n, m) = (new.data.len(), old.data.len());
            if n > self.world.accts[i].st.data.len() + 10240 {
                return Err(Stop::End(Outcome::CpiFail("account growth".into())));
            }
            for k in 0..n {
                st.mem.input.set_e(off + 88 + k as u64, new.data[k]);
            }
            for k in n..m {
                st.mem.input.set_c(off + 88 + k as u64, 0);
            }
            if n != m {
                st.mem.input.store(off + 80, 8, Val::C(n as u64));
                if let Some(rc) = info_data_rc {
                    st.mem.store(rc + 32, 8, Val::C(n as u64))?;
                }
            }
        }
        if new.opaque && !old.opaque {
            let s = INPUT + off + 88;
            Rc::make_mut(&mut st.poison).push((s, s + old.data.len().max(new.data.len()) as u64 + 10240));
        }
        Rc::make_mut(&mut st.accts)[i] = new;
        Ok(())
    }

    pub fn cpi(&mut self, st: &mut State, ix: u64, infos: u64, ninfos: u64, seeds: u64, nseeds: u64) -> R<Val> {
        let ld = |s: &mut Self, st: &mut State, a: u64| -> R<u64> {
            let v = st.mem.load(a, 8)?;
            s.concretize(st, v, "cpi")
        };
        let (macc, mlen) = (ld(self, st, ix)?, ld(self, st, ix + 16)?);
        let (dptr, dlen) = (ld(self, st, ix + 24)?, ld(self, st, ix + 40)?);
        let program = key_of(&st.mem.bytes(ix + 48, 32)?);
        if mlen > 255 || ninfos > 128 || dlen > 10240 {
            return Err(Stop::End(Outcome::CpiFail("cpi limits".into())));
        }
        let data = self.read_bytes(st, dptr, dlen)?;
        // signer seeds
        let me = key_const(&self.world.program_id);
        let mut signer_tags = vec![];
        for i in 0..nseeds {
            let (p, n) = (ld(self, st, seeds + 16 * i)?, ld(self, st, seeds + 16 * i + 8)?);
            let cat = self.read_seeds(st, p, n)?;
            signer_tags.push(self.signer_tag(st, &cat, &me)?);
        }
        // account infos passed along
        let mut passed: Vec<(usize, u64)> = vec![]; // account, address of its data cell
        for i in 0..ninfos {
            let a = infos + 48 * i;
            let (kp, drc) = (ld(self, st, a)?, ld(self, st, a + 16)?);
            let acct = match self.world.accts.iter().position(|x| INPUT + x.off + 8 == kp) {
                Some(i) => Some(i),
                None => {
                    let k = key_of(&st.mem.bytes(kp, 32)?);
                    self.acct_by_key(st, &k)?
                }
            };
            if let Some(acct) = acct {
                passed.push((acct, drc));
            }
        }
        // metas
        let mut p = Parsed { views: vec![], signer: vec![], writable: vec![], keys: vec![] };
        for i in 0..mlen {
            let b = st.mem.bytes(macc + 34 * i, 34)?;
            let key = key_of(&b);
            let sg = not(eq(b[32], k8(0)));
            let wr = not(eq(b[33], k8(0)));
            let idx = match self.acct_by_key(st, &key)? {
                Some(i) => i,
                None => return Err(Stop::End(Outcome::CpiFail("account missing".into()))),
            };
            if !self.world.accts[idx].exec && !passed.iter().any(|x| x.0 == idx) {
                return Err(Stop::End(Outcome::CpiFail("account info missing".into())));
            }
            p.views.push(idx);
            p.signer.push(sg);
            p.writable.push(wr);
            p.keys.push(self.world.accts[idx].key);
        }
        // duplicate metas share their privileges
        for i in 0..p.views.len() {
            for j in 0..i {
                if p.views[i] == p.views[j] {
                    let s = or(p.signer[i], p.signer[j]);
                    let w = or(p.writable[i], p.writable[j]);
                    for k in [i, j] {
                        p.signer[k] = s;
                        p.writable[k] = w;
                    }
                }
            }
        }
        let mut privs = vec![];
        for i in 0..p.views.len() {
            let a = &self.world.accts[p.views[i]];
            privs.push(implies(p.writable[i], a.writable));
            let mut s = a.signer;
            for t in &signer_tags {
                s = or(s, key_eq(&a.key, &key_const(t)));
            }
            privs.push(implies(p.signer[i], s));
        }
        if !self.decide(st, all(&privs))? {
            return Err(Stop::End(Outcome::CpiFail("privilege escalation".into())));
        }
        match self.acct_by_key(st, &program)? {
            Some(i) if self.world.accts[i].exec => {}
            _ => return Err(Stop::End(Outcome::CpiFail("program not available".into()))),
        }
        let own = self.sync(st)?;
        if !self.decide(st, own)? {
            return Err(Stop::End(Outcome::RuntimeReject("changes before cpi".into())));
        }
        let eff = self.dispatch(st, &program, &p, &data)?;
        let rec = CpiRec {
            program,
            metas: (0..p.views.len())
                .map(|i| CpiMeta { acct: p.views[i], key: p.keys[i], signer: p.signer[i], writable: p.writable[i] })
                .collect(),
            data,
            signer_tags,
            kind: eff.kind.clone(),
        };
        if !self.decide(st, eff.ok)? {
            let mut v = (*st.notes).clone();
            v.push(format!("callee refused {}", eff.kind));
            st.notes = Rc::new(v);
            return Err(Stop::End(Outcome::CpiFail(eff.kind)));
        }
        st.retdata = None;
        if eff.kind == "other" {
            st.retdata = self.world.other.ret.clone();
        }
        for (i, a) in eff.new {
            let rc = passed.iter().find(|x| x.0 == i).map(|x| x.1);
            self.write_back(st, i, a, rc)?;
        }
        Rc::make_mut(&mut st.cpis).push(rec);
        Ok(Val::C(0))
    }

    fn dispatch(&mut self, st: &mut State, program: &Key, p: &Parsed, data: &[E]) -> R<tok::Effect> {
        tok::KNOWN.with(|k| *k.borrow_mut() = st.known.clone());
        let accts = st.accts.clone();
        let views: Vec<View> = (0..p.views.len())
            .map(|i| View { key: p.keys[i], signer: p.signer[i], writable: p.writable[i], idx: p.views[i], st: &accts[p.views[i]] })
            .collect();
        let refuse = |why: &str| Ok(tok::Effect { ok: fls(), new: vec![], kind: why.to_string() });
        let known = [ids::spl(), ids::t22(), ids::system(), ids::mpl()];
        let mut which = None;
        for k in known {
            let c = key_eq(program, &kk(k));
            if self.decide(st, c)? {
                which = Some(k);
                break;
            }
        }
        let u = |o: usize, n: usize| rd(data, o, n);
        let cb = |i: usize| -> Option<u8> { data.get(i).and_then(|e| as_const(*e)).map(|v| v as u8) };
        if which == Some(ids::system()) {
            let tag = match (0..4).map(cb).collect::<Option<Vec<_>>>() {
                Some(b) => u32::from_le_bytes(b.try_into().unwrap()),
                None => return Err(Stop::End(Outcome::Incon("symbolic system instruction".into()))),
            };
            let sysk = kk(ids::system());
            return match tag {
                8 if !views.is_empty() => {
                    let a = &views[0];
                    let space = self.concretize(st, Val::of(u(4, 8)), "space")?;
                    if !a.st.data.is_empty() || space > 10 * 1024 * 1024 {
                        return refuse("allocate");
                    }
                    let ok = all(&[a.signer, a.writable, key_eq(&a.st.owner, &sysk)]);
                    let mut n = a.st.clone();
                    n.data = Rc::new(zeros(space as usize));
                    Ok(tok::Effect { ok, new: vec![(a.idx, n)], kind: "allocate".into() })
                }
                1 if !views.is_empty() => {
                    let a = &views[0];
                    let to = key_of(&data[4..36]);
                    let mut n = a.st.clone();
                    n.owner = to;
                    let ok = or(key_eq(&a.st.owner, &to), all(&[a.signer, a.writable, key_eq(&a.st.owner, &sysk)]));
                    Ok(tok::Effect { ok, new: vec![(a.idx, n)], kind: "assign".into() })
                }
                2 if views.len() >= 2 => {
                    let (a, b) = (&views[0], &views[1]);
                    let amt = u(4, 8);
                    if !a.st.data.is_empty() || a.idx == b.idx {
                        return refuse("sys_transfer");
                    }
                    let tot = add(b.st.lamports, amt);
                    let ok = all(&[
                        a.signer,
                        a.writable,
                        b.writable,
                        key_eq(&a.st.owner, &sysk),
                        ule(amt, a.st.lamports),
                        ule(b.st.lamports, tot),
                    ]);
                    let (mut n, mut m) = (a.st.clone(), b.st.clone());
                    n.lamports = sub(a.st.lamports, amt);
                    m.lamports = tot;
                    Ok(tok::Effect { ok, new: vec![(a.idx, n), (b.idx, m)], kind: "sys_transfer".into() })
                }
                0 if views.len() >= 2 => {
                    let (a, b) = (&views[0], &views[1]);
                    let amt = u(4, 8);
                    let space = self.concretize(st, Val::of(u(12, 8)), "space")?;
                    let owner = key_of(&data[20..52]);
                    if !b.st.data.is_empty() || a.idx == b.idx || space > 10 * 1024 * 1024 {
                        return refuse("create_account");
                    }
                    let ok = all(&[
                        a.signer,
                        b.signer,
                        a.writable,
                        b.writable,
                        k1(a.st.data.is_empty()),
                        key_eq(&a.st.owner, &sysk),
                        key_eq(&b.st.owner, &sysk),
                        eq(b.st.lamports, k64(0)),
                        ule(amt, a.st.lamports),
                    ]);
                    let (mut n, mut m) = (a.st.clone(), b.st.clone());
                    n.lamports = sub(a.st.lamports, amt);
                    m.lamports = amt;
                    m.owner = owner;
                    m.data = Rc::new(zeros(space as usize));
                    Ok(tok::Effect { ok, new: vec![(a.idx, n), (b.idx, m)], kind: "create_account".into() })
                }
                _ => Err(Stop::End(Outcome::Incon(format!("system instruction {tag} not modelled")))),
            };
        }
        if which == Some(ids::mpl()) {
            let tag = match cb(0) {
                Some(t) => t,
                None => return Err(Stop::End(Outcome::Incon("symbolic metaplex instruction".into()))),
            };
            return crate::meta::metaplex_ix(tag, &views, data);
        }
        let tp = if which == Some(ids::spl()) {
            Prog::Spl
        } else if which == Some(ids::t22()) {
            Prog::T22
        } else {
            // some other program: it may refuse, it may not touch accounts it does not own
            return Ok(tok::Effect { ok: self.world.hook_ok, new: vec![], kind: "other".into() });
        };
        // Token-2022 also speaks the metadata interface
        if tp == Prog::T22 && data.len() >= 8 {
            if let Some(d) = (0..8).map(cb).collect::<Option<Vec<_>>>() {
                let d: [u8; 8] = d.try_into().unwrap();
                if let Some(r) = crate::meta::token_2022_ix(self, st, &d, &views, data)? {
                    return Ok(r);
                }
            }
        }
        let tag = match cb(0) {
            Some(t) => t,
            None => return Err(Stop::End(Outcome::Incon("symbolic token instruction".into()))),
        };
        let epoch = self.world.epoch;
        // a transfer hook runs when its program and the accounts it asks for were handed on
        let hook_ok = match (&self.world.hook_req, tag) {
            (Some(h), 12 | 26) => {
                let rest = &views[4.min(views.len())..];
                let mut ok = vec![self.world.hook_ok];
                ok.push(k1(rest.iter().any(|v| v.idx == h.program)));
                ok.push(k1(rest.iter().any(|v| v.idx == h.validation)));
                for (e, sg, wr) in &h.extra {
                    ok.push(any(&rest
                        .iter()
                        .filter(|v| v.idx == *e)
                        .map(|v| and(or(k1(!*sg), v.signer), or(k1(!*wr), v.writable)))
                        .collect::<Vec<_>>()));
                }
                all(&ok)
            }
            _ => fls(),
        };
        let eff = match tag {
            3 if views.len() >= 3 && data.len() >= 9 => {
                tok::transfer(tp, &views[0], None, &views[1], &views[2], &views[3..], u(1, 8), None, epoch, hook_ok)
            }
            12 if views.len() >= 4 && data.len() >= 10 => tok::transfer(
                tp,
                &views[0],
                Some((&views[1], data[9])),
                &views[2],
                &views[3],
                &views[4..],
                u(1, 8),
                None,
                epoch,
                hook_ok,
            ),
            26 if tp == Prog::T22 && cb(1) == Some(1) && views.len() >= 4 && data.len() >= 19 => tok::transfer(
                tp,
                &views[0],
                Some((&views[1], data[10])),
                &views[2],
                &views[3],
                &views[4..],
                u(2, 8),
                Some(u(11, 8)),
                epoch,
                hook_ok,
            ),
            7 if views.len() >= 3 && data.len() >= 9 => tok::mint_to(tp, &views[0], &views[1], &views[2], &views[3..], u(1, 8), None),
            14 if views.len() >= 3 && data.len() >= 10 => {
                tok::mint_to(tp, &views[0], &views[1], &views[2], &views[3..], u(1, 8), Some(data[9]))
            }
            8 if views.len() >= 3 && data.len() >= 9 => tok::burn(tp, &views[0], &views[1], &views[2], &views[3..], u(1, 8), None),
            15 if views.len() >= 3 && data.len() >= 10 => {
                tok::burn(tp, &views[0], &views[1], &views[2], &views[3..], u(1, 8), Some(data[9]))
            }
            9 if views.len() >= 3 => tok::close_account(tp, &views[0], &views[1], &views[2], &views[3..]),
            0 | 20 if !views.is_empty() && data.len() >= 35 => {
                let some = match cb(34) {
                    Some(0) => fls(),
                    Some(1) => tru(),
                    Some(_) => return refuse("initialize_mint"),
                    None => eq(data[34], k8(1)),
                };
                if !is_false(some) && data.len() < 67 {
                    return refuse("initialize_mint");
                }
                let fz = if data.len() >= 67 { data[35..67].to_vec() } else { zeros(32) };
                tok::initialize_mint(tp, &views[0], data[1], &data[2..34], some, &fz)
            }
            27 if tp == Prog::T22 && cb(1) == Some(0) && data.len() == 67 => {
                tok::init_ext(&views[0], tok::ext::CONFIDENTIAL_MINT, data[2..67].to_vec(), tru())
            }
            28 if tp == Prog::T22 && cb(1) == Some(0) && data.len() == 3 => {
                tok::init_ext(&views[0], tok::ext::DEFAULT_STATE, data[2..3].to_vec(), tru())
            }
            35 if tp == Prog::T22 && data.len() == 33 => {
                tok::init_ext(&views[0], tok::ext::PERMANENT_DELEGATE, data[1..33].to_vec(), tru())
            }
            39 if tp == Prog::T22 && cb(1) == Some(0) && data.len() == 66 => {
                tok::init_ext(&views[0], tok::ext::METADATA_POINTER, data[2..66].to_vec(), tru())
            }
            44 if tp == Prog::T22 && cb(1) == Some(0) && data.len() == 34 => {
                let mut v = data[2..34].to_vec();
                v.push(k8(0));
                tok::init_ext(&views[0], tok::ext::PAUSABLE, v, tru())
            }
            25 if tp == Prog::T22 && data.len() >= 2 && !views.is_empty() => {
                // InitializeMintCloseAuthority: COption
                let v = match cb(1) {
                    Some(0) => zeros(32),
                    Some(1) if data.len() >= 34 => data[2..34].to_vec(),
                    _ => return refuse("init_close_authority"),
                };
                tok::init_ext(&views[0], tok::ext::MINT_CLOSE_AUTHORITY, v, tru())
            }
            32 if tp == Prog::T22 && !views.is_empty() => tok::init_ext(&views[0], tok::ext::NON_TRANSFERABLE, vec![], tru()),
            36 if tp == Prog::T22 && cb(1) == Some(0) && data.len() == 66 => {
                tok::init_ext(&views[0], tok::ext::HOOK, data[2..66].to_vec(), tru())
            }
            26 if tp == Prog::T22 && cb(1) == Some(0) => {
                return Err(Stop::End(Outcome::Incon("transfer fee initialisation not modelled".into())))
            }
            40 | 41 if tp == Prog::T22 && cb(1) == Some(0) && data.len() == 66 && !views.is_empty() => {
                let t = if tag == 40 { tok::ext::GROUP_POINTER } else { tok::ext::MEMBER_POINTER };
                tok::init_ext(&views[0], t, data[2..66].to_vec(), tru())
            }
            44 if tp == Prog::T22 && matches!(cb(1), Some(1 | 2)) && views.len() >= 2 => tok::pause(&views[0], &views[1], &views[2..], cb(1) == Some(1)),
            6 if views.len() >= 2 && data.len() >= 3 => {
                let some = eq(data[2], k8(1));
                let (Some(what), true) = (cb(1), data.len() >= 35 || is_false(some)) else {
                    return Err(Stop::End(Outcome::Incon("symbolic kind of authority".into())));
                };
                let k = if data.len() >= 35 { data[3..35].to_vec() } else { zeros(32) };
                match tok::set_authority(tp, &views[0], &views[1], &views[2..], what, some, &k) {
                    Some(e) => e,
                    None => return Err(Stop::End(Outcome::Incon(format!("authority of kind {what} not modelled")))),
                }
            }
            4 if views.len() >= 3 && data.len() >= 9 => tok::approve(tp, &views[0], None, &views[1].key, &views[2], &views[3..], u(1, 8)),
            13 if views.len() >= 4 && data.len() >= 10 => {
                tok::approve(tp, &views[0], Some((&views[1], data[9])), &views[2].key, &views[3], &views[4..], u(1, 8))
            }
            5 if views.len() >= 2 => tok::revoke(tp, &views[0], &views[1], &views[2..]),
            10 | 11 if views.len() >= 3 => tok::freeze(tp, &views[0], &views[1], &views[2], &views[3..], tag == 10),
            0..=14 if views.is_empty() => return refuse("token"),
            _ => {
                return Err(Stop::End(Outcome::Incon(format!(
                    "token instruction {tag} ({} bytes, {} accounts) not modelled",
                    data.len(),
                    views.len()
                ))))
            }
        };
        Ok(eff)
    }

}

fn k1(b: bool) -> E {
    tok::k1(b)
}
