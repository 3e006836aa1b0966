//! The transaction environment: accounts, instruction data, sysvars.
use crate::expr::*;
use crate::mem::*;
use crate::vm::*;
use std::rc::Rc;

#[derive(Clone)]
pub struct AcctSt {
    pub owner: Key,
    pub lamports: E,
    pub data: Rc<Vec<E>>,
    /// contents no longer modelled (metadata writes by other programs)
    pub opaque: bool,
    /// meaning of opaque contents
    pub md: Option<Rc<crate::meta::MdVal>>,
}

#[derive(Clone)]
pub struct Acct {
    pub name: String,
    pub key: Key,
    pub signer: E,
    pub writable: E,
    pub exec: bool,
    pub st: AcctSt,
    pub off: u64,
}

/// what a call into a program outside the model may return
#[derive(Clone)]
pub struct OtherProgram {
    /// return data set by the call: (program that set it, bytes)
    pub ret: Option<(Key, Vec<E>)>,
}

pub struct World {
    pub program_id: [u8; 32],
    pub accts: Vec<Acct>,
    pub slots: Vec<usize>,
    pub ix: Vec<E>,
    pub cons: Vec<E>,
    pub epoch: E,
    /// a transfer hook accepts the transfer
    pub hook_ok: E,
    /// accounts the hook needs to see
    pub hook_req: Option<crate::scen::Hook>,
    pub other: OtherProgram,
    pub input_len: u64,
    pub name: String,
    /// PDAs derived while the scenario was set up
    pub pdas: Vec<PdaEntry>,
}

pub fn b58(s: &str) -> [u8; 32] {
    const A: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    let mut out = [0u8; 32];
    for c in s.bytes() {
        let mut carry = A.iter().position(|x| *x == c).expect("b58") as u32;
        for o in out.iter_mut().rev() {
            carry += *o as u32 * 58;
            *o = carry as u8;
            carry >>= 8;
        }
        assert_eq!(carry, 0);
    }
    out
}

pub mod ids {
    pub fn wrap() -> [u8; 32] {
        super::b58("TwRapQCDhWkZRrDaHfZGuHxkZ91gHDRkyuzNqeU5MgR")
    }
    pub fn spl() -> [u8; 32] {
        super::b58("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA")
    }
    pub fn t22() -> [u8; 32] {
        super::b58("TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb")
    }
    pub fn ata() -> [u8; 32] {
        super::b58("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL")
    }
    pub fn system() -> [u8; 32] {
        [0; 32]
    }
    pub fn mpl() -> [u8; 32] {
        super::b58("metaqbxxUerdq28cj1RbAWkYQm3ybzjb6a8bt518x1s")
    }
    pub fn rent() -> [u8; 32] {
        super::b58("SysvarRent111111111111111111111111111111111")
    }
    pub fn incinerator() -> [u8; 32] {
        super::b58("1nc1nerator11111111111111111111111111111111")
    }
    pub fn native_loader() -> [u8; 32] {
        super::b58("NativeLoader1111111111111111111111111111111")
    }
    pub fn loader() -> [u8; 32] {
        super::b58("BPFLoaderUpgradeab1e11111111111111111111111")
    }
}

pub fn v64(n: &str) -> E {
    var(n, 64)
}
pub fn v8(n: &str) -> E {
    var(n, 8)
}
pub fn vbool(n: &str) -> E {
    var(n, 1)
}
pub fn vkey(n: &str) -> Key {
    let mut k = [NONE; 32];
    for i in 0..4 {
        let x = v64(&format!("{n}.{i}"));
        for j in 0..8 {
            k[i * 8 + j] = extract(8 * j as u16 + 7, 8 * j as u16, x);
        }
    }
    k
}
pub fn kk(b: [u8; 32]) -> Key {
    key_const(&b)
}
pub fn zeros(n: usize) -> Vec<E> {
    vec![k8(0); n]
}
pub fn put(d: &mut [E], off: usize, bytes: &[E]) {
    d[off..off + bytes.len()].copy_from_slice(bytes);
}
pub fn cbytes(b: &[u8]) -> Vec<E> {
    b.iter().map(|x| k8(*x)).collect()
}
pub fn vbytes(n: &str, len: usize) -> Vec<E> {
    (0..len).map(|i| v8(&format!("{n}[{i}]"))).collect()
}
/// value of `n` little-endian bytes at `off`
pub fn rd(d: &[E], off: usize, n: usize) -> E {
    from_bytes(&d[off..off + n])
}
pub fn rdkey(d: &[E], off: usize) -> Key {
    key_of(&d[off..off + 32])
}

impl World {
    pub fn new(name: &str) -> World {
        World {
            program_id: ids::wrap(),
            accts: vec![],
            slots: vec![],
            ix: vec![],
            cons: vec![],
            epoch: v64("clock.epoch"),
            hook_ok: vbool("hook.ok"),
            hook_req: None,
            other: OtherProgram { ret: None },
            input_len: 0,
            name: name.into(),
            pdas: vec![],
        }
    }
    /// add an account and a slot for it
    pub fn add(&mut self, name: &str, key: Key, owner: Key, lamports: E, data: Vec<E>) -> usize {
        let i = self.add_hidden(name, key, owner, lamports, data);
        self.slots.push(i);
        i
    }
    fn add_hidden(&mut self, name: &str, key: Key, owner: Key, lamports: E, data: Vec<E>) -> usize {
        self.accts.push(Acct {
            name: name.into(),
            key,
            signer: vbool(&format!("{name}.signer")),
            writable: vbool(&format!("{name}.writable")),
            exec: false,
            st: AcctSt { owner, lamports, data: Rc::new(data), opaque: false, md: None },
            off: 0,
        });
        self.accts.len() - 1
    }
    pub fn add_program(&mut self, name: &str, id: [u8; 32]) -> usize {
        // one account per address: a second use is a duplicate slot
        if let Some(i) = self.accts.iter().position(|a| a.key == kk(id)) {
            self.slots.push(i);
            return i;
        }
        let i = self.add(name, kk(id), kk(ids::loader()), k64(1_000_000_000), vec![]);
        self.accts[i].exec = true;
        self.accts[i].signer = fls();
        self.accts[i].writable = fls();
        i
    }
    pub fn dup(&mut self, acct: usize) {
        self.slots.push(acct);
    }
    pub fn assume(&mut self, e: E) {
        self.cons.push(e);
    }
    /// positions in the serialized input, distinctness of addresses
    pub fn finish(&mut self) {
        let mut o = 8u64;
        let mut seen = vec![false; self.accts.len()];
        for s in &self.slots {
            if seen[*s] {
                o += 8;
            } else {
                seen[*s] = true;
                let a = &mut self.accts[*s];
                a.off = o;
                let n = a.st.data.len() as u64;
                o += 88 + n + 10240;
                o += (8 - n % 8) % 8;
                o += 8;
            }
        }
        o += 8 + self.ix.len() as u64 + 32;
        self.input_len = o;
        for i in 0..self.accts.len() {
            for j in 0..i {
                let c = not(key_eq(&self.accts[i].key, &self.accts[j].key));
                assert!(!is_false(c), "two accounts share an address: {} {}", self.accts[i].name, self.accts[j].name);
                if !is_true(c) {
                    self.cons.push(c);
                }
            }
        }
        for a in &self.accts {
            // no transaction reaches the lamport supply
            let c = ule(a.st.lamports, k64(1 << 60));
            self.cons.push(c);
            if !a.exec {
                // only programs are executable, and they own nothing here
                let known = [ids::spl(), ids::t22(), ids::ata(), ids::mpl()];
                for k in known {
                    let c = not(key_eq(&a.key, &kk(k)));
                    self.cons.push(c);
                }
                if !is_true(key_eq(&a.key, &kk(ids::system()))) {
                    self.cons.push(not(key_eq(&a.key, &kk(ids::system()))));
                }
            }
        }
        for p in &self.pdas {
            // nobody holds the secret key of a derived address
            let t = key_const(&p.tag);
            for a in &self.accts {
                let c = or(not(key_eq(&a.key, &t)), not(a.signer));
                self.cons.push(c);
            }
        }
        self.cons.retain(|c| !is_true(*c));
    }
    pub fn acct(&self, name: &str) -> usize {
        self.accts.iter().position(|a| a.name == name).unwrap_or_else(|| panic!("no account {name}"))
    }

    pub fn input_region(&self) -> Region {
        let mut r = Region::new(INPUT, self.input_len, true);
        let mut o = 0u64;
        r.store(o, 8, Val::C(self.slots.len() as u64));
        o += 8;
        let mut first: Vec<Option<usize>> = vec![None; self.accts.len()];
        for (si, s) in self.slots.iter().enumerate() {
            if let Some(f) = first[*s] {
                r.store(o, 8, Val::C(f as u64));
                o += 8;
                continue;
            }
            first[*s] = Some(si);
            let a = &self.accts[*s];
            assert_eq!(a.off, o);
            r.set_c(o, 0xff);
            r.set_e(o + 1, zext(8, a.signer));
            r.set_e(o + 2, zext(8, a.writable));
            r.set_c(o + 3, a.exec as u8);
            for i in 0..32u64 {
                r.set_e(o + 8 + i, a.key[i as usize]);
                r.set_e(o + 40 + i, a.st.owner[i as usize]);
            }
            r.store(o + 72, 8, Val::of(a.st.lamports));
            let n = a.st.data.len() as u64;
            r.store(o + 80, 8, Val::C(n));
            for (i, e) in a.st.data.iter().enumerate() {
                r.set_e(o + 88 + i as u64, *e);
            }
            o += 88 + n + 10240;
            o += (8 - n % 8) % 8;
            r.store(o, 8, Val::C(u64::MAX));
            o += 8;
        }
        r.store(o, 8, Val::C(self.ix.len() as u64));
        o += 8;
        for e in &self.ix {
            r.set_e(o, *e);
            o += 1;
        }
        for b in self.program_id {
            r.set_c(o, b);
            o += 1;
        }
        assert_eq!(o, self.input_len);
        r
    }
}
