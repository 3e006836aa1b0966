//! Symbolic interpreter for sBPF v0 bytecode.
use crate::expr::*;
use crate::mem::*;
use crate::solver::*;
use solana_sbpf::{ebpf, elf::Executable, program::BuiltinProgram, vm::Config};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use std::sync::Arc;

pub type Key = [E; 32];
pub fn key_const(b: &[u8; 32]) -> Key {
    let mut k = [NONE; 32];
    for i in 0..32 {
        k[i] = k8(b[i]);
    }
    k
}
pub fn key_of(v: &[E]) -> Key {
    let mut k = [NONE; 32];
    k.copy_from_slice(&v[..32]);
    k
}
pub fn key_eq(a: &Key, b: &Key) -> E {
    bytes_eq(a, b)
}

#[derive(Clone, Copy, Debug)]
pub struct Insn {
    pub opc: u8,
    pub dst: usize,
    pub src: usize,
    pub off: i64,
    pub imm: i64,
}

pub struct Program {
    pub insns: Vec<Insn>,
    pub text_addr: u64,
    pub entry: usize,
    pub calls: HashMap<u32, usize>, // key -> pc
    pub syscalls: HashMap<u32, &'static str>,
    pub hooks: HashMap<usize, String>, // pc -> exported symbol with a builtin model
    pub ro: Rc<Region>,
    pub func_entries: HashSet<usize>,
    /// registers whose value may still be used, per instruction
    pub live: Vec<u16>,
    pub elf_len: usize,
}

#[derive(Debug, Default)]
pub struct Ctx;
impl solana_sbpf::vm::ContextObject for Ctx {
    fn consume(&mut self, _: u64) {}
    fn get_remaining(&self) -> u64 {
        u64::MAX
    }
}

pub const SYSCALLS: &[&str] = &[
    "abort",
    "sol_panic_",
    "sol_log_",
    "sol_log_64_",
    "sol_log_pubkey",
    "sol_log_compute_units_",
    "sol_log_data",
    "sol_memcpy_",
    "sol_memmove_",
    "sol_memset_",
    "sol_memcmp_",
    "sol_try_find_program_address",
    "sol_create_program_address",
    "sol_invoke_signed_rust",
    "sol_get_clock_sysvar",
    "sol_get_rent_sysvar",
    "sol_get_sysvar",
    "sol_get_return_data",
    "sol_set_return_data",
    "sol_sha256",
    "sol_keccak256",
    "sol_get_stack_height",
    "sol_get_processed_sibling_instruction",
    "sol_remaining_compute_units",
    "sol_get_epoch_schedule_sysvar",
    "sol_get_fees_sysvar",
    "sol_get_last_restart_slot",
    "sol_curve_validate_point",
    "sol_curve_group_op",
    "sol_curve_multiscalar_mul",
    "sol_secp256k1_recover",
    "sol_blake3",
    "sol_poseidon",
    "sol_alt_bn128_group_op",
    "sol_alt_bn128_compression",
    "sol_big_mod_exp",
    "sol_get_epoch_stake",
    "sol_invoke_signed_c",
    "sol_alloc_free_",
];

fn stub_fn(
    _: *mut solana_sbpf::vm::EbpfVm<Ctx>,
    _: u64,
    _: u64,
    _: u64,
    _: u64,
    _: u64,
) {
}

impl Program {
    pub fn load(bytes: &[u8]) -> Program {
        let config = Config { reject_broken_elfs: false, ..Config::default() };
        let mut loader: BuiltinProgram<Ctx> = BuiltinProgram::new_loader(config);
        let mut syscalls = HashMap::new();
        for s in SYSCALLS {
            loader.register_function(s, stub_fn).expect("register");
            syscalls.insert(ebpf::hash_symbol_name(s.as_bytes()), *s);
        }
        let ex: Executable<Ctx> = Executable::load(bytes, Arc::new(loader)).expect("load elf");
        assert_eq!(ex.get_sbpf_version(), solana_sbpf::program::SBPFVersion::V0, "only sBPF v0 is modelled");
        let (text_addr, text) = ex.get_text_bytes();
        let n = text.len() / 8;
        let mut insns = Vec::with_capacity(n);
        for pc in 0..n {
            let mut i = ebpf::get_insn_unchecked(text, pc);
            if i.opc == ebpf::LD_DW_IMM {
                ebpf::augment_lddw_unchecked(text, &mut i);
            }
            insns.push(Insn { opc: i.opc, dst: i.dst as usize, src: i.src as usize, off: i.off as i64, imm: i.imm });
        }
        let mut calls = HashMap::new();
        let mut func_entries = HashSet::new();
        for (key, (_name, pc)) in ex.get_function_registry().iter() {
            calls.insert(key, pc);
            func_entries.insert(pc);
        }
        let ro_region = ex.get_ro_region();
        let ro_bytes = ex.get_ro_section();
        let vm_addr = ro_region.vm_addr_range().start;
        let mut ro = Region::new(vm_addr, ro_bytes.len() as u64, false);
        for (i, b) in ro_bytes.iter().enumerate() {
            if *b != 0 {
                ro.set_c(i as u64, *b);
            }
        }
        let mut hooks = HashMap::new();
        for (name, body) in crate::sys::signatures() {
            for start in func_entries.iter().cloned() {
                if start + body.len() <= insns.len()
                    && body.iter().zip(&insns[start..]).all(|(w, i): (&crate::sys::Sig, &Insn)| w.matches(i))
                {
                    hooks.insert(start, name.clone());
                }
            }
        }
        let live = liveness(&insns, &calls, &syscalls);
        Program {
            insns,
            live,
            text_addr,
            entry: ex.get_entrypoint_instruction_offset(),
            calls,
            syscalls,
            hooks,
            ro: Rc::new(ro),
            func_entries,
            elf_len: bytes.len(),
        }
    }
}

fn sys_args(name: &str) -> u16 {
    match name {
        "abort" | "sol_log_compute_units_" | "sol_get_stack_height" | "sol_remaining_compute_units" => 0,
        "sol_get_clock_sysvar" | "sol_get_rent_sysvar" | "sol_log_pubkey" => 0b10,
        "sol_log_" | "sol_log_data" | "sol_set_return_data" => 0b110,
        "sol_memcpy_" | "sol_memmove_" | "sol_memset_" | "sol_get_return_data" => 0b1110,
        "sol_memcmp_" | "sol_get_sysvar" => 0b11110,
        _ => 0x3e,
    }
}

/// backward register liveness over the whole text, through calls
fn liveness(insns: &[Insn], calls: &HashMap<u32, usize>, sysc: &HashMap<u32, &'static str>) -> Vec<u16> {
    let n = insns.len();
    let mut live = vec![0u16; n + 1];
    let mut preds: Vec<Vec<u32>> = vec![vec![]; n + 1];
    let target = |pc: usize, i: &Insn| -> Option<usize> {
        let key = (pc as i64 + 1 + i.imm) as u32;
        calls.get(&(i.imm as u32)).or_else(|| calls.get(&key)).copied()
    };
    for (pc, i) in insns.iter().enumerate() {
        if i.opc == ebpf::EXIT {
            continue;
        }
        if i.opc == ebpf::LD_DW_IMM {
            preds[(pc + 2).min(n)].push(pc as u32);
            continue;
        }
        if i.opc & 7 == ebpf::BPF_JMP {
            if i.opc == ebpf::CALL_IMM {
                if let Some(t) = target(pc, i) {
                    preds[t.min(n)].push(pc as u32); // argument registers
                }
            } else if i.opc != ebpf::CALL_REG {
                let t = (pc as i64 + 1 + i.off).clamp(0, n as i64) as usize;
                preds[t].push(pc as u32);
                if i.opc == ebpf::JA {
                    continue;
                }
            }
        }
        preds[pc + 1].push(pc as u32);
    }
    // instructions from which the enclosing function can return
    let mut returns = vec![false; n + 1];
    loop {
        let mut changed = false;
        for pc in (0..n).rev() {
            if returns[pc] {
                continue;
            }
            let i = &insns[pc];
            let jt = (pc as i64 + 1 + i.off).clamp(0, n as i64) as usize;
            let r = match i.opc {
                ebpf::EXIT => true,
                ebpf::LD_DW_IMM => returns[(pc + 2).min(n)],
                ebpf::CALL_IMM => match (target(pc, i), sysc.get(&(i.imm as u32))) {
                    (_, Some(&"abort")) | (_, Some(&"sol_panic_")) => false,
                    (Some(t), None) => returns[t.min(n)] && returns[pc + 1],
                    _ => returns[pc + 1],
                },
                ebpf::JA => returns[jt],
                o if o & 7 == ebpf::BPF_JMP && o != ebpf::CALL_REG => returns[jt] || returns[pc + 1],
                _ => returns[pc + 1],
            };
            if r {
                returns[pc] = true;
                changed = true;
            }
        }
        if !changed {
            break;
        }
    }
    let flow = |pc: usize, live: &[u16]| -> u16 {
        let i = &insns[pc];
        let b = |r: usize| 1u16 << r;
        match i.opc & 7 {
            ebpf::BPF_LD => live[(pc + 2).min(n)] & !b(i.dst),
            ebpf::BPF_LDX => live[pc + 1] & !b(i.dst) | b(i.src),
            ebpf::BPF_ST => live[pc + 1] | b(i.dst),
            ebpf::BPF_STX => live[pc + 1] | b(i.dst) | b(i.src),
            ebpf::BPF_ALU32_LOAD | ebpf::BPF_ALU64_STORE => {
                let op = i.opc & 0xf0;
                let src = if i.opc & 8 != 0 && op != ebpf::BPF_END { b(i.src) } else { 0 };
                if op == ebpf::BPF_MOV {
                    live[pc + 1] & !b(i.dst) | src
                } else {
                    live[pc + 1] | b(i.dst) | src
                }
            }
            _ => match i.opc {
                ebpf::EXIT => b(0) | b(2),
                ebpf::CALL_IMM => {
                    // r0..r5 are not preserved by calls (the C ABI the code is compiled for)
                    let args = match target(pc, i) {
                        Some(t) => live[t.min(n)] & 0x3e,
                        None => sysc.get(&(i.imm as u32)).map(|s| sys_args(s)).unwrap_or(0x3e),
                    };
                    match sysc.get(&(i.imm as u32)) {
                        // the transaction fails whatever the registers hold
                        Some(&"abort") | Some(&"sol_panic_") => 0,
                        None if target(pc, i).map(|t| !returns[t.min(n)]).unwrap_or(false) => 0,
                        _ => live[pc + 1] & !0x3f | args,
                    }
                }
                ebpf::CALL_REG => live[pc + 1] & !0x3f | 0x3e | b(i.imm as usize & 15),
                ebpf::JA => live[(pc as i64 + 1 + i.off).clamp(0, n as i64) as usize],
                _ => {
                    let t = (pc as i64 + 1 + i.off).clamp(0, n as i64) as usize;
                    let src = if i.opc & 8 != 0 { b(i.src) } else { 0 };
                    live[pc + 1] | live[t] | b(i.dst) | src
                }
            },
        }
    };
    let mut work: Vec<u32> = (0..n as u32).collect();
    let mut queued = vec![true; n];
    while let Some(pc) = work.pop() {
        queued[pc as usize] = false;
        let v = flow(pc as usize, &live);
        if v != live[pc as usize] {
            live[pc as usize] = v;
            for p in &preds[pc as usize] {
                if !queued[*p as usize] {
                    queued[*p as usize] = true;
                    work.push(*p);
                }
            }
        }
    }
    live
}

#[derive(Clone)]
pub struct Frame {
    saved: [Val; 4],
    fp: u64,
    ret: usize,
}

#[derive(Clone, Debug)]
pub enum Outcome {
    /// program returned r0 (0 = success)
    Exit(u64),
    /// a CPI was refused by the callee or by the runtime: the transaction fails
    CpiFail(String),
    /// panic, access violation, ...: the transaction fails
    Abort(String),
    /// runtime refuses the program's own account changes
    RuntimeReject(String),
    /// the engine could not continue
    Incon(String),
}
impl Outcome {
    pub fn ok(&self) -> bool {
        matches!(self, Outcome::Exit(0))
    }
    pub fn label(&self) -> String {
        match self {
            Outcome::Exit(0) => "success".into(),
            Outcome::Exit(c) => format!("error 0x{:x}", c),
            Outcome::CpiFail(s) => format!("cpi-fail: {}", s),
            Outcome::Abort(s) => format!("abort: {}", s),
            Outcome::RuntimeReject(s) => format!("runtime-reject: {}", s),
            Outcome::Incon(s) => format!("inconclusive: {}", s),
        }
    }
}

#[derive(Clone)]
pub struct PdaEntry {
    pub cat: Rc<Vec<E>>, // concatenated seeds
    pub program: Key,
    pub tag: [u8; 32],
    pub bump: E, // 8 bit
}

#[derive(Clone)]
pub struct CpiMeta {
    pub acct: usize, // index of the (non-duplicate) input account
    pub key: Key,
    pub signer: E,   // as requested, 1 bit
    pub writable: E, // 1 bit
}
#[derive(Clone)]
pub struct CpiRec {
    pub program: Key,
    pub metas: Vec<CpiMeta>,
    pub data: Vec<E>,
    pub signer_tags: Vec<[u8; 32]>, // PDAs signed for
    pub kind: String,               // recognised operation
}

#[derive(Clone)]
pub struct State {
    pub regs: [Val; 11],
    pub pc: usize,
    pub frames: Vec<Frame>,
    pub mem: Memory,
    pub cons: Vec<E>,
    pub known: im_set::Set,
    pub model: Rc<Model>,
    pub pdas: Rc<Vec<PdaEntry>>,
    pub cpis: Rc<Vec<CpiRec>>,
    pub accts: Rc<Vec<crate::world::AcctSt>>, // the runtime's view of the accounts
    pub retdata: Option<(Key, Vec<E>)>,
    pub fresh: u32,
    pub steps: u64,
    pub notes: Rc<Vec<String>>,
    pub poison: Rc<Vec<(u64, u64)>>, // input ranges whose contents are not modelled any more
    pub clock_read: bool,
}

/// a tiny persistent-ish set (cloned on fork)
pub mod im_set {
    use super::*;
    #[derive(Clone, Default)]
    pub struct Set(pub Rc<HashSet<E>>);
    impl Set {
        pub fn has(&self, e: E) -> bool {
            self.0.contains(&e)
        }
        pub fn add(&mut self, e: E) {
            Rc::make_mut(&mut self.0).insert(e);
        }
    }
}

pub enum Stop {
    Fork(E, Rc<Model>), // condition, model for the side the current model does not take
    End(Outcome),
}
impl From<Fault> for Stop {
    fn from(f: Fault) -> Stop {
        Stop::End(Outcome::Abort(f.0))
    }
}
pub type R<T> = Result<T, Stop>;

pub struct Limits {
    pub max_paths: usize,
    pub max_steps_path: u64,
    pub max_wall_s: f64,
    pub addr_values: usize,
}
impl Default for Limits {
    fn default() -> Self {
        Limits { max_paths: 20_000, max_steps_path: 3_000_000, max_wall_s: 600.0, addr_values: 64 }
    }
}

pub struct Engine {
    pub prog: Rc<Program>,
    pub solver: Solver,
    pub limits: Limits,
    pub covered: Vec<bool>,
    pub total_steps: u64,
    pub merges: u64,
    pub forks: u64,
    pub pda_registry: HashMap<(Vec<E>, Vec<E>), ([u8; 32], E)>,
    pub base58: HashMap<Vec<E>, Vec<E>>,
    pub world: crate::world::World,
    pub log: bool,
    pub trace_forks: HashMap<usize, u64>,
    pub started: std::time::Instant,
    pub named_vars: HashMap<String, E>,
}

fn alu_ok(o: u8) -> bool {
    // ALU classes without div/mod
    let class = o & 7;
    if class != ebpf::BPF_ALU32_LOAD && class != ebpf::BPF_ALU64_STORE {
        return false;
    }
    let op = o & 0xf0;
    op != ebpf::BPF_DIV && op != ebpf::BPF_MOD
}

fn is_ptr(v: u64) -> bool {
    (0x1_0000_0000..0x5_0000_0000).contains(&v)
}

impl Engine {
    pub fn new(prog: Rc<Program>, world: crate::world::World) -> Engine {
        let n = prog.insns.len();
        Engine {
            prog,
            solver: Solver::new(),
            limits: Limits::default(),
            covered: vec![false; n],
            total_steps: 0,
            merges: 0,
            forks: 0,
            pda_registry: HashMap::new(),
            base58: HashMap::new(),
            world,
            log: std::env::var("SYM_LOG").is_ok(),
            trace_forks: HashMap::new(),
            started: std::time::Instant::now(),
            named_vars: HashMap::new(),
        }
    }

    pub fn add_con(&mut self, st: &mut State, c: E) {
        if is_true(c) {
            return;
        }
        if let Node::Bin(Op::And, a, b) = node(c) {
            self.add_con(st, a);
            self.add_con(st, b);
            st.known.add(c);
            return;
        }
        if let Node::Not(x) = node(c) {
            if let (Node::Bin(Op::Or, a, b), 1) = (node(x), width(x)) {
                self.add_con(st, not(a));
                self.add_con(st, not(b));
                st.known.add(c);
                return;
            }
        }
        if !st.known.has(c) {
            st.known.add(c);
            st.cons.push(c);
        }
    }

    pub fn scheck(&mut self, st: &State, c: E) -> Res {
        self.solver.hint = Some(st.model.clone());
        self.solver.check(&st.cons, c)
    }
    /// value of `c` on this path, or a fork request
    pub fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(k) = as_const(c) {
            return Ok(k == 1);
        }
        if st.known.has(c) {
            return Ok(true);
        }
        let nc = not(c);
        if st.known.has(nc) {
            return Ok(false);
        }
        let b = eval(&st.model, c) == 1;
        let other = if b { nc } else { c };
        match self.scheck(st, other) {
            Res::Unsat => {
                st.known.add(if b { c } else { nc });
                Ok(b)
            }
            Res::Sat(m) => {
                let mut full = (*st.model).clone();
                for (k, v) in m.iter() {
                    full.insert(*k, *v);
                }
                Err(Stop::Fork(c, Rc::new(full)))
            }
            Res::Unknown => Err(Stop::End(Outcome::Incon("solver timeout on a branch".into()))),
        }
    }
    /// must `c` hold on this path (no fork)
    pub fn must(&mut self, st: &mut State, c: E) -> bool {
        if let Some(k) = as_const(c) {
            return k == 1;
        }
        if st.known.has(c) {
            return true;
        }
        if eval(&st.model, c) != 1 {
            return false;
        }
        match self.scheck(st, not(c)) {
            Res::Unsat => {
                st.known.add(c);
                true
            }
            _ => false,
        }
    }
    /// can `c` hold on this path
    pub fn may(&mut self, st: &mut State, c: E) -> bool {
        if let Some(k) = as_const(c) {
            return k == 1;
        }
        if st.known.has(c) || eval(&st.model, c) == 1 {
            return true;
        }
        !matches!(self.scheck(st, c), Res::Unsat)
    }

    /// unique concrete value, forking over the alternatives
    pub fn concretize(&mut self, st: &mut State, v: Val, what: &str) -> R<u64> {
        match v {
            Val::C(c) => Ok(c),
            Val::S(e) => {
                let guess = eval(&st.model, e) as u64;
                let c = eq(e, k64(guess));
                match self.decide(st, c) {
                    Ok(true) => Ok(guess),
                    Ok(false) => Err(Stop::End(Outcome::Incon(format!("concretize {}", what)))),
                    Err(s) => Err(s),
                }
            }
        }
    }

    /// a load from a constant table: one chain over the whole range of the index
    fn table_load(&mut self, st: &mut State, e: E, n: usize) -> R<Option<Val>> {
        let a0 = eval(&st.model, e) as u64;
        if a0 >> 32 > 1 {
            return Ok(None);
        }
        let outside = |lo: u64, hi: u64| or(ult(e, k64(lo)), ult(k64(hi), e));
        let holds = |s: &mut Self, st: &State, c: E| is_false(c) || matches!(s.scheck(st, c), Res::Unsat);
        let w = 256;
        if a0 < w || !holds(self, st, outside(a0 - w, a0 + w)) {
            return Ok(None);
        }
        // tighten both ends
        let (mut l, mut h) = (a0 - w, a0);
        while l < h {
            let m = (l + h + 1) / 2;
            if holds(self, st, ult(e, k64(m))) {
                l = m;
            } else {
                h = m - 1;
            }
        }
        let lo = l;
        let (mut l, mut h) = (a0, a0 + w);
        while l < h {
            let m = (l + h) / 2;
            if holds(self, st, ult(k64(m), e)) {
                h = m;
            } else {
                l = m + 1;
            }
        }
        let hi = h;
        let even = hi > lo + 1 && holds(self, st, ne(extract(0, 0, e), konst(1, (lo & 1) as u128)));
        let step = if even { 2 } else { 1 };
        let mut r: Option<Val> = None;
        let mut a = lo;
        while a <= hi {
            match st.mem.load(a, n) {
                Ok(Val::C(x)) => {
                    r = Some(match r {
                        None => Val::C(x),
                        Some(p) => Val::of(ite(eq(e, k64(a)), k64(x), p.e())),
                    })
                }
                _ => return Ok(None),
            }
            a += step;
        }
        Ok(r)
    }

    fn load(&mut self, st: &mut State, addr: Val, n: usize) -> R<Val> {
        match addr {
            Val::C(a) => {
                if !st.poison.is_empty() && (a >> 32) == 4 {
                    self.check_poison(st, a, n as u64)?;
                }
                Ok(st.mem.load(a, n)?)
            }
            Val::S(e) => {
                if let Some(v) = self.table_load(st, e, n)? {
                    return Ok(v);
                }
                // enumerate the possible addresses; few: ite chain, else fork
                let mut vals: Vec<u64> = vec![];
                let mut block = tru();
                let first = eval(&st.model, e) as u64;
                vals.push(first);
                block = and(block, ne(e, k64(first)));
                let mut complete = false;
                while vals.len() <= self.limits.addr_values {
                    match self.scheck(st, block) {
                        Res::Unsat => {
                            complete = true;
                            break;
                        }
                        Res::Sat(m) => {
                            let mut full = (*st.model).clone();
                            for (k, v) in m.iter() {
                                full.insert(*k, *v);
                            }
                            let v = eval(&full, e) as u64;
                            vals.push(v);
                            block = and(block, ne(e, k64(v)));
                        }
                        Res::Unknown => {
                            return Err(Stop::End(Outcome::Incon("solver timeout on an address".into())))
                        }
                    }
                }
                if complete {
                    let mut ok = true;
                    let mut r: Option<Val> = None;
                    for v in &vals {
                        match st.mem.load(*v, n) {
                            Ok(x) => {
                                r = Some(match r {
                                    None => x,
                                    Some(p) => Val::of(ite(eq(e, k64(*v)), x.e(), p.e())),
                                });
                            }
                            Err(_) => {
                                ok = false;
                                break;
                            }
                        }
                    }
                    if ok {
                        return Ok(r.unwrap());
                    }
                }
                let a = self.concretize(st, Val::S(e), "load address")?;
                Ok(st.mem.load(a, n)?)
            }
        }
    }
    pub fn check_poison(&mut self, st: &State, a: u64, n: u64) -> R<()> {
        for (s, e) in st.poison.iter() {
            if a < *e && a + n > *s {
                return Err(Stop::End(Outcome::Incon(format!("read of unmodelled data at 0x{:x}", a))));
            }
        }
        Ok(())
    }
    fn store(&mut self, st: &mut State, addr: Val, n: usize, v: Val) -> R<()> {
        let a = self.concretize(st, addr, "store address")?;
        Ok(st.mem.store(a, n, v)?)
    }

    fn alu(i: &Insn, r: &mut [Val; 11]) -> Result<(), Outcome> {
        let is64 = (i.opc & 7) == ebpf::BPF_ALU64_STORE;
        let op = i.opc & 0xf0;
        let reg_src = i.opc & 8 != 0;
        if op == ebpf::BPF_END {
            // LE (imm variant) / BE (reg variant)
            let be = reg_src;
            let w = i.imm as u16;
            let d = r[i.dst];
            r[i.dst] = match d {
                Val::C(v) => Val::C(match (w, be) {
                    (16, false) => v as u16 as u64,
                    (32, false) => v as u32 as u64,
                    (64, false) => v,
                    (16, true) => (v as u16).swap_bytes() as u64,
                    (32, true) => (v as u32).swap_bytes() as u64,
                    (64, true) => v.swap_bytes(),
                    _ => return Err(Outcome::Abort("bad END".into())),
                }),
                Val::S(e) => {
                    let x = resize(w, e);
                    let x = if be {
                        let mut bs = to_bytes(x);
                        bs.reverse();
                        from_bytes(&bs)
                    } else {
                        x
                    };
                    Val::of(zext(64, x))
                }
            };
            return Ok(());
        }
        let s: Val = if op == ebpf::BPF_NEG {
            Val::C(0)
        } else if reg_src {
            r[i.src]
        } else {
            Val::C(i.imm as u64)
        };
        let d = r[i.dst];
        if let (Val::C(d), Val::C(s)) = (d, s) {
            let v = if is64 {
                match op {
                    ebpf::BPF_ADD => d.wrapping_add(s),
                    ebpf::BPF_SUB => d.wrapping_sub(s),
                    ebpf::BPF_MUL => d.wrapping_mul(s),
                    ebpf::BPF_DIV => {
                        if s == 0 {
                            return Err(Outcome::Abort("division by zero".into()));
                        }
                        d / s
                    }
                    ebpf::BPF_OR => d | s,
                    ebpf::BPF_AND => d & s,
                    ebpf::BPF_LSH => d.wrapping_shl(s as u32),
                    ebpf::BPF_RSH => d.wrapping_shr(s as u32),
                    ebpf::BPF_NEG => (d as i64).wrapping_neg() as u64,
                    ebpf::BPF_MOD => {
                        if s == 0 {
                            return Err(Outcome::Abort("division by zero".into()));
                        }
                        d % s
                    }
                    ebpf::BPF_XOR => d ^ s,
                    ebpf::BPF_MOV => s,
                    ebpf::BPF_ARSH => (d as i64).wrapping_shr(s as u32) as u64,
                    _ => return Err(Outcome::Abort(format!("opcode {:x}", i.opc))),
                }
            } else {
                let (a, b) = (d as u32, s as u32);
                match op {
                    ebpf::BPF_ADD => (a as i32).wrapping_add(b as i32) as i64 as u64,
                    ebpf::BPF_SUB => (a as i32).wrapping_sub(b as i32) as i64 as u64,
                    ebpf::BPF_MUL => (a as i32).wrapping_mul(b as i32) as u64,
                    ebpf::BPF_DIV => {
                        if b == 0 {
                            return Err(Outcome::Abort("division by zero".into()));
                        }
                        (a / b) as u64
                    }
                    ebpf::BPF_OR => (a | b) as u64,
                    ebpf::BPF_AND => (a & b) as u64,
                    ebpf::BPF_LSH => a.wrapping_shl(b) as u64,
                    ebpf::BPF_RSH => a.wrapping_shr(b) as u64,
                    ebpf::BPF_NEG => (a as i32).wrapping_neg() as u32 as u64,
                    ebpf::BPF_MOD => {
                        if b == 0 {
                            return Err(Outcome::Abort("division by zero".into()));
                        }
                        (a % b) as u64
                    }
                    ebpf::BPF_XOR => (a ^ b) as u64,
                    ebpf::BPF_MOV => b as u64,
                    ebpf::BPF_ARSH => (a as i32).wrapping_shr(b) as u32 as u64,
                    _ => return Err(Outcome::Abort(format!("opcode {:x}", i.opc))),
                }
            };
            r[i.dst] = Val::C(v);
            return Ok(());
        }
        let (de, se) = (d.e(), s.e());
        let v = if is64 {
            match op {
                ebpf::BPF_ADD => add(de, se),
                ebpf::BPF_SUB => sub(de, se),
                ebpf::BPF_MUL => mul(de, se),
                ebpf::BPF_DIV => bin(Op::Udiv, de, se),
                ebpf::BPF_OR => or(de, se),
                ebpf::BPF_AND => and(de, se),
                ebpf::BPF_LSH => bin(Op::Shl, de, and(se, k64(63))),
                ebpf::BPF_RSH => bin(Op::Lshr, de, and(se, k64(63))),
                ebpf::BPF_NEG => sub(k64(0), de),
                ebpf::BPF_MOD => bin(Op::Urem, de, se),
                ebpf::BPF_XOR => xor(de, se),
                ebpf::BPF_MOV => se,
                ebpf::BPF_ARSH => bin(Op::Ashr, de, and(se, k64(63))),
                _ => return Err(Outcome::Abort(format!("opcode {:x}", i.opc))),
            }
        } else {
            let (a, b) = (extract(31, 0, de), extract(31, 0, se));
            let m31 = konst(32, 31);
            let z = |e| zext(64, e);
            match op {
                ebpf::BPF_ADD => sext(64, add(a, b)),
                ebpf::BPF_SUB => sext(64, sub(a, b)),
                ebpf::BPF_MUL => sext(64, mul(a, b)),
                ebpf::BPF_DIV => z(bin(Op::Udiv, a, b)),
                ebpf::BPF_OR => z(or(a, b)),
                ebpf::BPF_AND => z(and(a, b)),
                ebpf::BPF_LSH => z(bin(Op::Shl, a, and(b, m31))),
                ebpf::BPF_RSH => z(bin(Op::Lshr, a, and(b, m31))),
                ebpf::BPF_NEG => z(sub(konst(32, 0), a)),
                ebpf::BPF_MOD => z(bin(Op::Urem, a, b)),
                ebpf::BPF_XOR => z(xor(a, b)),
                ebpf::BPF_MOV => z(b),
                ebpf::BPF_ARSH => z(bin(Op::Ashr, a, and(b, m31))),
                _ => return Err(Outcome::Abort(format!("opcode {:x}", i.opc))),
            }
        };
        r[i.dst] = Val::of(v);
        Ok(())
    }

    fn jcond(i: &Insn, r: &[Val; 11]) -> Option<Result<bool, E>> {
        let op = i.opc & 0xf0;
        let s = if i.opc & 8 != 0 { r[i.src] } else { Val::C(i.imm as u64) };
        let d = r[i.dst];
        if let (Val::C(d), Val::C(s)) = (d, s) {
            let b = match op {
                ebpf::BPF_JEQ => d == s,
                ebpf::BPF_JGT => d > s,
                ebpf::BPF_JGE => d >= s,
                ebpf::BPF_JLT => d < s,
                ebpf::BPF_JLE => d <= s,
                ebpf::BPF_JSET => d & s != 0,
                ebpf::BPF_JNE => d != s,
                ebpf::BPF_JSGT => (d as i64) > s as i64,
                ebpf::BPF_JSGE => (d as i64) >= s as i64,
                ebpf::BPF_JSLT => (d as i64) < (s as i64),
                ebpf::BPF_JSLE => (d as i64) <= s as i64,
                _ => return None,
            };
            return Some(Ok(b));
        }
        let (d, s) = (d.e(), s.e());
        let c = match op {
            ebpf::BPF_JEQ => eq(d, s),
            ebpf::BPF_JGT => ult(s, d),
            ebpf::BPF_JGE => ule(s, d),
            ebpf::BPF_JLT => ult(d, s),
            ebpf::BPF_JLE => ule(d, s),
            ebpf::BPF_JSET => ne(and(d, s), k64(0)),
            ebpf::BPF_JNE => ne(d, s),
            ebpf::BPF_JSGT => slt(s, d),
            ebpf::BPF_JSGE => sle(s, d),
            ebpf::BPF_JSLT => slt(d, s),
            ebpf::BPF_JSLE => sle(d, s),
            _ => return None,
        };
        Some(Err(c))
    }

    /// run straight-line ALU code in [from, to) on `regs`; None when it is not straight-line
    fn run_alu(&self, from: usize, to: usize, regs: &mut [Val; 11]) -> Option<()> {
        let mut pc = from;
        while pc < to {
            let i = self.prog.insns[pc];
            if i.opc == ebpf::LD_DW_IMM {
                regs[i.dst] = Val::C(i.imm as u64);
                pc += 2;
                continue;
            }
            if !alu_ok(i.opc) {
                return None;
            }
            Self::alu(&i, regs).ok()?;
            pc += 1;
        }
        if pc == to {
            Some(())
        } else {
            None
        }
    }

    /// try to turn a branch into selects; on success registers and pc are updated
    fn if_convert(&mut self, st: &mut State, c: E, taken: usize, fall: usize) -> bool {
        const MAX: usize = 10;
        let mut cand: Vec<(usize, [Val; 11], [Val; 11])> = vec![];
        if taken > fall && taken - fall <= MAX {
            // if c skip
            let mut b = st.regs;
            if self.run_alu(fall, taken, &mut b).is_some() {
                cand.push((taken, st.regs, b));
            } else {
                // diamond: fall..taken-1 ; ja J ; taken..J
                let ja = self.prog.insns[taken - 1];
                if ja.opc == ebpf::JA && ja.off >= 0 && ja.off as usize <= MAX {
                    let j = (taken as i64 + ja.off) as usize;
                    let mut a = st.regs;
                    let mut b = st.regs;
                    if self.run_alu(taken, j, &mut a).is_some() && self.run_alu(fall, taken - 1, &mut b).is_some() {
                        cand.push((j, a, b));
                    }
                }
            }
        }
        for (join, a, b) in cand {
            let mut r = [Val::C(0); 11];
            let mut ok = true;
            for k in 0..11 {
                r[k] = match (a[k], b[k]) {
                    (x, y) if x == y => x,
                    (Val::C(x), Val::C(y)) if is_ptr(x) || is_ptr(y) => {
                        ok = false;
                        break;
                    }
                    (x, y) => {
                        // do not hide a pointer inside a select
                        let px = matches!(x, Val::C(v) if is_ptr(v));
                        let py = matches!(y, Val::C(v) if is_ptr(v));
                        if px || py {
                            ok = false;
                            break;
                        }
                        Val::of(ite(c, x.e(), y.e()))
                    }
                };
            }
            if ok {
                st.regs = r;
                st.pc = join;
                self.merges += 1;
                return true;
            }
        }
        false
    }

    /// destination after unconditional jumps
    fn follow(&self, mut pc: usize) -> usize {
        for _ in 0..4 {
            match self.prog.insns.get(pc) {
                Some(i) if i.opc == ebpf::JA => pc = (pc as i64 + 1 + i.off) as usize,
                _ => break,
            }
        }
        pc
    }
    /// a run of branches to one target (the comparison of two long values, a chain of
    /// alternatives): one combined condition instead of one path per branch
    fn chain(&mut self, st: &State, c: E, taken: usize, fall: usize) -> Option<(E, usize, [Val; 11], usize, [Val; 11], usize)> {
        const MAX_BRANCHES: usize = 12;
        const MAX_INSNS: usize = 400;
        let prog = self.prog.clone();
        let mut stay = vec![not(c)];
        let mut arrivals: Vec<(E, [Val; 11])> = vec![(c, st.regs)];
        let mut regs = st.regs;
        let mut pc = fall;
        // last point at which the chain may be cut
        let mut good: Option<(usize, usize, [Val; 11])> = None; // branches, pc, regs
        let mut n = 0;
        while n < MAX_INSNS && stay.len() < MAX_BRANCHES {
            n += 1;
            if pc >= prog.insns.len() {
                break;
            }
            if pc == taken {
                break;
            }
            let i = prog.insns[pc];
            match i.opc & 7 {
                ebpf::BPF_LD => {
                    if i.opc != ebpf::LD_DW_IMM {
                        break;
                    }
                    regs[i.dst] = Val::C(i.imm as u64);
                    pc += 2;
                }
                ebpf::BPF_LDX => {
                    let sz = match i.opc {
                        ebpf::LD_B_REG => 1,
                        ebpf::LD_H_REG => 2,
                        ebpf::LD_W_REG => 4,
                        _ => 8,
                    };
                    let a = match addr_add(regs[i.src], i.off) {
                        Val::C(a) => a,
                        _ => break,
                    };
                    if self.check_poison(st, a, sz as u64).is_err() {
                        break;
                    }
                    match st.mem.load(a, sz) {
                        Ok(v) => regs[i.dst] = v,
                        Err(_) => break,
                    }
                    pc += 1;
                }
                ebpf::BPF_ALU32_LOAD | ebpf::BPF_ALU64_STORE => {
                    if !alu_ok(i.opc) || Self::alu(&i, &mut regs).is_err() {
                        break;
                    }
                    pc += 1;
                }
                ebpf::BPF_JMP => {
                    if i.opc == ebpf::JA {
                        pc = (pc as i64 + 1 + i.off) as usize;
                        continue;
                    }
                    if i.opc == ebpf::CALL_IMM || i.opc == ebpf::CALL_REG || i.opc == ebpf::EXIT {
                        break;
                    }
                    let t = self.follow((pc as i64 + 1 + i.off) as usize);
                    let f = self.follow(pc + 1);
                    let (hit, next) = match Self::jcond(&i, &regs) {
                        None => break,
                        Some(Ok(b)) => {
                            pc = if b { t } else { f };
                            continue;
                        }
                        Some(Err(e)) => {
                            if t == taken {
                                (e, f)
                            } else if f == taken {
                                (not(e), t)
                            } else {
                                break;
                            }
                        }
                    };
                    // can the registers at the target be merged?
                    let mut r = regs;
                    let live = prog.live[taken];
                    let mut ok = true;
                    for k in 0..11 {
                        if live & (1 << k) == 0 {
                            continue;
                        }
                        for (_, a) in arrivals.iter() {
                            let ptr = |v: Val| matches!(v, Val::C(x) if is_ptr(x));
                            if a[k] != regs[k] && (ptr(a[k]) || ptr(regs[k]) || k == 10) {
                                ok = false;
                            }
                        }
                    }
                    if !ok {
                        break;
                    }
                    arrivals.push((hit, regs));
                    stay.push(not(hit));
                    pc = next;
                    let _ = &mut r;
                    good = Some((stay.len(), pc, regs));
                }
                _ => break,
            }
        }
        let (k, next, nregs) = good?;
        let d = not(all(&stay[..k]));
        // registers at the target: by the first branch that is taken
        let mut t = arrivals[k - 1].1;
        for r in 0..11 {
            for (cnd, a) in arrivals[..k - 1].iter().rev() {
                if prog.live[taken] & (1 << r) != 0 && a[r] != t[r] {
                    t[r] = Val::of(ite(*cnd, a[r].e(), t[r].e()));
                }
            }
        }
        Some((d, taken, t, next, nregs, k))
    }

    /// run until the state ends or forks
    pub fn run_state(&mut self, st: &mut State) -> Stop {
        let prog = self.prog.clone();
        loop {
            if st.pc >= prog.insns.len() {
                return Stop::End(Outcome::Abort("pc outside text".into()));
            }
            st.steps += 1;
            self.total_steps += 1;
            if st.steps > self.limits.max_steps_path {
                return Stop::End(Outcome::Incon("instruction budget of a path".into()));
            }
            self.covered[st.pc] = true;
            let i = prog.insns[st.pc];
            let class = i.opc & 7;
            match class {
                ebpf::BPF_LD => {
                    if i.opc != ebpf::LD_DW_IMM {
                        return Stop::End(Outcome::Abort(format!("opcode {:x}", i.opc)));
                    }
                    st.regs[i.dst] = Val::C(i.imm as u64);
                    st.pc += 2;
                }
                ebpf::BPF_LDX => {
                    let n = match i.opc {
                        ebpf::LD_B_REG => 1,
                        ebpf::LD_H_REG => 2,
                        ebpf::LD_W_REG => 4,
                        ebpf::LD_DW_REG => 8,
                        _ => return Stop::End(Outcome::Abort(format!("opcode {:x}", i.opc))),
                    };
                    let a = addr_add(st.regs[i.src], i.off);
                    match self.load(st, a, n) {
                        Ok(v) => st.regs[i.dst] = v,
                        Err(s) => return s,
                    }
                    st.pc += 1;
                }
                ebpf::BPF_ST | ebpf::BPF_STX => {
                    let (n, v) = match i.opc {
                        ebpf::ST_B_IMM => (1, Val::C(i.imm as u64)),
                        ebpf::ST_H_IMM => (2, Val::C(i.imm as u64)),
                        ebpf::ST_W_IMM => (4, Val::C(i.imm as u64)),
                        ebpf::ST_DW_IMM => (8, Val::C(i.imm as u64)),
                        ebpf::ST_B_REG => (1, st.regs[i.src]),
                        ebpf::ST_H_REG => (2, st.regs[i.src]),
                        ebpf::ST_W_REG => (4, st.regs[i.src]),
                        ebpf::ST_DW_REG => (8, st.regs[i.src]),
                        _ => return Stop::End(Outcome::Abort(format!("opcode {:x}", i.opc))),
                    };
                    let a = addr_add(st.regs[i.dst], i.off);
                    if let Err(s) = self.store(st, a, n, v) {
                        return s;
                    }
                    st.pc += 1;
                }
                ebpf::BPF_ALU32_LOAD | ebpf::BPF_ALU64_STORE => {
                    let op = i.opc & 0xf0;
                    if (op == ebpf::BPF_DIV || op == ebpf::BPF_MOD) && i.opc & 8 != 0 {
                        if let Val::S(e) = st.regs[i.src] {
                            let z = if class == ebpf::BPF_ALU32_LOAD {
                                eq(extract(31, 0, e), konst(32, 0))
                            } else {
                                eq(e, k64(0))
                            };
                            match self.decide(st, z) {
                                Ok(false) => {}
                                Ok(true) => return Stop::End(Outcome::Abort("division by zero".into())),
                                Err(s) => return s,
                            }
                        }
                    }
                    if let Err(o) = Self::alu(&i, &mut st.regs) {
                        return Stop::End(o);
                    }
                    st.pc += 1;
                }
                ebpf::BPF_JMP => match i.opc {
                    ebpf::JA => st.pc = (st.pc as i64 + 1 + i.off) as usize,
                    ebpf::CALL_IMM => {
                        if let Some(name) = prog.syscalls.get(&(i.imm as u32)) {
                            let snap = st.clone();
                            match self.syscall(st, name) {
                                Ok(r0) => {
                                    st.regs[0] = r0;
                                    st.pc += 1;
                                }
                                Err(Stop::Fork(c, m)) => {
                                    let known = st.known.clone();
                                    *st = snap;
                                    st.known = known;
                                    return Stop::Fork(c, m);
                                }
                                Err(s) => return s,
                            }
                        } else {
                            let key = (st.pc as i64 + 1 + i.imm) as u32;
                            let tgt = prog
                                .calls
                                .get(&(i.imm as u32))
                                .or_else(|| prog.calls.get(&key))
                                .copied();
                            match tgt {
                                Some(t) => {
                                    if let Err(s) = self.call(st, t) {
                                        return s;
                                    }
                                }
                                None => return Stop::End(Outcome::Abort(format!("unknown call {:x}", i.imm))),
                            }
                        }
                    }
                    ebpf::CALL_REG => {
                        let r = st.regs[i.imm as usize];
                        let a = match self.concretize(st, r, "callx") {
                            Ok(a) => a,
                            Err(s) => return s,
                        };
                        let t = (a.wrapping_sub(prog.text_addr) / 8) as usize;
                        if let Err(s) = self.call(st, t) {
                            return s;
                        }
                    }
                    ebpf::EXIT => {
                        if let Some(f) = st.frames.pop() {
                            st.regs[6..10].copy_from_slice(&f.saved);
                            st.regs[10] = Val::C(f.fp);
                            st.pc = f.ret;
                        } else {
                            let r0 = st.regs[0];
                            // success or not is one decision; error codes may stay symbolic
                            return match r0 {
                                Val::C(v) => Stop::End(Outcome::Exit(v)),
                                Val::S(e) => match self.decide(st, eq(e, k64(0))) {
                                    Ok(true) => Stop::End(Outcome::Exit(0)),
                                    Ok(false) => Stop::End(Outcome::Exit(eval(&st.model, e) as u64)),
                                    Err(s) => s,
                                },
                            };
                        }
                    }
                    _ => match Self::jcond(&i, &st.regs) {
                        None => return Stop::End(Outcome::Abort(format!("opcode {:x}", i.opc))),
                        Some(Ok(b)) => {
                            st.pc = if b { (st.pc as i64 + 1 + i.off) as usize } else { st.pc + 1 };
                        }
                        Some(Err(c)) => {
                            let taken = (st.pc as i64 + 1 + i.off) as usize;
                            let fall = st.pc + 1;
                            match self.decide(st, c) {
                                Ok(b) => st.pc = if b { taken } else { fall },
                                Err(Stop::Fork(c, m)) => {
                                    if self.if_convert(st, c, taken, fall) {
                                        continue;
                                    }
                                    let (rt, rf) = (self.follow(taken), self.follow(fall));
                                    let p = self.chain(st, c, rt, rf);
                                    let q = self.chain(st, not(c), rf, rt);
                                    let ch = match (p, q) {
                                        (Some(p), Some(q)) => Some(if q.5 > p.5 { q } else { p }),
                                        (p, q) => p.or(q),
                                    };
                                    if let Some((d, tpc, tregs, next, nregs, _)) = ch {
                                        match self.decide(st, d) {
                                            Ok(true) => {
                                                st.regs = tregs;
                                                st.pc = tpc;
                                            }
                                            Ok(false) => {
                                                st.regs = nregs;
                                                st.pc = next;
                                            }
                                            Err(s) => {
                                                if self.log {
                                                    eprintln!("fork(chain) at {} on {:?}", st.pc, d);
                                                }
                                                *self.trace_forks.entry(st.pc).or_default() += 1;
                                                return s;
                                            }
                                        }
                                        self.merges += 1;
                                        continue;
                                    }
                                    {
                                        if self.log {
                                            eprintln!("fork at {} on {:?}", st.pc, c);
                                        }
                                        *self.trace_forks.entry(st.pc).or_default() += 1;
                                        return Stop::Fork(c, m);
                                    }
                                }
                                Err(s) => return s,
                            }
                        }
                    },
                },
                _ => return Stop::End(Outcome::Abort(format!("opcode {:x}", i.opc))),
            }
        }
    }

    fn call(&mut self, st: &mut State, target: usize) -> R<()> {
        if let Some(h) = self.prog.hooks.get(&target).cloned() {
            let snap = st.clone();
            match self.hook(st, &h) {
                Ok(true) => {
                    st.pc += 1;
                    return Ok(());
                }
                Ok(false) => {}
                Err(Stop::Fork(c, m)) => {
                    let known = st.known.clone();
                    *st = snap;
                    st.known = known;
                    return Err(Stop::Fork(c, m));
                }
                Err(s) => return Err(s),
            }
        }
        let fp = match st.regs[10] {
            Val::C(v) => v,
            _ => return Err(Stop::End(Outcome::Abort("symbolic frame pointer".into()))),
        };
        let mut saved = [Val::C(0); 4];
        saved.copy_from_slice(&st.regs[6..10]);
        st.frames.push(Frame { saved, fp, ret: st.pc + 1 });
        if st.frames.len() >= 64 {
            return Err(Stop::End(Outcome::Abort("call depth".into())));
        }
        st.regs[10] = Val::C(fp + 2 * FRAME);
        if target >= self.prog.insns.len() {
            return Err(Stop::End(Outcome::Abort("call outside text".into())));
        }
        st.pc = target;
        if self.prog.hooks.get(&target).map(|h| h == "base58").unwrap_or(false) {
            return self.skip_base58(st, target);
        }
        Ok(())
    }

    /// explore all paths from `init`, calling `end` for each finished one
    pub fn explore(&mut self, init: State, mut end: impl FnMut(&mut Engine, State, Outcome)) -> usize {
        // oldest and newest pending states in turn, so that a subtree that branches without end
        // does not keep the others from being looked at
        let mut work = std::collections::VecDeque::from([init]);
        let mut paths = 0;
        let mut turn = 0u32;
        loop {
            turn += 1;
            let next = if turn % 8 == 0 { work.pop_front() } else { work.pop_back() };
            let Some(mut st) = next else { break };
            if self.started.elapsed().as_secs_f64() > self.limits.max_wall_s {
                paths += 1;
                end(self, st, Outcome::Incon("wall-clock budget".into()));
                continue;
            }
            match self.run_state(&mut st) {
                Stop::Fork(c, m) => {
                    self.forks += 1;
                    let b = eval(&st.model, c) == 1;
                    let mut other = st.clone();
                    other.model = m;
                    let (cs, co) = if b { (c, not(c)) } else { (not(c), c) };
                    self.add_con(&mut st, cs);
                    self.add_con(&mut other, co);
                    work.push_back(other);
                    work.push_back(st);
                }
                Stop::End(o) => {
                    let o = if o.ok() { self.exit_check(&mut st, &mut work) } else { Some(o) };
                    if let Some(o) = o {
                        paths += 1;
                        if paths > self.limits.max_paths {
                            end(self, st, Outcome::Incon("path budget".into()));
                            for s in work.drain(..) {
                                end(self, s, Outcome::Incon("path budget".into()));
                            }
                            break;
                        }
                        end(self, st, o);
                    }
                }
            }
        }
        paths
    }

    /// the runtime's verification of the program's own account changes
    fn exit_check(&mut self, st: &mut State, work: &mut std::collections::VecDeque<State>) -> Option<Outcome> {
        let ok = self.verify_changes(st);
        let ok = match ok {
            Ok(e) => e,
            Err(o) => return Some(o),
        };
        match self.decide(st, ok) {
            Ok(true) => Some(Outcome::Exit(0)),
            Ok(false) => Some(Outcome::RuntimeReject("account changes not permitted".into())),
            Err(Stop::Fork(c, m)) => {
                let b = eval(&st.model, c) == 1;
                let mut other = st.clone();
                other.model = m;
                let (cs, co) = if b { (c, not(c)) } else { (not(c), c) };
                self.add_con(st, cs);
                self.add_con(&mut other, co);
                work.push_back(other);
                // both sides re-run their exit check immediately
                if b {
                    Some(Outcome::Exit(0))
                } else {
                    Some(Outcome::RuntimeReject("account changes not permitted".into()))
                }
            }
            Err(Stop::End(o)) => Some(o),
        }
    }
}

fn addr_add(v: Val, off: i64) -> Val {
    match v {
        Val::C(c) => Val::C(c.wrapping_add(off as u64)),
        Val::S(e) => Val::of(add(e, k64(off as u64))),
    }
}
