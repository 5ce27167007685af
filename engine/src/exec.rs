//! Forking symbolic interpreter for the parsed module.
use crate::ir::*;
use crate::term::*;
use crate::z3::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(T),
    A(Rc<Vec<Val>>),
}

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub data: Vec<u8>,
    pub sym: Vec<u32>, // 0 = concrete, else term index + 1
    pub acct: Val,     // size charged to the heap account
}

impl Obj {
    fn new(size: u64) -> Obj {
        Obj {
            size,
            data: vec![],
            sym: vec![],
            acct: Val::C(0),
        }
    }
    #[inline]
    fn byte(&self, i: usize) -> Val {
        if i < self.sym.len() && self.sym[i] != 0 {
            return Val::S(T(self.sym[i] - 1));
        }
        Val::C(self.data.get(i).copied().unwrap_or(0) as u128)
    }
    fn set(&mut self, i: usize, v: &Val) {
        match v {
            Val::C(c) => {
                if self.data.len() <= i {
                    self.data.resize(i + 1, 0);
                }
                self.data[i] = *c as u8;
                if i < self.sym.len() {
                    self.sym[i] = 0;
                }
            }
            Val::S(t) => {
                if self.sym.len() <= i {
                    self.sym.resize(i + 1, 0);
                }
                self.sym[i] = t.0 + 1;
            }
            Val::A(_) => unreachable!(),
        }
    }
    fn any_sym(&self, off: usize, n: usize) -> bool {
        if off >= self.sym.len() {
            return false;
        }
        let e = (off + n).min(self.sym.len());
        self.sym[off..e].iter().any(|x| *x != 0)
    }
}

#[derive(Clone)]
pub struct Frame {
    pub func: u32,
    pub block: u32,
    pub ip: u32,
    pub prev: u32,
    pub regs: Rc<Vec<Val>>,
    pub dst: u32,
    pub goto: Option<u32>,
    pub allocas: Vec<u32>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    heap: Vec<Option<Rc<Obj>>>,
    free: Vec<u32>,
    globals: Rc<Vec<Rc<Obj>>>,
    pub pc: Vec<T>,
    known: Rc<FxMap<T, u128>>,
    model: Rc<Vec<u8>>,
    pub nvars: u32,
    pub steps: u64,
    live: Val,
    peak: Val,
    obs: Vec<Val>,
    pub id: u64,
    params: Rc<Vec<u64>>,
}

pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub input: Vec<u8>,
    pub stack: Vec<String>,
}

pub struct Sample {
    pub input: Vec<u8>,
    pub obs: Vec<u64>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub assumed_out: u64,
    pub forks: u64,
    pub steps: u64,
    pub checks: u64,
    pub max_pc: u64,
    pub max_steps_path: u64,
}

pub struct Cfg {
    pub max_steps: u64,
    pub alloc_limit: u64,
    pub max_depth: usize,
    pub deadline: Instant,
    pub max_viol: usize,
    pub max_samples: usize,
    pub stubs: Vec<String>,
    pub trace: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum FnK {
    Defined,
    Panic,
    AllocErr,
    Ext(Ext),
    Unsupported,
    StubFmt, // alloc::fmt::format_inner -> empty String
    StubFmtOk, // core::fmt::write -> Ok(())
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ext {
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    Memcmp,
    Bcmp,
    Strlen,
    Syscall,
    Getenv,
    Abort,
    Write,
    Writev,
    Zero,
    One,
    KeyCreate,
    Memchr(bool),
    SymBytes,
    SymAssume,
    SymCheck,
    SymReach,
    SymReachTotal,
    SymObs,
    SymConcrete,
    SymHeapReset,
    SymHeapPeak,
    SymHeapLive,
    SymPath,
    SymFork,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Intr {
    Nop,
    Memcpy,
    Memset,
    UAddO,
    SAddO,
    USubO,
    SSubO,
    UMulO,
    SMulO,
    UMax,
    UMin,
    SMax,
    SMin,
    Abs,
    UCmp,
    SCmp,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitrev,
    Fshl,
    Fshr,
    IsConst,
    Expect,
    TlsAddr,
    LoadRel,
    Trap,
    Fabs,
    ReduceAdd,
    ReduceAnd,
    ReduceOr,
    AddCarry,
    SubBorrow,
    ObjSize,
    Ptrmask,
    FpOp,
    FpToUiSat,
    FpToSiSat,
    Unsup,
}

const FBASE: u64 = 0x1000_0000;
const GBASE: u64 = 0x2000_0000;
const HBASE: u64 = 1 << 40;
const HSHIFT: u32 = 32;

enum OR {
    H(u32),
    G(u32),
}

pub enum Stop {
    End,          // path finished
    Assumed,      // infeasible or assumed away
    Viol,         // violation recorded
    Err(String),  // engine limitation
}

type R<X> = Result<X, Stop>;

pub struct Eng {
    /// Where violations are written as soon as they are found.
    pub live: Option<std::fs::File>,
    pub viols_sent: usize,
    pub m: &'static Module,
    k: Vec<Val>,
    gaddr: Vec<u64>,
    gobj: Rc<Vec<Rc<Obj>>>,
    gsorted: Vec<(u64, u64, u32)>, // base, size, index
    fk: Vec<FnK>,
    ik: Vec<Intr>,
    pub p: Pool,
    pub z: Z3,
    pub stack: Vec<State>,
    pub cfg: Cfg,
    pub st: Stats,
    pub viols: Vec<Violation>,
    seen_viol: HashMap<String, u32>,
    pub samples: Vec<Sample>,
    pub errors: BTreeMap<String, u64>,
    pub reached: BTreeSet<u64>,
    pub reach_total: u64,
    pub check_ids: BTreeMap<u64, u64>,
    pub ext_used: BTreeSet<String>,
    pub cov: Vec<Vec<bool>>,
    fork_sites: HashMap<(u32, u32), u64>,
    next_id: u64,
    err_addr: u64,
}

fn fxi(name: &str) -> Option<Ext> {
    Some(match name {
        "malloc" => Ext::Malloc,
        "calloc" => Ext::Calloc,
        "realloc" => Ext::Realloc,
        "free" => Ext::Free,
        "posix_memalign" => Ext::Memalign,
        "memcmp" => Ext::Memcmp,
        "bcmp" => Ext::Bcmp,
        "strlen" => Ext::Strlen,
        "syscall" => Ext::Syscall,
        "getenv" => Ext::Getenv,
        "abort" => Ext::Abort,
        "write" => Ext::Write,
        "writev" => Ext::Writev,
        "memchr" => Ext::Memchr(false),
        "memrchr" => Ext::Memchr(true),
        // one thread: destructors of thread-locals run after the entry
        "__cxa_thread_atexit_impl" | "pthread_setspecific" | "sched_yield" | "pthread_key_delete" => Ext::Zero,
        "pthread_key_create" => Ext::KeyCreate,
        "gettid" | "getpid" => Ext::One,
        "sym_bytes" => Ext::SymBytes,
        "sym_assume" => Ext::SymAssume,
        "sym_check" => Ext::SymCheck,
        "sym_reach" => Ext::SymReach,
        "sym_reach_total" => Ext::SymReachTotal,
        "sym_obs" => Ext::SymObs,
        "sym_concrete" => Ext::SymConcrete,
        "sym_heap_reset" => Ext::SymHeapReset,
        "sym_heap_peak" => Ext::SymHeapPeak,
        "sym_heap_live" => Ext::SymHeapLive,
        "sym_path" => Ext::SymPath,
        "sym_fork" => Ext::SymFork,
        _ => return None,
    })
}

fn intr(name: &str) -> Intr {
    let n = name.strip_prefix("llvm.").unwrap_or(name);
    let s = |p: &str| n.starts_with(p);
    if s("lifetime")
        || s("assume")
        || s("experimental.noalias")
        || s("dbg")
        || s("x86.sse2.pause")
        || s("prefetch")
        || s("donothing")
        || s("invariant")
        || s("sideeffect")
        || s("pseudoprobe")
    {
        Intr::Nop
    } else if s("memcpy") || s("memmove") {
        Intr::Memcpy
    } else if s("memset") {
        Intr::Memset
    } else if s("uadd.with") {
        Intr::UAddO
    } else if s("sadd.with") {
        Intr::SAddO
    } else if s("usub.with") {
        Intr::USubO
    } else if s("ssub.with") {
        Intr::SSubO
    } else if s("umul.with") {
        Intr::UMulO
    } else if s("smul.with") {
        Intr::SMulO
    } else if s("umax") {
        Intr::UMax
    } else if s("umin") {
        Intr::UMin
    } else if s("smax") {
        Intr::SMax
    } else if s("smin") {
        Intr::SMin
    } else if s("abs") {
        Intr::Abs
    } else if s("ucmp") {
        Intr::UCmp
    } else if s("scmp") {
        Intr::SCmp
    } else if s("uadd.sat") {
        Intr::UAddSat
    } else if s("usub.sat") {
        Intr::USubSat
    } else if s("sadd.sat") {
        Intr::SAddSat
    } else if s("ssub.sat") {
        Intr::SSubSat
    } else if s("ctlz") {
        Intr::Ctlz
    } else if s("cttz") {
        Intr::Cttz
    } else if s("ctpop") {
        Intr::Ctpop
    } else if s("bswap") {
        Intr::Bswap
    } else if s("bitreverse") {
        Intr::Bitrev
    } else if s("fshl") {
        Intr::Fshl
    } else if s("fshr") {
        Intr::Fshr
    } else if s("is.constant") {
        Intr::IsConst
    } else if s("expect") {
        Intr::Expect
    } else if s("threadlocal.address") {
        Intr::TlsAddr
    } else if s("load.relative") {
        Intr::LoadRel
    } else if s("trap") || s("ubsantrap") || s("debugtrap") {
        Intr::Trap
    } else if s("fabs") {
        Intr::Fabs
    } else if s("vector.reduce.add") {
        Intr::ReduceAdd
    } else if s("vector.reduce.and") {
        Intr::ReduceAnd
    } else if s("vector.reduce.or") {
        Intr::ReduceOr
    } else if s("x86.addcarry") {
        Intr::AddCarry
    } else if s("x86.subborrow") {
        Intr::SubBorrow
    } else if s("objectsize") {
        Intr::ObjSize
    } else if s("ptrmask") {
        Intr::Ptrmask
    } else if s("fptoui.sat") {
        Intr::FpToUiSat
    } else if s("fptosi.sat") {
        Intr::FpToSiSat
    } else if s("floor")
        || s("ceil")
        || s("trunc.")
        || s("sqrt")
        || s("exp.")
        || s("log")
        || s("powi")
        || s("pow.")
        || s("round")
        || s("rint")
    {
        Intr::FpOp
    } else {
        Intr::Unsup
    }
}

fn bits_of(ty: &Ty) -> u32 {
    match ty {
        Ty::Vec(n, t) => n * t.bits(),
        t => t.bits(),
    }
}

impl Eng {
    pub fn new(m: &'static Module, cfg: Cfg, z: Z3) -> Eng {
        let mut e = Eng {
            m,
            k: vec![],
            gaddr: vec![],
            gobj: Rc::new(vec![]),
            gsorted: vec![],
            fk: vec![],
            ik: m.intrinsics.iter().map(|n| intr(n)).collect(),
            p: Pool::new(),
            z,
            stack: vec![],
            cfg,
            st: Stats::default(),
            viols: vec![],
            seen_viol: HashMap::new(),
            samples: vec![],
            errors: BTreeMap::new(),
            reached: BTreeSet::new(),
            reach_total: 0,
            check_ids: BTreeMap::new(),
            ext_used: BTreeSet::new(),
            cov: m.funcs.iter().map(|f| vec![false; f.blocks.len()]).collect(),
            fork_sites: HashMap::new(),
            next_id: 0,
            err_addr: 0,
            live: None,
            viols_sent: 0,
        };
        for f in &m.funcs {
            let n = &f.name;
            let stub_fmt = e.cfg.stubs.iter().any(|s| s == "fmt");
            let k = if n.contains("4core9panicking") {
                FnK::Panic
            } else if n.contains("3std9panicking")
                && (n.contains("begin_panic") || n.contains("rust_panic") || n.contains("panic_with_hook"))
            {
                FnK::Panic
            } else if n.contains("18handle_alloc_error") || n.contains("rust_alloc_error_handler") {
                FnK::AllocErr
            } else if stub_fmt && n.contains("5alloc3fmt6format12format_inner") {
                FnK::StubFmt
            } else if stub_fmt && n.ends_with("4core3fmt5write") {
                FnK::StubFmtOk
            } else if let (false, Some(x)) = (f.defined, fxi(n)) {
                FnK::Ext(x)
            } else if f.defined {
                FnK::Defined
            } else {
                FnK::Unsupported
            };
            e.fk.push(k);
        }
        e.init_globals();
        e
    }

    fn init_globals(&mut self) {
        let m = self.m;
        let mut a = GBASE;
        for g in &m.globals {
            let al = g.align.max(16);
            a = (a + al - 1) / al * al;
            let sz = g.ty.size();
            self.gaddr.push(a);
            self.gsorted
                .push((a, sz, self.gaddr.len() as u32 - 1));
            a += sz + 64;
        }
        // errno
        self.err_addr = (a + 63) / 64 * 64;
        let mut objs = vec![];
        for g in &m.globals {
            let sz = g.ty.size();
            let mut o = Obj::new(sz);
            if let Some(c) = &g.init {
                o.data.resize(sz as usize, 0);
                self.init_bytes(&mut o.data, 0, &g.ty, c);
            }
            objs.push(Rc::new(o));
        }
        self.gsorted
            .push((self.err_addr, 16, objs.len() as u32));
        objs.push(Rc::new(Obj::new(16)));
        self.gobj = Rc::new(objs);
        let mut k = Vec::with_capacity(m.consts.len());
        for (t, c) in &m.consts {
            k.push(self.cval(t, c));
        }
        self.k = k;
    }
    fn symaddr(&self, n: &str) -> u64 {
        if let Some(i) = self.m.gidx.get(n) {
            return self.gaddr[*i as usize];
        }
        if let Some(i) = self.m.fidx.get(n) {
            return FBASE + (*i as u64) * 16;
        }
        for (a, c) in &self.m.aliases {
            if a == n {
                return self.cint(&Ty::Ptr, c) as u64;
            }
        }
        if n.starts_with("llvm.") {
            return 0;
        }
        panic!("unknown symbol {}", n)
    }
    fn cint(&self, t: &Ty, c: &Const) -> u128 {
        match c {
            Const::Int(v) => *v,
            Const::Undef | Const::Zero => 0,
            Const::Global(n) => self.symaddr(n) as u128,
            Const::Gep(b, t, idx) => {
                let mut a = self.cint(&Ty::Ptr, b) as u64;
                let mut cur = Ty::Arr(0, Rc::new(t.clone()));
                for (it, ic) in idx {
                    let i = sext(self.cint(it, ic), it.bits()) as i64;
                    match &cur {
                        Ty::Struct(..) => {
                            a = a.wrapping_add(cur.field_offset(i as usize));
                            cur = cur.elem(i as usize);
                        }
                        _ => {
                            let e = cur.elem(0);
                            a = a.wrapping_add((i as u64).wrapping_mul(e.size()));
                            cur = e;
                        }
                    }
                }
                a as u128
            }
            Const::Cast(c, ft, tt, _) => self.cint(ft, c) & mask(tt.bits()),
            Const::Bin(op, t, a, b) => {
                let (x, y) = (self.cint(t, a), self.cint(t, b));
                let w = t.bits();
                let o = match op.as_str() {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    "xor" => Op::Xor,
                    "mul" => Op::Mul,
                    "and" => Op::And,
                    "or" => Op::Or,
                    "shl" => Op::Shl,
                    "lshr" => Op::LShr,
                    _ => panic!("const op {}", op),
                };
                fold(o, w, x, y)
            }
            _ => panic!("const int {:?} {:?}", t, c),
        }
    }
    fn zero(&self, t: &Ty) -> Val {
        match t {
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => {
                Val::A(Rc::new((0..t.count()).map(|i| self.zero(&t.elem(i))).collect()))
            }
            _ => Val::C(0),
        }
    }
    fn cval(&self, t: &Ty, c: &Const) -> Val {
        match (t, c) {
            (Ty::Void, _) | (Ty::Other, _) => Val::C(0),
            (_, Const::Undef) | (_, Const::Zero) => self.zero(t),
            (Ty::Vec(n, et), Const::Splat(_, c)) => {
                let v = self.cval(et, c);
                Val::A(Rc::new(vec![v; *n as usize]))
            }
            (Ty::Vec(..), Const::Agg(v)) | (Ty::Arr(..), Const::Agg(v)) | (Ty::Struct(..), Const::Agg(v)) => {
                Val::A(Rc::new(v.iter().map(|(t, c)| self.cval(t, c)).collect()))
            }
            (Ty::Arr(..), Const::Bytes(b)) => {
                Val::A(Rc::new(b.iter().map(|x| Val::C(*x as u128)).collect()))
            }
            _ => Val::C(self.cint(t, c)),
        }
    }
    fn init_bytes(&self, d: &mut Vec<u8>, off: usize, t: &Ty, c: &Const) {
        match c {
            Const::Undef | Const::Zero => {}
            Const::Bytes(b) => d[off..off + b.len()].copy_from_slice(b),
            Const::Agg(v) => {
                for (i, (et, ec)) in v.iter().enumerate() {
                    self.init_bytes(d, off + t.field_offset(i) as usize, et, ec);
                }
            }
            Const::Splat(et, ec) => {
                for i in 0..t.count() {
                    self.init_bytes(d, off + i * et.size() as usize, et, ec);
                }
            }
            _ => {
                let v = self.cint(t, c);
                let n = t.store_size() as usize;
                d[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
        }
    }

    pub fn entry_state(&mut self, name: &str, param: u64) -> State {
        let f = *self
            .m
            .fidx
            .get(name)
            .unwrap_or_else(|| panic!("no entry {}", name));
        let fun = &self.m.funcs[f as usize];
        assert!(fun.defined, "entry {} not defined", name);
        let mut regs = vec![Val::C(0); fun.nregs as usize];
        if let Some((_, r)) = fun.params.first() {
            regs[*r as usize] = Val::C(param as u128);
        }
        self.cov[f as usize][0] = true;
        State {
            frames: vec![Frame {
                func: f,
                block: 0,
                ip: 0,
                prev: 0,
                regs: Rc::new(regs),
                dst: NODST,
                goto: None,
                allocas: vec![],
            }],
            heap: vec![],
            free: vec![],
            globals: self.gobj.clone(),
            pc: vec![],
            known: Rc::new(FxMap::default()),
            model: Rc::new(vec![]),
            nvars: 0,
            steps: 0,
            live: Val::C(0),
            peak: Val::C(0),
            obs: vec![],
            id: 0,
            params: Rc::new(vec![param]),
        }
    }

    // ---------- memory ----------
    fn alloc(&self, st: &mut State, size: u64, acct: Val) -> u32 {
        let mut o = Obj::new(size);
        o.acct = acct;
        if let Some(s) = st.free.pop() {
            st.heap[s as usize] = Some(Rc::new(o));
            s
        } else {
            st.heap.push(Some(Rc::new(o)));
            st.heap.len() as u32 - 1
        }
    }
    fn haddr(slot: u32) -> u64 {
        HBASE + ((slot as u64) << HSHIFT)
    }
    fn find(&self, st: &State, a: u64) -> Option<(OR, u64)> {
        if a >= HBASE {
            let s = ((a - HBASE) >> HSHIFT) as usize;
            let off = a & ((1 << HSHIFT) - 1);
            if s < st.heap.len() && st.heap[s].is_some() {
                return Some((OR::H(s as u32), off));
            }
            return None;
        }
        if a < GBASE {
            return None;
        }
        let i = self.gsorted.partition_point(|x| x.0 <= a);
        if i == 0 {
            return None;
        }
        let (b, sz, g) = self.gsorted[i - 1];
        if a - b > sz {
            return None;
        }
        Some((OR::G(g), a - b))
    }
    fn obj<'a>(&self, st: &'a State, r: &OR) -> &'a Obj {
        match r {
            OR::H(s) => st.heap[*s as usize].as_ref().unwrap(),
            OR::G(g) => &st.globals[*g as usize],
        }
    }
    fn obj_mut<'a>(&self, st: &'a mut State, r: &OR) -> &'a mut Obj {
        match r {
            OR::H(s) => Rc::make_mut(st.heap[*s as usize].as_mut().unwrap()),
            OR::G(g) => {
                let v = Rc::make_mut(&mut st.globals);
                Rc::make_mut(&mut v[*g as usize])
            }
        }
    }
    fn access(&mut self, st: &State, a: u64, n: u64) -> R<(OR, usize)> {
        match self.find(st, a) {
            Some((r, off)) => {
                let sz = self.obj(st, &r).size;
                if off.checked_add(n).map_or(true, |e| e > sz) {
                    return Err(self.viol(st, "mem", format!("access of {} bytes at offset {} of a {}-byte object", n, off, sz), None));
                }
                Ok((r, off as usize))
            }
            None => Err(self.viol(st, "mem", format!("access of {} bytes at invalid address {:#x}", n, a), None)),
        }
    }
    fn kn(&self, st: &State, v: Val) -> Val {
        match v {
            Val::S(t) => self.look(st, t),
            v => v,
        }
    }
    /// A term on this path: its value if it is known, and choices that the path has made.
    fn look(&self, st: &State, mut t: T) -> Val {
        loop {
            if let Some(c) = st.known.get(&t) {
                return Val::C(*c);
            }
            match self.p.node(t) {
                Node::Const(c) => return Val::C(c),
                Node::Ite(c, a, b) => match self.known_bool(st, c, 6) {
                    Some(true) => t = a,
                    Some(false) => t = b,
                    None => return Val::S(t),
                },
                _ => return Val::S(t),
            }
        }
    }
    fn known_bool(&self, st: &State, c: T, depth: u32) -> Option<bool> {
        if let Some(k) = st.known.get(&c) {
            return Some(*k == 1);
        }
        if depth == 0 {
            return None;
        }
        match self.p.node(c) {
            Node::Const(k) => Some(k == 1),
            Node::Not(a) => self.known_bool(st, a, depth - 1).map(|x| !x),
            Node::Bin(o, a, b) if matches!(o, Op::And | Op::Or) => {
                let stop = o == Op::Or; // the operand value that settles it
                match (self.known_bool(st, a, depth - 1), self.known_bool(st, b, depth - 1)) {
                    (Some(x), _) | (_, Some(x)) if x == stop => Some(stop),
                    (Some(_), Some(_)) => Some(!stop),
                    _ => None,
                }
            }
            _ => None,
        }
    }
    fn load_int(&mut self, st: &State, r: &OR, off: usize, n: usize) -> Val {
        let o = self.obj(st, r);
        if !o.any_sym(off, n) {
            let mut v = 0u128;
            for i in 0..n {
                v |= (o.data.get(off + i).copied().unwrap_or(0) as u128) << (8 * i);
            }
            return Val::C(v);
        }
        let bs: Vec<Val> = (0..n).map(|i| self.kn(st, o.byte(off + i))).collect();
        let ts: Vec<T> = bs.iter().rev().map(|b| self.term(b, 8)).collect();
        let t = self.p.concat_list(&ts);
        let v = self.mkv(t);
        self.kn(st, v)
    }
    fn load_at(&mut self, st: &State, a: u64, t: &Ty) -> R<Val> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                let n = t.store_size();
                let (r, off) = self.access(st, a, n)?;
                let v = self.load_int(st, &r, off, n as usize);
                let w = t.bits();
                if w as u64 != n * 8 {
                    return Ok(match v {
                        Val::C(c) => Val::C(c & mask(w)),
                        Val::S(x) => {
                            let e = self.p.extract(x, w - 1, 0);
                            self.mkv(e)
                        }
                        v => v,
                    });
                }
                Ok(v)
            }
            Ty::Vec(n, et) => {
                if et.bits() % 8 != 0 {
                    let b = self.load_at(st, a, &Ty::Int(n * et.bits()))?;
                    return Ok(self.from_bits(&b, t));
                }
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_at(st, a + i as u64 * et.size(), et)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Arr(..) | Ty::Struct(..) => {
                let mut v = vec![];
                for i in 0..t.count() {
                    v.push(self.load_at(st, a + t.field_offset(i), &t.elem(i))?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => Err(Stop::Err(format!("load of {:?}", t))),
        }
    }
    fn store_at(&mut self, st: &mut State, a: u64, t: &Ty, v: &Val) -> R<()> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                let n = t.store_size();
                let (r, off) = self.access(st, a, n)?;
                match v {
                    Val::C(c) => {
                        let o = self.obj_mut(st, &r);
                        let e = off + n as usize;
                        if o.data.len() < e {
                            o.data.resize(e, 0);
                        }
                        o.data[off..e].copy_from_slice(&c.to_le_bytes()[..n as usize]);
                        let se = e.min(o.sym.len());
                        if off < se {
                            for x in &mut o.sym[off..se] {
                                *x = 0;
                            }
                        }
                    }
                    Val::S(x) => {
                        let w = self.p.width(*x);
                        let x = if (w as u64) < n * 8 {
                            self.p.zext(*x, n as u32 * 8)
                        } else {
                            *x
                        };
                        let bs: Vec<Val> = (0..n as u32)
                            .map(|i| {
                                let b = self.p.extract(x, i * 8 + 7, i * 8);
                                self.mkv(b)
                            })
                            .collect();
                        let o = self.obj_mut(st, &r);
                        for (i, b) in bs.iter().enumerate() {
                            o.set(off + i, b);
                        }
                    }
                    Val::A(_) => return Err(Stop::Err("store of aggregate as scalar".into())),
                }
                Ok(())
            }
            Ty::Vec(n, et) => {
                if et.bits() % 8 != 0 {
                    let b = self.to_bits(v, t);
                    return self.store_at(st, a, &Ty::Int(n * et.bits()), &b);
                }
                if let Val::A(l) = v {
                    for i in 0..*n as usize {
                        self.store_at(st, a + i as u64 * et.size(), et, &l[i])?;
                    }
                }
                Ok(())
            }
            Ty::Arr(..) | Ty::Struct(..) => {
                if let Val::A(l) = v {
                    for i in 0..t.count() {
                        self.store_at(st, a + t.field_offset(i), &t.elem(i), &l[i])?;
                    }
                }
                Ok(())
            }
            _ => Err(Stop::Err(format!("store of {:?}", t))),
        }
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (sr, so) = self.access(st, s, n)?;
        let (dr, d_o) = self.access(st, d, n)?;
        let n = n as usize;
        let o = self.obj(st, &sr);
        let mut data = vec![0u8; n];
        if so < o.data.len() {
            let e = (so + n).min(o.data.len());
            data[..e - so].copy_from_slice(&o.data[so..e]);
        }
        let mut sym = vec![];
        if o.any_sym(so, n) {
            sym.resize(n, 0);
            let e = (so + n).min(o.sym.len());
            sym[..e - so].copy_from_slice(&o.sym[so..e]);
            for i in 0..n {
                if sym[i] != 0 {
                    if let Some(c) = st.known.get(&T(sym[i] - 1)) {
                        sym[i] = 0;
                        data[i] = *c as u8;
                    }
                }
            }
        }
        let o = self.obj_mut(st, &dr);
        if o.data.len() < d_o + n {
            o.data.resize(d_o + n, 0);
        }
        o.data[d_o..d_o + n].copy_from_slice(&data);
        if !sym.is_empty() {
            if o.sym.len() < d_o + n {
                o.sym.resize(d_o + n, 0);
            }
            o.sym[d_o..d_o + n].copy_from_slice(&sym);
        } else if d_o < o.sym.len() {
            let e = (d_o + n).min(o.sym.len());
            for x in &mut o.sym[d_o..e] {
                *x = 0;
            }
        }
        Ok(())
    }
    fn read_bytes(&mut self, st: &State, a: u64, n: u64) -> R<Vec<Val>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (r, off) = self.access(st, a, n)?;
        let o = self.obj(st, &r);
        Ok((0..n as usize).map(|i| self.kn(st, o.byte(off + i))).collect())
    }
    fn read_str(&mut self, st: &State, a: u64, n: u64) -> String {
        match self.read_bytes(st, a, n.min(400)) {
            Ok(v) => v
                .iter()
                .map(|x| match x {
                    Val::C(c) => *c as u8 as char,
                    _ => '?',
                })
                .collect(),
            Err(_) => String::new(),
        }
    }

    // ---------- values ----------
    pub fn term(&mut self, v: &Val, w: u32) -> T {
        match v {
            Val::C(c) => self.p.cst(*c, w),
            Val::S(t) => *t,
            Val::A(_) => panic!("aggregate as term"),
        }
    }
    fn mkv(&self, t: T) -> Val {
        match self.p.as_const(t) {
            Some(c) => Val::C(c),
            None => Val::S(t),
        }
    }
    fn bin(&mut self, op: Op, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return Val::C(fold(op, w, *x, *y));
        }
        let (x, y) = (self.term(a, w), self.term(b, w));
        let t = self.p.bin(op, x, y);
        self.mkv(t)
    }
    fn not1(&mut self, a: &Val) -> Val {
        match a {
            Val::C(c) => Val::C(c ^ 1),
            Val::S(t) => {
                let n = self.p.not(*t);
                self.mkv(n)
            }
            v => v.clone(),
        }
    }
    fn ite(&mut self, c: &Val, w: u32, a: &Val, b: &Val) -> Val {
        match c {
            Val::C(x) => {
                if *x & 1 == 1 {
                    a.clone()
                } else {
                    b.clone()
                }
            }
            Val::S(c) => {
                let (x, y) = (self.term(a, w), self.term(b, w));
                let t = self.p.ite(*c, x, y);
                self.mkv(t)
            }
            _ => panic!("ite"),
        }
    }
    fn zext(&mut self, v: &Val, w: u32) -> Val {
        match v {
            Val::C(c) => Val::C(*c),
            Val::S(t) => {
                let x = self.p.zext(*t, w);
                self.mkv(x)
            }
            _ => panic!(),
        }
    }
    fn sext(&mut self, v: &Val, from: u32, w: u32) -> Val {
        match v {
            Val::C(c) => Val::C(to_signed(*c, from) as u128 & mask(w)),
            Val::S(t) => {
                let x = self.p.sext(*t, w);
                self.mkv(x)
            }
            _ => panic!(),
        }
    }
    fn ext(&mut self, v: &Val, hi: u32, lo: u32) -> Val {
        match v {
            Val::C(c) => Val::C((*c >> lo) & mask(hi - lo + 1)),
            Val::S(t) => {
                let x = self.p.extract(*t, hi, lo);
                self.mkv(x)
            }
            _ => panic!(),
        }
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        let (op, x, y, neg) = match p {
            Pred::Eq => (Op::Eq, a, b, false),
            Pred::Ne => (Op::Eq, a, b, true),
            Pred::Ult => (Op::Ult, a, b, false),
            Pred::Ule => (Op::Ule, a, b, false),
            Pred::Ugt => (Op::Ult, b, a, false),
            Pred::Uge => (Op::Ule, b, a, false),
            Pred::Slt => (Op::Slt, a, b, false),
            Pred::Sle => (Op::Sle, a, b, false),
            Pred::Sgt => (Op::Slt, b, a, false),
            Pred::Sge => (Op::Sle, b, a, false),
        };
        if let (Val::C(x), Val::C(y)) = (x, y) {
            return Val::C(fold(op, w, *x, *y) ^ neg as u128);
        }
        let r = self.bin(op, w, x, y);
        if neg {
            self.not1(&r)
        } else {
            r
        }
    }
    fn to_bits(&mut self, v: &Val, t: &Ty) -> Val {
        match (v, t) {
            (Val::A(l), Ty::Vec(_, et)) => {
                let w = et.bits();
                let ts: Vec<T> = l.iter().rev().map(|x| self.term(x, w)).collect();
                let t = self.p.concat_list(&ts);
                self.mkv(t)
            }
            _ => v.clone(),
        }
    }
    fn from_bits(&mut self, v: &Val, t: &Ty) -> Val {
        match t {
            Ty::Vec(n, et) => {
                let w = et.bits();
                let l = (0..*n).map(|i| self.ext(v, (i + 1) * w - 1, i * w)).collect();
                Val::A(Rc::new(l))
            }
            _ => v.clone(),
        }
    }
    fn get(&self, st: &State, o: &Opd) -> Val {
        match o {
            Opd::R(r) => {
                let f = st.frames.last().unwrap();
                match &f.regs[*r as usize] {
                    Val::S(t) => self.look(st, *t),
                    v => v.clone(),
                }
            }
            Opd::K(k) => self.k[*k as usize].clone(),
        }
    }
    fn set(&self, st: &mut State, d: u32, v: Val) {
        if d != NODST {
            let f = st.frames.last_mut().unwrap();
            Rc::make_mut(&mut f.regs)[d as usize] = v;
        }
    }

    // ---------- path condition ----------
    fn learn(&mut self, st: &mut State, t: T, v: u128) {
        if self.p.as_const(t).is_some() {
            return;
        }
        let mut work = vec![(t, v)];
        while let Some((t, v)) = work.pop() {
            if self.p.as_const(t).is_some() {
                continue;
            }
            Rc::make_mut(&mut st.known).insert(t, v);
            let w = self.p.width(t);
            match self.p.node(t) {
                Node::Not(a) => work.push((a, !v & mask(w))),
                Node::Concat(h, l) => {
                    let lw = self.p.width(l);
                    work.push((h, v >> lw));
                    work.push((l, v & mask(lw)));
                }
                Node::Bin(Op::And, a, b) if w == 1 && v == 1 => {
                    work.push((a, 1));
                    work.push((b, 1));
                }
                Node::Bin(Op::Or, a, b) if w == 1 && v == 0 => {
                    work.push((a, 0));
                    work.push((b, 0));
                }
                Node::Bin(Op::Eq, a, b) if v == 1 => {
                    if let Some(c) = self.p.as_const(b) {
                        work.push((a, c));
                    } else if let Some(c) = self.p.as_const(a) {
                        work.push((b, c));
                    }
                }
                Node::Bin(Op::Add, a, b) => {
                    if let Some(c) = self.p.as_const(b) {
                        work.push((a, v.wrapping_sub(c) & mask(w)));
                    }
                }
                Node::Bin(Op::Xor, a, b) => {
                    if let Some(c) = self.p.as_const(b) {
                        work.push((a, v ^ c));
                    }
                }
                Node::Ite(c, a, b) => {
                    if !self.p.may_be(a, v) {
                        work.push((c, 0));
                        work.push((b, v));
                    } else if !self.p.may_be(b, v) {
                        work.push((c, 1));
                        work.push((a, v));
                    }
                }
                _ => {}
            }
        }
    }
    fn evalm(&mut self, st: &State, t: T) -> u128 {
        self.p.new_model();
        self.p.eval(t, &st.model)
    }
    /// pc /\ c satisfiable? returns a model
    fn query(&mut self, st: &State, c: T) -> (Res, Vec<u8>) {
        let mut m = (*st.model).clone();
        m.resize(st.nvars as usize, 0);
        if Instant::now() > self.cfg.deadline {
            *self.errors.entry("time limit".into()).or_default() += 1;
            return (Res::Unknown, m);
        }
        let (r, pc) = self.z.check(&self.p, &st.pc, c, &mut m);
        if r == Res::Sat {
            self.p.new_model();
            if self.p.eval(c, &m) != 1 || pc.iter().any(|x| self.p.eval(*x, &m) != 1) {
                *self.errors.entry("solver model does not satisfy the terms".into()).or_default() += 1;
                return (Res::Unknown, m);
            }
        } else if r == Res::Unknown {
            *self.errors.entry("solver returned unknown".into()).or_default() += 1;
        }
        (r, m)
    }
    fn push_pc(&mut self, st: &mut State, c: T) {
        if self.p.as_const(c) == Some(1) {
            return;
        }
        st.pc.push(c);
        self.st.max_pc = self.st.max_pc.max(st.pc.len() as u64);
        self.learn(st, c, 1);
    }
    fn fork(&mut self, st: &State, c: T, m: Vec<u8>) -> State {
        let mut o = st.clone();
        o.model = Rc::new(m);
        self.next_id += 1;
        o.id = self.next_id;
        self.push_pc(&mut o, c);
        self.st.forks += 1;
        let f = st.frames.last().unwrap();
        *self.fork_sites.entry((f.func, f.block)).or_default() += 1;
        o
    }
    /// Decide a boolean; the other feasible side is pushed to the work list
    /// positioned at the current instruction (to be re-executed).
    fn decide(&mut self, st: &mut State, c: T) -> bool {
        if let Some(k) = self.p.as_const(c) {
            return k == 1;
        }
        if let Some(k) = st.known.get(&c) {
            return *k == 1;
        }
        let v = self.evalm(st, c) == 1;
        let n = self.p.not(c);
        let (take, other) = if v { (c, n) } else { (n, c) };
        let (r, m) = self.query(st, other);
        match r {
            Res::Sat => {
                let o = self.fork(st, other, m);
                self.stack.push(o);
                self.push_pc(st, take);
            }
            Res::Unsat => self.learn(st, take, 1),
            Res::Unknown => {
                self.push_pc(st, take);
            }
        }
        v
    }
    fn concretize(&mut self, st: &mut State, v: &Val, w: u32) -> u128 {
        match v {
            Val::C(c) => *c,
            Val::S(t) => {
                let k = self.evalm(st, *t);
                let kt = self.p.cst(k, w);
                let eq = self.p.bin(Op::Eq, *t, kt);
                if self.p.as_const(eq).is_some() {
                    return k;
                }
                let d = self.decide(st, eq);
                debug_assert!(d);
                self.learn(st, *t, k);
                k
            }
            Val::A(_) => panic!("concretize aggregate"),
        }
    }
    /// Floating-point arithmetic is not encoded: an operand is tried on a list of telling values
    /// (so that defects there are found) and the path is undecided for all others.
    fn special(&mut self, st: &mut State, v: &Val, w: u32) -> Result<u128, Stop> {
        let t = match v {
            Val::S(t) => *t,
            _ => return Ok(self.concretize(st, v, w)),
        };
        let mut ks: Vec<u128> = vec![];
        for f in [0.0f64, -0.0, 1.0, -1.5, 16777217.0, 0.1, 1e300, -1e300, 1e-310, f64::INFINITY, f64::NEG_INFINITY] {
            ks.push(if w == 32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 });
        }
        if w == 32 {
            ks.extend([1, 0x7fc0_0000, 0xffc0_0000, 0x7fc1_2345, 0x7f80_0001, 0xffa0_0000]);
        } else {
            ks.extend([1, 0x7ff8 << 48, 0xfff8 << 48, 0x7ff8_0000_0001_2345, (0x7ff0 << 48) + 1, 0xfff4 << 48]);
        }
        for k in ks {
            let kt = self.p.cst(k, w);
            let eq = self.p.bin(Op::Eq, t, kt);
            if self.decide(st, eq) {
                self.learn(st, t, k);
                return Ok(k);
            }
        }
        let k = self.evalm(st, t);
        let kt = self.p.cst(k, w);
        let eq = self.p.bin(Op::Eq, t, kt);
        let ne = self.p.not(eq);
        match self.query(st, ne).0 {
            Res::Unsat => Ok(k),
            _ => Err(Stop::Err("floating-point arithmetic on a symbolic value".into())),
        }
    }
    /// x + (+-0) without enumeration.
    fn fadd_zero(&mut self, x: &Val, zero: u128, w: u32) -> Val {
        let sign = 1u128 << (w - 1);
        let (inf, quiet) = if w == 32 { (0x7f80_0000u128, 1u128 << 22) } else { (0x7ff0u128 << 48, 1u128 << 51) };
        let m = self.bin(Op::And, w, x, &Val::C(mask(w - 1)));
        let nan = self.bin(Op::Ult, w, &Val::C(inf), &m);
        let q = self.bin(Op::Or, w, x, &Val::C(quiet));
        let mut r = x.clone();
        if zero & sign == 0 {
            let nz = self.bin(Op::Eq, w, x, &Val::C(sign));
            r = self.ite(&nz, w, &Val::C(0), &r);
        }
        self.ite(&nan, w, &q, &r)
    }
    fn maximize(&mut self, st: &State, t: T, w: u32) -> u128 {
        let mut lo = self.evalm(st, t);
        let mut hi = mask(w);
        while lo < hi {
            let mid = lo + (hi - lo + 1) / 2;
            let c = self.p.cst(mid, w);
            let g = self.p.bin(Op::Ule, c, t);
            match self.query(st, g) {
                (Res::Sat, m) => {
                    self.p.new_model();
                    lo = self.p.eval(t, &m);
                }
                _ => hi = mid - 1,
            }
        }
        lo
    }

    // ---------- reporting ----------
    fn trace(&self, st: &State) -> Vec<String> {
        st.frames
            .iter()
            .rev()
            .take(12)
            .map(|f| self.m.funcs[f.func as usize].name.clone())
            .collect()
    }
    fn viol(&mut self, st: &State, kind: &str, msg: String, model: Option<&[u8]>) -> Stop {
        let mut input: Vec<u8> = model.map(|m| m.to_vec()).unwrap_or((*st.model).clone());
        input.resize(st.nvars as usize, 0);
        let key = format!("{}|{}", kind, msg);
        let n = self.seen_viol.entry(key).or_insert(0);
        *n += 1;
        if *n <= self.cfg.max_viol as u32 {
            self.viols.push(Violation {
                kind: kind.into(),
                msg,
                input,
                stack: self.trace(st),
            });
        }
        Stop::Viol
    }

    // ---------- calls ----------
    fn goto(&mut self, st: &mut State, b: u32) {
        let fi = st.frames.len() - 1;
        let func = st.frames[fi].func;
        let from = st.frames[fi].block;
        let blk = &self.m.funcs[func as usize].blocks[b as usize];
        self.cov[func as usize][b as usize] = true;
        if !blk.phis.is_empty() {
            let mut vals = Vec::with_capacity(blk.phis.len());
            for ph in &blk.phis {
                let o = ph
                    .inc
                    .iter()
                    .find(|(l, _)| *l == from)
                    .map(|(_, o)| o)
                    .expect("phi");
                vals.push((ph.dst, self.get(st, o)));
            }
            let regs = Rc::make_mut(&mut st.frames[fi].regs);
            for (d, v) in vals {
                regs[d as usize] = v;
            }
        }
        let f = &mut st.frames[fi];
        f.prev = from;
        f.block = b;
        f.ip = 0;
    }
    fn finish_call(&mut self, st: &mut State, dst: u32, v: Option<Val>, dest: Option<u32>) {
        if let Some(v) = v {
            self.set(st, dst, v);
        }
        match dest {
            Some(b) => self.goto(st, b),
            None => st.frames.last_mut().unwrap().ip += 1,
        }
    }
    fn panic_msg(&mut self, st: &State, name: &str, args: &[Val]) -> String {
        let mut s = name.to_string();
        if let Some(i) = name.find("9panicking") {
            s = name[i + 10..].to_string();
        }
        // panic(str, len, loc)
        if name.ends_with("9panicking5panic") && args.len() >= 2 {
            if let (Val::C(a), Val::C(n)) = (&args[0], &args[1]) {
                s = self.read_str(st, *a as u64, *n as u64);
            }
        }
        if let Some(Val::C(a)) = args.last() {
            // core::panic::Location { file: &str, line: u32, col: u32 }
            if let Ok(b) = self.try_loc(st, *a as u64) {
                s = format!("{} at {}", s, b);
            }
        }
        // a caller such as unwrap_failed / slice_index_fail carries the user location
        s
    }
    fn try_loc(&mut self, st: &State, a: u64) -> Result<String, ()> {
        let (r, off) = match self.find(st, a) {
            Some(x) => x,
            None => return Err(()),
        };
        if self.obj(st, &r).size < off + 24 {
            return Err(());
        }
        let off = off as usize;
        let g = |e: &mut Self, o: usize, n: usize| match e.load_int(st, &r, off + o, n) {
            Val::C(c) => c as u64,
            _ => 0,
        };
        let (p, n, l, c) = (g(self, 0, 8), g(self, 8, 8), g(self, 16, 4), g(self, 20, 4));
        if n == 0 || n > 500 || self.find(st, p).is_none() {
            return Err(());
        }
        let f = self.read_str(st, p, n);
        if !f.contains(".rs") {
            return Err(());
        }
        let f = match f.find("/repo/") {
            Some(i) => f[i + 6..].to_string(),
            None => f,
        };
        Ok(format!("{}:{}:{}", f.trim_end_matches('\0'), l, c))
    }
    fn push_frame(&mut self, st: &mut State, f: u32, args: Vec<Val>, dst: u32, goto: Option<u32>) -> R<()> {
        if st.frames.len() >= self.cfg.max_depth {
            return Err(self.viol(st, "depth", format!("more than {} nested calls", self.cfg.max_depth), None));
        }
        let fun = &self.m.funcs[f as usize];
        let mut regs = vec![Val::C(0); fun.nregs as usize];
        for (i, (_, r)) in fun.params.iter().enumerate() {
            if i < args.len() {
                regs[*r as usize] = args[i].clone();
            }
        }
        self.cov[f as usize][0] = true;
        st.frames.push(Frame {
            func: f,
            block: 0,
            ip: 0,
            prev: 0,
            regs: Rc::new(regs),
            dst,
            goto,
            allocas: vec![],
        });
        Ok(())
    }
    fn charge(&mut self, st: &mut State, add: &Val, sub: &Val) {
        let a = self.bin(Op::Add, 64, &st.live.clone(), add);
        st.live = self.bin(Op::Sub, 64, &a, sub);
        let gt = self.bin(Op::Ult, 64, &st.peak.clone(), &st.live.clone());
        st.peak = self.ite(&gt, 64, &st.live.clone(), &st.peak.clone());
    }
    /// Returns (object size, size to charge); may fork.
    fn alloc_size(&mut self, st: &mut State, v: &Val) -> R<u64> {
        let lim = self.cfg.alloc_limit;
        match v {
            Val::C(c) => {
                if *c as u64 > lim {
                    return Err(self.viol(st, "alloc", format!("allocation of {} bytes requested", c), None));
                }
                Ok(*c as u64)
            }
            Val::S(t) => {
                let l = self.p.cst(lim as u128, 64);
                let big = self.p.bin(Op::Ult, l, *t);
                if self.decide(st, big) {
                    return Err(self.viol(st, "alloc", format!("allocation of more than {} bytes requested", lim), None));
                }
                Ok(self.maximize(st, *t, 64) as u64)
            }
            _ => panic!(),
        }
    }
    fn do_ext(&mut self, st: &mut State, x: Ext, args: &[Val], _name: &str) -> R<Option<Val>> {
        macro_rules! conc {
            ($i:expr) => {
                self.concretize(st, &args[$i], 64) as u64
            };
        }
        Ok(match x {
            Ext::Malloc => {
                let n = self.alloc_size(st, &args[0])?;
                let s = self.alloc(st, n, args[0].clone());
                self.charge(st, &args[0], &Val::C(0));
                Some(Val::C(Self::haddr(s) as u128))
            }
            Ext::Calloc => {
                let tot = self.bin(Op::Mul, 64, &args[0], &args[1]);
                let n = self.alloc_size(st, &tot)?;
                let s = self.alloc(st, n, tot.clone());
                self.charge(st, &tot, &Val::C(0));
                Some(Val::C(Self::haddr(s) as u128))
            }
            Ext::Memalign => {
                let p = conc!(0);
                let n = self.alloc_size(st, &args[2])?;
                let s = self.alloc(st, n, args[2].clone());
                self.charge(st, &args[2], &Val::C(0));
                self.store_at(st, p, &Ty::Ptr, &Val::C(Self::haddr(s) as u128))?;
                Some(Val::C(0))
            }
            Ext::Realloc => {
                let p = conc!(0);
                let n = self.alloc_size(st, &args[1])?;
                if p == 0 {
                    let s = self.alloc(st, n, args[1].clone());
                    self.charge(st, &args[1], &Val::C(0));
                    return Ok(Some(Val::C(Self::haddr(s) as u128)));
                }
                let slot = ((p - HBASE) >> HSHIFT) as usize;
                let old = st.heap[slot].as_ref().unwrap().acct.clone();
                let o = Rc::make_mut(st.heap[slot].as_mut().unwrap());
                o.size = n;
                o.data.truncate(n as usize);
                o.sym.truncate(n as usize);
                o.acct = args[1].clone();
                self.charge(st, &args[1], &old);
                Some(Val::C(p as u128))
            }
            Ext::Free => {
                let p = conc!(0);
                if p != 0 {
                    let slot = ((p - HBASE) >> HSHIFT) as usize;
                    if p & ((1 << HSHIFT) - 1) != 0 || slot >= st.heap.len() || st.heap[slot].is_none() {
                        return Err(self.viol(st, "mem", "invalid free".into(), None));
                    }
                    let old = st.heap[slot].as_ref().unwrap().acct.clone();
                    st.heap[slot] = None;
                    st.free.push(slot as u32);
                    self.charge(st, &Val::C(0), &old);
                }
                None
            }
            Ext::Memcmp | Ext::Bcmp => {
                let (a, b, n) = (conc!(0), conc!(1), conc!(2));
                let xs = self.read_bytes(st, a, n)?;
                let ys = self.read_bytes(st, b, n)?;
                let mut r = Val::C(0);
                for (p, q) in xs.iter().zip(ys.iter()).rev() {
                    let eq = self.bin(Op::Eq, 8, p, q);
                    let d = if x == Ext::Bcmp {
                        Val::C(1)
                    } else {
                        let lt = self.bin(Op::Ult, 8, p, q);
                        self.ite(&lt, 32, &Val::C(0xffff_ffff), &Val::C(1))
                    };
                    r = self.ite(&eq, 32, &r, &d);
                }
                Some(r)
            }
            Ext::Strlen => {
                let a = conc!(0);
                let mut n = 0u64;
                loop {
                    let b = self.read_bytes(st, a + n, 1)?;
                    if self.concretize(st, &b[0], 8) == 0 {
                        break;
                    }
                    n += 1;
                }
                Some(Val::C(n as u128))
            }
            Ext::Syscall => {
                let nr = conc!(0);
                if nr == 318 {
                    // getrandom: zeros (hash seeds)
                    let (p, n) = (conc!(1), conc!(2));
                    for i in 0..n {
                        self.store_at(st, p + i, &Ty::Int(8), &Val::C(0))?;
                    }
                    Some(Val::C(n as u128))
                } else if nr == 202 {
                    // futex: nobody waits
                    Some(Val::C(0))
                } else {
                    return Err(Stop::Err(format!("syscall {}", nr)));
                }
            }
            Ext::Getenv => Some(Val::C(0)),
            Ext::Abort => return Err(self.viol(st, "panic", "abort".into(), None)),
            Ext::Write => {
                let n = conc!(2);
                Some(Val::C(n as u128))
            }
            Ext::Zero => Some(Val::C(0)),
            Ext::One => Some(Val::C(1)),
            Ext::KeyCreate => {
                let p = conc!(0);
                self.store_at(st, p, &Ty::Int(32), &Val::C(1))?;
                Some(Val::C(0))
            }
            Ext::Writev => {
                let (p, n) = (conc!(1), conc!(2));
                let mut tot = 0;
                for i in 0..n {
                    let v = self.load_at(st, p + i * 16 + 8, &Ty::Int(64))?;
                    tot += self.concretize(st, &v, 64);
                }
                Some(Val::C(tot as u128))
            }
            Ext::Memchr(last) => {
                let (a, n) = (conc!(0), conc!(2));
                let want = match &args[1] {
                    Val::C(c) => Val::C(c & 0xff),
                    _ => Val::C(conc!(1) as u128 & 0xff),
                };
                let xs = self.read_bytes(st, a, n)?;
                let mut r = Val::C(0);
                for k in 0..xs.len() {
                    let i = if last { k } else { xs.len() - 1 - k };
                    let eq = self.bin(Op::Eq, 8, &xs[i], &want);
                    r = self.ite(&eq, 64, &Val::C((a + i as u64) as u128), &r);
                }
                Some(r)
            }
            Ext::SymBytes => {
                let (p, n) = (conc!(0), conc!(1));
                let (r, off) = if n == 0 {
                    return Ok(None);
                } else {
                    self.access(st, p, n)?
                };
                let base = st.nvars;
                let ts: Vec<T> = (0..n as u32).map(|i| self.p.var(base + i)).collect();
                let o = self.obj_mut(st, &r);
                for (i, t) in ts.iter().enumerate() {
                    o.set(off + i, &Val::S(*t));
                }
                st.nvars += n as u32;
                let mut m = (*st.model).clone();
                m.resize(st.nvars as usize, 0);
                st.model = Rc::new(m);
                None
            }
            Ext::SymAssume => {
                let c = match &args[0] {
                    Val::C(0) => return Err(Stop::Assumed),
                    Val::C(_) => return Ok(None),
                    v => self.term(v, 1),
                };
                if self.evalm(st, c) != 1 {
                    match self.query(st, c) {
                        (Res::Sat, m) => st.model = Rc::new(m),
                        _ => return Err(Stop::Assumed),
                    }
                }
                self.push_pc(st, c);
                None
            }
            Ext::SymCheck => {
                self.st.checks += 1;
                let id = conc!(1);
                *self.check_ids.entry(id).or_default() += 1;
                let c = match &args[0] {
                    Val::C(0) => return Err(self.viol(st, "check", format!("check {}", id), None)),
                    Val::C(_) => return Ok(None),
                    v => self.term(v, 1),
                };
                let n = self.p.not(c);
                if self.evalm(st, c) != 1 {
                    self.viol(st, "check", format!("check {}", id), None);
                    match self.query(st, c) {
                        (Res::Sat, m) => st.model = Rc::new(m),
                        _ => return Err(Stop::Viol),
                    }
                    self.push_pc(st, c);
                } else {
                    match self.query(st, n) {
                        (Res::Sat, m) => {
                            self.viol(st, "check", format!("check {}", id), Some(&m));
                            self.push_pc(st, c);
                        }
                        (Res::Unsat, _) => self.learn(st, c, 1),
                        _ => {}
                    }
                }
                None
            }
            Ext::SymReach => {
                let id = conc!(0);
                self.reached.insert(id);
                None
            }
            Ext::SymReachTotal => {
                let n = conc!(0);
                self.reach_total = self.reach_total.max(n);
                None
            }
            Ext::SymObs => {
                st.obs.push(args[0].clone());
                None
            }
            Ext::SymConcrete => {
                let c = conc!(0);
                Some(Val::C(c as u128))
            }
            Ext::SymFork => {
                let c = match &args[0] {
                    Val::C(x) => *x & 1 == 1,
                    v => {
                        let t = self.term(v, 1);
                        self.decide(st, t)
                    }
                };
                Some(Val::C(c as u128))
            }
            Ext::SymHeapReset => {
                st.peak = st.live.clone();
                None
            }
            Ext::SymHeapPeak => Some(st.peak.clone()),
            Ext::SymHeapLive => Some(st.live.clone()),
            Ext::SymPath => None,
        })
    }

    // ---------- intrinsics on scalars ----------
    fn ctlz(&mut self, v: &Val, w: u32) -> Val {
        match v {
            Val::C(c) => Val::C(if *c == 0 { w as u128 } else { (c.leading_zeros() - (128 - w)) as u128 }),
            Val::S(t) => {
                let mut r = self.p.cst(w as u128, w);
                for i in 0..w {
                    let b = self.p.extract(*t, i, i);
                    let c = self.p.cst((w - 1 - i) as u128, w);
                    r = self.p.ite(b, c, r);
                }
                self.mkv(r)
            }
            _ => panic!(),
        }
    }
    fn cttz(&mut self, v: &Val, w: u32) -> Val {
        match v {
            Val::C(c) => Val::C(if *c == 0 { w as u128 } else { c.trailing_zeros() as u128 }),
            Val::S(t) => {
                let mut r = self.p.cst(w as u128, w);
                for i in (0..w).rev() {
                    let b = self.p.extract(*t, i, i);
                    let c = self.p.cst(i as u128, w);
                    r = self.p.ite(b, c, r);
                }
                self.mkv(r)
            }
            _ => panic!(),
        }
    }
    fn lanes(&mut self, t: &Ty, a: &[Val], f: &mut dyn FnMut(&mut Self, u32, &[Val]) -> R<Val>) -> R<Val> {
        match t {
            Ty::Vec(n, et) => {
                let w = et.bits();
                let mut o = vec![];
                for i in 0..*n as usize {
                    let xs: Vec<Val> = a
                        .iter()
                        .map(|v| match v {
                            Val::A(l) => l[i].clone(),
                            v => v.clone(),
                        })
                        .collect();
                    o.push(f(self, w, &xs)?);
                }
                Ok(Val::A(Rc::new(o)))
            }
            _ => f(self, t.bits(), a),
        }
    }
    fn ovf(&mut self, k: Intr, w: u32, a: &Val, b: &Val) -> (Val, Val) {
        let op = match k {
            Intr::UAddO | Intr::SAddO => Op::Add,
            Intr::USubO | Intr::SSubO => Op::Sub,
            _ => Op::Mul,
        };
        let r = self.bin(op, w, a, b);
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (to_signed(x, w), to_signed(y, w));
            let fits = |v: Option<i128>| v.map_or(false, |v| to_signed(v as u128 & mask(w), w) == v);
            let o = match k {
                Intr::UAddO => x.checked_add(y).map_or(true, |v| v > mask(w)),
                Intr::USubO => x < y,
                Intr::UMulO => x.checked_mul(y).map_or(true, |v| v > mask(w)),
                Intr::SAddO => !fits(sx.checked_add(sy)),
                Intr::SSubO => !fits(sx.checked_sub(sy)),
                _ => !fits(sx.checked_mul(sy)),
            };
            return (r, Val::C(o as u128));
        }
        let o = match k {
            Intr::UAddO => self.bin(Op::Ult, w, &r, a),
            Intr::USubO => self.bin(Op::Ult, w, a, b),
            Intr::SAddO | Intr::SSubO => {
                let (x, y) = (self.sext(a, w, w + 1), self.sext(b, w, w + 1));
                let f = self.bin(op, w + 1, &x, &y);
                let g = self.sext(&r, w, w + 1);
                let e = self.bin(Op::Eq, w + 1, &f, &g);
                self.not1(&e)
            }
            Intr::UMulO => {
                let (s, kc) = match (a, b) {
                    (s, Val::C(kc)) => (s, Some(*kc)),
                    (Val::C(kc), s) => (s, Some(*kc)),
                    _ => (a, None),
                };
                match kc {
                    Some(0) => Val::C(0),
                    Some(kc) => self.bin(Op::Ult, w, &Val::C(mask(w) / kc), s),
                    None => {
                        let w2 = (2 * w).min(128);
                        let (x, y) = (self.zext(a, w2), self.zext(b, w2));
                        let f = self.bin(Op::Mul, w2, &x, &y);
                        self.bin(Op::Ult, w2, &Val::C(mask(w)), &f)
                    }
                }
            }
            _ => {
                let w2 = (2 * w).min(128);
                let (x, y) = (self.sext(a, w, w2), self.sext(b, w, w2));
                let f = self.bin(Op::Mul, w2, &x, &y);
                let g = self.sext(&r, w, w2);
                let e = self.bin(Op::Eq, w2, &f, &g);
                self.not1(&e)
            }
        };
        (r, o)
    }
    fn intrinsic(&mut self, st: &mut State, id: u32, args: &[Val], tys: &[(Ty, Opd)], ret: &Ty) -> R<Option<Val>> {
        let k = self.ik[id as usize];
        Ok(match k {
            Intr::Nop => None,
            Intr::Memcpy => {
                let n = self.concretize(st, &args[2], 64) as u64;
                if n > 0 {
                    let d = self.concretize(st, &args[0], 64) as u64;
                    let s = self.concretize(st, &args[1], 64) as u64;
                    self.copy(st, d, s, n)?;
                }
                None
            }
            Intr::Memset => {
                let n = self.concretize(st, &args[2], 64) as u64;
                if n > 0 {
                    let d = self.concretize(st, &args[0], 64) as u64;
                    let (r, off) = self.access(st, d, n)?;
                    let v = args[1].clone();
                    let o = self.obj_mut(st, &r);
                    let n = n as usize;
                    match v {
                        Val::C(c) => {
                            let e = (off + n).min(o.sym.len());
                            if off < e {
                                for x in &mut o.sym[off..e] {
                                    *x = 0;
                                }
                            }
                            if c as u8 == 0 {
                                // bytes beyond data.len() already read as zero
                                let e = (off + n).min(o.data.len());
                                if off < e {
                                    o.data[off..e].fill(0);
                                }
                            } else {
                                if o.data.len() < off + n {
                                    o.data.resize(off + n, 0);
                                }
                                o.data[off..off + n].fill(c as u8);
                            }
                        }
                        v => {
                            for i in 0..n {
                                o.set(off + i, &v);
                            }
                        }
                    }
                }
                None
            }
            Intr::UAddO | Intr::SAddO | Intr::USubO | Intr::SSubO | Intr::UMulO | Intr::SMulO => {
                let w = tys[0].0.bits();
                let (r, o) = self.ovf(k, w, &args[0], &args[1]);
                Some(Val::A(Rc::new(vec![r, o])))
            }
            Intr::UMax | Intr::UMin | Intr::SMax | Intr::SMin => {
                Some(self.lanes(ret, args, &mut |e, w, a| {
                    let op = if matches!(k, Intr::UMax | Intr::UMin) { Op::Ult } else { Op::Slt };
                    let lt = e.bin(op, w, &a[0], &a[1]);
                    Ok(if matches!(k, Intr::UMax | Intr::SMax) {
                        e.ite(&lt, w, &a[1], &a[0])
                    } else {
                        e.ite(&lt, w, &a[0], &a[1])
                    })
                })?)
            }
            Intr::Abs => Some(self.lanes(ret, &args[..1], &mut |e, w, a| {
                let neg = e.bin(Op::Slt, w, &a[0], &Val::C(0));
                let m = e.bin(Op::Sub, w, &Val::C(0), &a[0]);
                Ok(e.ite(&neg, w, &m, &a[0]))
            })?),
            Intr::UCmp | Intr::SCmp => {
                let w = tys[0].0.bits();
                let rw = ret.bits();
                let op = if k == Intr::UCmp { Op::Ult } else { Op::Slt };
                let lt = self.bin(op, w, &args[0], &args[1]);
                let eq = self.bin(Op::Eq, w, &args[0], &args[1]);
                let r = self.ite(&eq, rw, &Val::C(0), &Val::C(1));
                Some(self.ite(&lt, rw, &Val::C(mask(rw)), &r))
            }
            Intr::UAddSat => Some(self.lanes(ret, args, &mut |e, w, a| {
                let (r, o) = e.ovf(Intr::UAddO, w, &a[0], &a[1]);
                Ok(e.ite(&o, w, &Val::C(mask(w)), &r))
            })?),
            Intr::USubSat => Some(self.lanes(ret, args, &mut |e, w, a| {
                let (r, o) = e.ovf(Intr::USubO, w, &a[0], &a[1]);
                Ok(e.ite(&o, w, &Val::C(0), &r))
            })?),
            Intr::SAddSat | Intr::SSubSat => Some(self.lanes(ret, args, &mut |e, w, a| {
                let kk = if k == Intr::SAddSat { Intr::SAddO } else { Intr::SSubO };
                let (r, o) = e.ovf(kk, w, &a[0], &a[1]);
                let neg = e.bin(Op::Slt, w, &a[0], &Val::C(0));
                let s = e.ite(&neg, w, &Val::C(1u128 << (w - 1)), &Val::C(mask(w) >> 1));
                Ok(e.ite(&o, w, &s, &r))
            })?),
            Intr::Ctlz => Some(self.lanes(ret, &args[..1], &mut |e, w, a| Ok(e.ctlz(&a[0], w)))?),
            Intr::Cttz => Some(self.lanes(ret, &args[..1], &mut |e, w, a| Ok(e.cttz(&a[0], w)))?),
            Intr::Ctpop => Some(self.lanes(ret, args, &mut |e, w, a| {
                let mut r = Val::C(0);
                for i in 0..w {
                    let b = e.ext(&a[0], i, i);
                    let z = e.zext(&b, w);
                    r = e.bin(Op::Add, w, &r, &z);
                }
                Ok(r)
            })?),
            Intr::Bswap | Intr::Bitrev => {
                let w = ret.bits();
                let step = if k == Intr::Bswap { 8 } else { 1 };
                let mut ts = vec![];
                for i in 0..w / step {
                    let b = self.ext(&args[0], i * step + step - 1, i * step);
                    ts.push(self.term(&b, step));
                }
                let t = self.p.concat_list(&ts);
                Some(self.mkv(t))
            }
            Intr::Fshl | Intr::Fshr => {
                let w = ret.bits();
                let sh = self.concretize(st, &args[2], w) % w as u128;
                let sh = sh as u32;
                if sh == 0 {
                    Some(if k == Intr::Fshl { args[0].clone() } else { args[1].clone() })
                } else {
                    let l = if k == Intr::Fshl { sh } else { w - sh };
                    let x = self.bin(Op::Shl, w, &args[0], &Val::C(l as u128));
                    let y = self.bin(Op::LShr, w, &args[1], &Val::C((w - l) as u128));
                    Some(self.bin(Op::Or, w, &x, &y))
                }
            }
            Intr::IsConst => Some(Val::C(0)),
            Intr::Expect | Intr::TlsAddr => Some(args[0].clone()),
            Intr::Ptrmask => Some(self.bin(Op::And, 64, &args[0], &args[1])),
            Intr::ObjSize => {
                let min = matches!(args.get(1), Some(Val::C(1)));
                Some(Val::C(if min { 0 } else { mask(64) }))
            }
            Intr::LoadRel => {
                let p = self.concretize(st, &args[0], 64) as u64;
                let o = self.concretize(st, &args[1], 64) as u64;
                let v = self.load_at(st, p.wrapping_add(o), &Ty::Int(32))?;
                let s = self.sext(&v, 32, 64);
                Some(self.bin(Op::Add, 64, &Val::C(p as u128), &s))
            }
            Intr::Trap => return Err(self.viol(st, "panic", "trap".into(), None)),
            Intr::Fabs => {
                let w = ret.bits();
                Some(self.bin(Op::And, w, &args[0], &Val::C(mask(w - 1))))
            }
            Intr::ReduceAdd | Intr::ReduceAnd | Intr::ReduceOr => {
                let op = match k {
                    Intr::ReduceAdd => Op::Add,
                    Intr::ReduceAnd => Op::And,
                    _ => Op::Or,
                };
                let w = ret.bits();
                if let Val::A(l) = &args[0] {
                    let mut r = l[0].clone();
                    for x in &l[1..] {
                        r = self.bin(op, w, &r, x);
                    }
                    Some(r)
                } else {
                    panic!()
                }
            }
            Intr::AddCarry | Intr::SubBorrow => {
                // (i8 carry, iN a, iN b) -> {i8, iN}
                let w = tys[1].0.bits();
                let w2 = w + 1;
                let nz = self.icmp(Pred::Ne, 8, &args[0], &Val::C(0));
                let c = self.zext(&nz, w2);
                let (a, b) = (self.zext(&args[1], w2), self.zext(&args[2], w2));
                let op = if k == Intr::AddCarry { Op::Add } else { Op::Sub };
                let x = self.bin(op, w2, &a, &b);
                let x = self.bin(op, w2, &x, &c);
                let r = self.ext(&x, w - 1, 0);
                let co = self.ext(&x, w, w);
                let co = self.zext(&co, 8);
                Some(Val::A(Rc::new(vec![co, r])))
            }
            Intr::FpToUiSat | Intr::FpToSiSat => {
                let w = ret.bits();
                let ft = &tys[0].0;
                let v = self.special(st, &args[0], ft.bits())?;
                let f = if *ft == Ty::F32 {
                    f32::from_bits(v as u32) as f64
                } else {
                    f64::from_bits(v as u64)
                };
                let r = if k == Intr::FpToUiSat {
                    (f as u128).min(mask(w))
                } else {
                    let lo = -(1i128 << (w - 1));
                    let hi = (1i128 << (w - 1)) - 1;
                    (f as i128).clamp(lo, hi) as u128 & mask(w)
                };
                Some(Val::C(r))
            }
            Intr::FpOp => {
                let n = self.m.intrinsics[id as usize].clone();
                let w = ret.bits();
                let v = self.concretize(st, &args[0], w);
                if w != 64 {
                    return Err(Stop::Err(format!("intrinsic {}", n)));
                }
                let f = f64::from_bits(v as u64);
                let r = if n.contains("floor") {
                    f.floor()
                } else if n.contains("ceil") {
                    f.ceil()
                } else if n.contains("trunc") {
                    f.trunc()
                } else if n.contains("sqrt") {
                    f.sqrt()
                } else if n.contains("exp") {
                    f.exp()
                } else if n.contains("log2") {
                    f.log2()
                } else if n.contains("log10") {
                    f.log10()
                } else if n.contains("log.") {
                    f.ln()
                } else if n.contains("powi") {
                    let e = self.concretize(st, &args[1], 32);
                    f.powi(e as u32 as i32)
                } else {
                    return Err(Stop::Err(format!("intrinsic {}", n)));
                };
                Some(Val::C(r.to_bits() as u128))
            }
            Intr::Unsup => return Err(Stop::Err(format!("intrinsic {}", self.m.intrinsics[id as usize]))),
        })
    }
    fn fcmp(&mut self, p: &str, w: u32, a: &Val, b: &Val) -> Val {
        let (mb, total) = if w == 32 { (23, 31) } else { (52, 63) };
        let _ = mb;
        let inf: u128 = if w == 32 { 0x7f80_0000 } else { 0x7ff0_0000_0000_0000 };
        let nan = |e: &mut Self, x: &Val| {
            let m = e.bin(Op::And, w, x, &Val::C(mask(total)));
            e.bin(Op::Ult, w, &Val::C(inf), &m)
        };
        let na = nan(self, a);
        let nb = nan(self, b);
        let uno = self.bin(Op::Or, 1, &na, &nb);
        let ord = self.not1(&uno);
        let ma = self.bin(Op::And, w, a, &Val::C(mask(total)));
        let mb_ = self.bin(Op::And, w, b, &Val::C(mask(total)));
        let za = self.bin(Op::Eq, w, &ma, &Val::C(0));
        let zb = self.bin(Op::Eq, w, &mb_, &Val::C(0));
        let zz = self.bin(Op::And, 1, &za, &zb);
        let same = self.bin(Op::Eq, w, a, b);
        let eq = self.bin(Op::Or, 1, &same, &zz);
        let sa = self.ext(a, total, total);
        let sb = self.ext(b, total, total);
        // a < b (no NaN): not equal and
        //   sa & !sb ; !sa & !sb & a <u b ; sa & sb & b <u a
        let lt = |e: &mut Self, a: &Val, b: &Val, sa: &Val, sb: &Val| {
            let u = e.bin(Op::Ult, w, a, b);
            let v = e.bin(Op::Ult, w, b, a);
            let bothneg = v;
            let diff = sa.clone();
            let same = e.ite(sa, 1, &bothneg, &u);
            let se = e.bin(Op::Eq, 1, sa, sb);
            let r = e.ite(&se, 1, &same, &diff);
            let ne = e.not1(&eq);
            e.bin(Op::And, 1, &r, &ne)
        };
        let l = lt(self, a, b, &sa, &sb);
        let g = lt(self, b, a, &sb, &sa);
        let (base, unordered) = match p {
            "false" => return Val::C(0),
            "true" => return Val::C(1),
            "ord" => return ord,
            "uno" => return uno,
            _ => (&p[1..], p.starts_with('u')),
        };
        let r = match base {
            "eq" => eq.clone(),
            "ne" => self.not1(&eq),
            "lt" => l,
            "gt" => g,
            "le" => self.bin(Op::Or, 1, &l, &eq),
            "ge" => self.bin(Op::Or, 1, &g, &eq),
            _ => panic!("fcmp {}", p),
        };
        if unordered {
            self.bin(Op::Or, 1, &r, &uno)
        } else {
            self.bin(Op::And, 1, &r, &ord)
        }
    }

    /// Load through a symbolic address: a decision tree over the offset bits.
    fn sym_load(&mut self, st: &mut State, a: T, t: &Ty) -> R<Val> {
        let v = self.evalm(st, a) as u64;
        let n = t.store_size();
        if !t.is_scalar() {
            let c = self.concretize(st, &Val::S(a), 64) as u64;
            return self.load_at(st, c, t);
        }
        let (r, off) = match self.find(st, v) {
            Some((r, o)) => (r, o),
            None => {
                let c = self.concretize(st, &Val::S(a), 64) as u64;
                return self.load_at(st, c, t);
            }
        };
        let base = v - off;
        let size = self.obj(st, &r).size;
        if size > 4096 || size < n {
            let c = self.concretize(st, &Val::S(a), 64) as u64;
            return self.load_at(st, c, t);
        }
        // in bounds for every model?
        let bt = self.p.cst(base as u128, 64);
        let o = self.p.bin(Op::Sub, a, bt);
        let lim = self.p.cst((size - n) as u128, 64);
        let inb = self.p.bin(Op::Ule, o, lim);
        if !self.decide(st, inb) {
            let c = self.concretize(st, &Val::S(a), 64) as u64;
            return self.load_at(st, c, t);
        }
        let top = 64 - (size - n).leading_zeros();
        let res = self.tree(st, &r, o, top, 0, size - n, n as usize, t.bits());
        Ok(res.unwrap_or(Val::C(0)))
    }
    fn tree(&mut self, st: &State, r: &OR, o: T, bit: u32, pre: u64, lim: u64, n: usize, w: u32) -> Option<Val> {
        if pre > lim {
            return None;
        }
        if bit == 0 {
            let v = self.load_int(st, r, pre as usize, n);
            return Some(if w < n as u32 * 8 { self.ext(&v, w - 1, 0) } else { v });
        }
        let b = self.p.extract(o, bit - 1, bit - 1);
        let kb = self.p.as_const(b).or_else(|| st.known.get(&b).copied());
        match kb {
            Some(0) => self.tree(st, r, o, bit - 1, pre, lim, n, w),
            Some(_) => self.tree(st, r, o, bit - 1, pre | (1 << (bit - 1)), lim, n, w),
            None => {
                let l = self.tree(st, r, o, bit - 1, pre, lim, n, w);
                let h = self.tree(st, r, o, bit - 1, pre | (1 << (bit - 1)), lim, n, w);
                match (h, l) {
                    (Some(h), Some(l)) => Some(self.ite(&Val::S(b), w, &h, &l)),
                    (Some(x), None) | (None, Some(x)) => Some(x),
                    _ => None,
                }
            }
        }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let m = self.m;
        let (func, block, ip) = {
            let f = st.frames.last().unwrap();
            (f.func, f.block, f.ip)
        };
        let (dst, ins) = &m.funcs[func as usize].blocks[block as usize].insts[ip as usize];
        let dst = *dst;
        st.steps += 1;
        self.st.steps += 1;
        if st.steps > self.cfg.max_steps {
            // after a few such paths, do not spend as long on each of the others
            let n = self.cfg.max_steps;
            let e = self.viol(st, "steps", format!("more than {} instructions on one path", n), None);
            if self.seen_viol.values().sum::<u32>() >= 2 {
                self.cfg.max_steps = n.min(20_000_000);
            }
            return Err(e);
        }
        macro_rules! next {
            ($v:expr) => {{
                let v = $v;
                let f = st.frames.last_mut().unwrap();
                if dst != NODST {
                    Rc::make_mut(&mut f.regs)[dst as usize] = v;
                }
                f.ip += 1;
                return Ok(());
            }};
        }
        match ins {
            Inst::Bin(op, t, a, b) => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let o = match op {
                    BinOp::Add => Op::Add,
                    BinOp::Sub => Op::Sub,
                    BinOp::Mul => Op::Mul,
                    BinOp::UDiv => Op::UDiv,
                    BinOp::SDiv => Op::SDiv,
                    BinOp::URem => Op::URem,
                    BinOp::SRem => Op::SRem,
                    BinOp::Shl => Op::Shl,
                    BinOp::LShr => Op::LShr,
                    BinOp::AShr => Op::AShr,
                    BinOp::And => Op::And,
                    BinOp::Or => Op::Or,
                    BinOp::Xor => Op::Xor,
                    f => {
                        if !t.is_scalar() {
                            return Err(Stop::Err("vector float arithmetic".into()));
                        }
                        let w = t.bits();
                        let sign = 1u128 << (w - 1);
                        match (f, &x, &y) {
                            (BinOp::FAdd, Val::S(_), Val::C(z)) if z & !sign == 0 => next!(self.fadd_zero(&x, *z, w)),
                            (BinOp::FAdd, Val::C(z), Val::S(_)) if z & !sign == 0 => next!(self.fadd_zero(&y, *z, w)),
                            (BinOp::FSub, Val::S(_), Val::C(z)) if z & !sign == 0 => next!(self.fadd_zero(&x, *z ^ sign, w)),
                            _ => {}
                        }
                        let (x, y) = (self.special(st, &x, w)?, self.special(st, &y, w)?);
                        let go = |a: f64, b: f64| match f {
                            BinOp::FAdd => a + b,
                            BinOp::FSub => a - b,
                            BinOp::FMul => a * b,
                            BinOp::FDiv => a / b,
                            _ => a % b,
                        };
                        let r = if w == 32 {
                            let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                            (match f {
                                BinOp::FAdd => a + b,
                                BinOp::FSub => a - b,
                                BinOp::FMul => a * b,
                                BinOp::FDiv => a / b,
                                _ => a % b,
                            })
                            .to_bits() as u128
                        } else {
                            go(f64::from_bits(x as u64), f64::from_bits(y as u64)).to_bits() as u128
                        };
                        next!(Val::C(r))
                    }
                };
                if let (Val::C(p), Val::C(q)) = (&x, &y) {
                    next!(Val::C(fold(o, t.bits(), *p, *q)))
                }
                // a wide shift by one of a few amounts: one path per amount
                let y = match (&x, &y) {
                    (_, Val::S(q)) if matches!(o, Op::Shl | Op::LShr) && t.is_scalar() && t.bits() >= 64 && self.p.few_values(*q) => {
                        Val::C(self.concretize(st, &y, t.bits()))
                    }
                    _ => y,
                };
                let v = self.lanes(t, &[x, y], &mut |e, w, a| Ok(e.bin(o, w, &a[0], &a[1])))?;
                next!(v)
            }
            Inst::Icmp(p, t, a, b) => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let p = *p;
                let v = self.lanes(t, &[x, y], &mut |e, w, a| Ok(e.icmp(p, w, &a[0], &a[1])))?;
                let v = self.kn(st, v);
                next!(v)
            }
            Inst::Fcmp(p, t, a, b) => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let v = self.lanes(t, &[x, y], &mut |e, w, a| Ok(e.fcmp(p, w, &a[0], &a[1])))?;
                next!(v)
            }
            Inst::FNeg(t, a) => {
                let x = self.get(st, a);
                let v = self.lanes(t, &[x], &mut |e, w, a| Ok(e.bin(Op::Xor, w, &a[0], &Val::C(1u128 << (w - 1)))))?;
                next!(v)
            }
            Inst::Cast(op, ft, a, tt) => {
                let x = self.get(st, a);
                let op = *op;
                let v = match op {
                    CastOp::BitCast => {
                        if ft == tt || (ft.is_scalar() && tt.is_scalar()) {
                            x
                        } else {
                            let _ = bits_of(ft);
                            let b = self.to_bits(&x, ft);
                            self.from_bits(&b, tt)
                        }
                    }
                    CastOp::PtrToInt | CastOp::IntToPtr => {
                        let (fw, tw) = (ft.bits(), tt.bits());
                        if tw < fw {
                            self.ext(&x, tw - 1, 0)
                        } else if tw > fw {
                            self.zext(&x, tw)
                        } else {
                            x
                        }
                    }
                    CastOp::Trunc => {
                        let ew = match tt {
                            Ty::Vec(_, e) => e.bits(),
                            t => t.bits(),
                        };
                        self.lanes(ft, &[x], &mut |e, _, a| Ok(e.ext(&a[0], ew - 1, 0)))?
                    }
                    CastOp::ZExt => {
                        let ew = match tt {
                            Ty::Vec(_, e) => e.bits(),
                            t => t.bits(),
                        };
                        self.lanes(ft, &[x], &mut |e, _, a| Ok(e.zext(&a[0], ew)))?
                    }
                    CastOp::SExt => {
                        let ew = match tt {
                            Ty::Vec(_, e) => e.bits(),
                            t => t.bits(),
                        };
                        self.lanes(ft, &[x], &mut |e, w, a| Ok(e.sext(&a[0], w, ew)))?
                    }
                    _ => {
                        let v = match op {
                            CastOp::UiToFp | CastOp::SiToFp => self.concretize(st, &x, ft.bits()),
                            _ => self.special(st, &x, ft.bits())?,
                        };
                        let f = |t: &Ty, v: u128| {
                            if *t == Ty::F32 {
                                f32::from_bits(v as u32) as f64
                            } else {
                                f64::from_bits(v as u64)
                            }
                        };
                        let g = |t: &Ty, f: f64| {
                            if *t == Ty::F32 {
                                (f as f32).to_bits() as u128
                            } else {
                                f.to_bits() as u128
                            }
                        };
                        Val::C(match op {
                            CastOp::FpTrunc | CastOp::FpExt => g(tt, f(ft, v)),
                            CastOp::UiToFp => {
                                if *tt == Ty::F32 {
                                    (v as f32).to_bits() as u128
                                } else {
                                    (v as f64).to_bits() as u128
                                }
                            }
                            CastOp::SiToFp => {
                                let s = to_signed(v, ft.bits());
                                if *tt == Ty::F32 {
                                    (s as f32).to_bits() as u128
                                } else {
                                    (s as f64).to_bits() as u128
                                }
                            }
                            CastOp::FpToUi => f(ft, v) as u128 & mask(tt.bits()),
                            _ => (f(ft, v) as i128) as u128 & mask(tt.bits()),
                        })
                    }
                };
                next!(v)
            }
            Inst::Select(_ct, t, c, a, b) => {
                let cv = self.get(st, c);
                let (x, y) = (self.get(st, a), self.get(st, b));
                let v = match &cv {
                    Val::C(k) => {
                        if *k & 1 == 1 {
                            x
                        } else {
                            y
                        }
                    }
                    Val::S(ct) => {
                        if matches!(t, Ty::Int(_) | Ty::F32 | Ty::F64) {
                            self.ite(&cv, t.bits(), &x, &y)
                        } else if *t == Ty::Ptr {
                            match (&x, &y) {
                                (Val::C(p), Val::C(q)) if p == q => x,
                                _ => {
                                    if self.decide(st, *ct) {
                                        self.get(st, a)
                                    } else {
                                        self.get(st, b)
                                    }
                                }
                            }
                        } else if let Ty::Vec(..) = t {
                            self.lanes(t, &[x, y], &mut |e, w, a| Ok(e.ite(&cv, w, &a[0], &a[1])))?
                        } else if self.decide(st, *ct) {
                            x
                        } else {
                            y
                        }
                    }
                    Val::A(cs) => {
                        let mut o = vec![];
                        let w = t.elem(0).bits();
                        if let (Val::A(xs), Val::A(ys)) = (&x, &y) {
                            for i in 0..cs.len() {
                                o.push(self.ite(&cs[i], w, &xs[i], &ys[i]));
                            }
                        }
                        Val::A(Rc::new(o))
                    }
                };
                next!(v)
            }
            Inst::Alloca(sz, _al, n) => {
                let cnt = match n {
                    None => 1,
                    Some((t, o)) => {
                        let v = self.get(st, o);
                        self.concretize(st, &v, t.bits()) as u64
                    }
                };
                let s = self.alloc(st, sz * cnt, Val::C(0));
                st.frames.last_mut().unwrap().allocas.push(s);
                next!(Val::C(Self::haddr(s) as u128))
            }
            Inst::Load(t, a) => {
                let av = self.get(st, a);
                let v = match av {
                    Val::C(x) => self.load_at(st, x as u64, t)?,
                    Val::S(x) => self.sym_load(st, x, t)?,
                    _ => panic!(),
                };
                next!(v)
            }
            Inst::Store(t, v, a) => {
                let vv = self.get(st, v);
                let av = self.get(st, a);
                let x = self.concretize(st, &av, 64) as u64;
                self.store_at(st, x, t, &vv)?;
                next!(Val::C(0))
            }
            Inst::Gep(b, off, var) => {
                let mut v = self.get(st, b);
                if *off != 0 {
                    v = self.bin(Op::Add, 64, &v, &Val::C(*off as u128));
                }
                for (o, w, sc) in var {
                    let i = self.get(st, o);
                    let i = if *w < 64 { self.sext(&i, *w, 64) } else { i };
                    let s = self.bin(Op::Mul, 64, &i, &Val::C(*sc as u128));
                    v = self.bin(Op::Add, 64, &v, &s);
                }
                next!(v)
            }
            Inst::Extract(o, idx) => {
                let mut v = self.get(st, o);
                for i in idx {
                    v = match v {
                        Val::A(l) => l[*i as usize].clone(),
                        _ => panic!("extractvalue of a scalar in {}", self.trace(st).join(" < ")),
                    };
                }
                let v = self.kn(st, v);
                next!(v)
            }
            Inst::Insert(_t, a, b, idx) => {
                let v = self.get(st, a);
                let x = self.get(st, b);
                fn ins(v: &Val, x: &Val, idx: &[u32]) -> Val {
                    if idx.is_empty() {
                        return x.clone();
                    }
                    match v {
                        Val::A(l) => {
                            let mut n = (**l).clone();
                            n[idx[0] as usize] = ins(&n[idx[0] as usize], x, &idx[1..]);
                            Val::A(Rc::new(n))
                        }
                        _ => panic!("insertvalue"),
                    }
                }
                next!(ins(&v, &x, idx))
            }
            Inst::ExtractElem(v, i, _t) => {
                let iv = self.get(st, i);
                let k = self.concretize(st, &iv, 64) as usize;
                match self.get(st, v) {
                    Val::A(l) => next!(l[k].clone()),
                    _ => panic!(),
                }
            }
            Inst::InsertElem(_t, v, x, i) => {
                let iv = self.get(st, i);
                let k = self.concretize(st, &iv, 64) as usize;
                let xv = self.get(st, x);
                match self.get(st, v) {
                    Val::A(l) => {
                        let mut n = (*l).clone();
                        n[k] = xv;
                        next!(Val::A(Rc::new(n)))
                    }
                    _ => panic!(),
                }
            }
            Inst::Shuffle(t, a, b, mk) => {
                let n = t.count();
                match (self.get(st, a), self.get(st, b)) {
                    (Val::A(x), Val::A(y)) => {
                        let o = mk
                            .iter()
                            .map(|i| {
                                if *i < 0 {
                                    Val::C(0)
                                } else if (*i as usize) < n {
                                    x[*i as usize].clone()
                                } else {
                                    y[*i as usize - n].clone()
                                }
                            })
                            .collect();
                        next!(Val::A(Rc::new(o)))
                    }
                    _ => panic!(),
                }
            }
            Inst::Freeze(o) => {
                let v = self.get(st, o);
                next!(v)
            }
            Inst::AtomicRmw(op, t, a, v) => {
                let av = self.get(st, a);
                let p = self.concretize(st, &av, 64) as u64;
                let old = self.load_at(st, p, t)?;
                let x = self.get(st, v);
                let w = t.bits();
                let n = match op.as_str() {
                    "xchg" => x,
                    "add" => self.bin(Op::Add, w, &old, &x),
                    "sub" => self.bin(Op::Sub, w, &old, &x),
                    "and" => self.bin(Op::And, w, &old, &x),
                    "or" => self.bin(Op::Or, w, &old, &x),
                    "xor" => self.bin(Op::Xor, w, &old, &x),
                    o => return Err(Stop::Err(format!("atomicrmw {}", o))),
                };
                self.store_at(st, p, t, &n)?;
                next!(old)
            }
            Inst::CmpXchg(t, a, c, n) => {
                let av = self.get(st, a);
                let p = self.concretize(st, &av, 64) as u64;
                let old = self.load_at(st, p, t)?;
                let cv = self.get(st, c);
                let w = t.bits();
                let eq = self.bin(Op::Eq, w, &old, &cv);
                let ok = match &eq {
                    Val::C(x) => *x == 1,
                    Val::S(t) => self.decide(st, *t),
                    _ => panic!(),
                };
                if ok {
                    let nv = self.get(st, n);
                    self.store_at(st, p, t, &nv)?;
                }
                next!(Val::A(Rc::new(vec![old, Val::C(ok as u128)])))
            }
            Inst::Fence => next!(Val::C(0)),
            Inst::LandingPad | Inst::Resume => Err(Stop::Err("unwinding reached".into())),
            Inst::Ret(v) => {
                let rv = v.as_ref().map(|(_, o)| self.get(st, o));
                let f = st.frames.pop().unwrap();
                for s in f.allocas {
                    st.heap[s as usize] = None;
                    st.free.push(s);
                }
                if st.frames.is_empty() {
                    return Err(Stop::End);
                }
                self.finish_call(st, f.dst, rv, f.goto);
                Ok(())
            }
            Inst::Br(b) => {
                self.goto(st, *b);
                Ok(())
            }
            Inst::CondBr(c, a, b) => {
                let cv = self.get(st, c);
                let t = match cv {
                    Val::C(x) => x & 1 == 1,
                    Val::S(t) => self.decide(st, t),
                    _ => panic!(),
                };
                self.goto(st, if t { *a } else { *b });
                Ok(())
            }
            Inst::Switch(t, o, d, cases) => {
                let v = self.get(st, o);
                match v {
                    Val::C(x) => {
                        let b = cases.iter().find(|(k, _)| *k == x).map(|(_, b)| *b).unwrap_or(*d);
                        self.goto(st, b);
                        Ok(())
                    }
                    Val::S(x) => {
                        let w = t.bits();
                        let cur = self.evalm(st, x);
                        let tgt = |k: u128| cases.iter().find(|(c, _)| *c == k).map(|(_, b)| *b).unwrap_or(*d);
                        let taken = tgt(cur);
                        // condition per distinct target
                        let mut by: BTreeMap<u32, Vec<u128>> = BTreeMap::new();
                        for (k, b) in cases {
                            if b != d {
                                by.entry(*b).or_default().push(*k);
                            }
                        }
                        let mut dflt = self.p.tru();
                        let mut conds: Vec<(u32, T)> = vec![];
                        for (b, mut ks) in by {
                            ks.sort();
                            let mut c = self.p.fls();
                            let mut i = 0;
                            while i < ks.len() {
                                let mut j = i;
                                while j + 1 < ks.len() && ks[j + 1] == ks[j] + 1 {
                                    j += 1;
                                }
                                let e = if i == j {
                                    let k = self.p.cst(ks[i], w);
                                    self.p.bin(Op::Eq, x, k)
                                } else {
                                    let lo = self.p.cst(ks[i], w);
                                    let n = self.p.cst(ks[j] - ks[i], w);
                                    let s = self.p.bin(Op::Sub, x, lo);
                                    self.p.bin(Op::Ule, s, n)
                                };
                                c = self.p.bin(Op::Or, c, e);
                                i = j + 1;
                            }
                            let nc = self.p.not(c);
                            dflt = self.p.bin(Op::And, dflt, nc);
                            conds.push((b, c));
                        }
                        conds.push((*d, dflt));
                        let mut mine = None;
                        let mut other = false;
                        for (b, c) in conds {
                            if b == taken {
                                mine = Some(c);
                                continue;
                            }
                            if self.p.as_const(c) == Some(0) || st.known.get(&c) == Some(&0) {
                                continue;
                            }
                            match self.query(st, c) {
                                (Res::Sat, mm) => {
                                    let mut o = self.fork(st, c, mm);
                                    self.goto(&mut o, b);
                                    self.stack.push(o);
                                    other = true;
                                }
                                (Res::Unsat, _) => self.learn(st, c, 0),
                                _ => other = true,
                            }
                        }
                        let c = mine.unwrap();
                        if other {
                            self.push_pc(st, c);
                        } else {
                            self.learn(st, c, 1);
                        }
                        self.goto(st, taken);
                        Ok(())
                    }
                    _ => panic!(),
                }
            }
            Inst::Bad(t) => Err(Stop::Err(format!("cannot encode: {}", t))),
            Inst::Unreachable => Err(self.viol(st, "panic", "unreachable executed".into(), None)),
            Inst::Call(callee, args, ret, dest) => {
                let vals: Vec<Val> = args.iter().map(|(_, o)| self.get(st, o)).collect();
                let f = match callee {
                    Callee::Direct(f) => *f,
                    Callee::Indirect(o) => {
                        let v = self.get(st, o);
                        let a = self.concretize(st, &v, 64) as u64;
                        if a < FBASE || (a - FBASE) / 16 >= m.funcs.len() as u64 {
                            return Err(self.viol(st, "mem", format!("call of {:#x}", a), None));
                        }
                        ((a - FBASE) / 16) as u32
                    }
                    Callee::Intrinsic(i) => {
                        let r = self.intrinsic(st, *i, &vals, args, ret)?;
                        self.finish_call(st, dst, r, *dest);
                        return Ok(());
                    }
                    Callee::Asm(t, cons) => {
                        let r = if t.is_empty() {
                            // black_box and friends: an empty template with a memory clobber
                            if *ret == Ty::Void {
                                None
                            } else if vals.len() == 1 && cons.starts_with("=r,0") {
                                Some(vals[0].clone())
                            } else {
                                return Err(Stop::Err(format!("inline asm {:?} {:?}", t, cons)));
                            }
                        } else if t == "div ${2:q}" && cons.starts_with("=&{dx},=&{ax},r,0,1,") {
                            // dx:ax / operand -> remainder in dx, quotient in ax
                            let (d, hi, lo) = (&vals[0], &vals[1], &vals[2]);
                            let ok = self.bin(Op::Ult, 64, hi, d);
                            let fits = match &ok {
                                Val::C(c) => *c == 1,
                                Val::S(c) => self.decide(st, *c),
                                _ => false,
                            };
                            if !fits {
                                return Err(self.viol(st, "panic", "div instruction: quotient overflow".into(), None));
                            }
                            let (q, r) = if matches!(hi, Val::C(0)) {
                                (self.bin(Op::UDiv, 64, lo, d), self.bin(Op::URem, 64, lo, d))
                            } else {
                                let z = |e: &mut Self, v: &Val| e.zext(v, 128);
                                let h = z(self, hi);
                                let h = self.bin(Op::Shl, 128, &h, &Val::C(64));
                                let l = z(self, lo);
                                let n = self.bin(Op::Or, 128, &h, &l);
                                let dd = z(self, d);
                                let q = self.bin(Op::UDiv, 128, &n, &dd);
                                let r = self.bin(Op::URem, 128, &n, &dd);
                                (self.ext(&q, 63, 0), self.ext(&r, 63, 0))
                            };
                            Some(Val::A(Rc::new(vec![r, q])))
                        } else {
                            return Err(Stop::Err(format!("inline asm {:?} {:?}", t, cons)));
                        };
                        self.finish_call(st, dst, r, *dest);
                        return Ok(());
                    }
                };
                match self.fk[f as usize] {
                    FnK::Defined => {
                        self.push_frame(st, f, vals, dst, *dest)?;
                        Ok(())
                    }
                    FnK::Panic => {
                        let n = m.funcs[f as usize].name.clone();
                        let s = self.panic_msg(st, &n, &vals);
                        Err(self.viol(st, "panic", s, None))
                    }
                    FnK::AllocErr => Err(self.viol(st, "alloc", "handle_alloc_error".into(), None)),
                    FnK::Ext(x) => {
                        if !format!("{:?}", x).starts_with("Sym") {
                            self.ext_used.insert(m.funcs[f as usize].name.clone());
                        }
                        let r = self.do_ext(st, x, &vals, &m.funcs[f as usize].name)?;
                        self.finish_call(st, dst, r, *dest);
                        Ok(())
                    }
                    FnK::StubFmt => {
                        self.ext_used.insert("alloc::fmt::format (empty string)".into());
                        let p = self.concretize(st, &vals[0], 64) as u64;
                        self.store_at(st, p, &Ty::Int(64), &Val::C(0))?;
                        self.store_at(st, p + 8, &Ty::Int(64), &Val::C(1))?;
                        self.store_at(st, p + 16, &Ty::Int(64), &Val::C(0))?;
                        self.finish_call(st, dst, None, *dest);
                        Ok(())
                    }
                    FnK::StubFmtOk => {
                        self.ext_used.insert("core::fmt::write (writes nothing)".into());
                        self.finish_call(st, dst, Some(Val::C(0)), *dest);
                        Ok(())
                    }
                    FnK::Unsupported => Err(Stop::Err(format!("external function {}", m.funcs[f as usize].name))),
                }
            }
        }
    }

    fn end(&mut self, st: &State, stop: Stop) {
        match stop {
            Stop::End => {
                self.st.paths += 1;
                self.st.max_steps_path = self.st.max_steps_path.max(st.steps);
                self.maybe_sample(st);
            }
            Stop::Assumed => self.st.assumed_out += 1,
            Stop::Viol => {
                self.st.paths += 1;
            }
            Stop::Err(e) => {
                self.st.paths += 1;
                *self.errors.entry(e).or_default() += 1;
            }
        }
    }
    fn maybe_sample(&mut self, st: &State) {
        if self.cfg.max_samples == 0 {
            return;
        }
        // reservoir by path count: powers of two spread plus first few
        let n = self.st.paths;
        let keep = self.samples.len() < self.cfg.max_samples;
        let replace = !keep && n % 7 == 0;
        if !(keep || replace) {
            return;
        }
        let mut input = (*st.model).clone();
        input.resize(st.nvars as usize, 0);
        self.p.new_model();
        let obs = st
            .obs
            .iter()
            .map(|v| match v {
                Val::C(c) => *c as u64,
                Val::S(t) => self.p.eval(*t, &input) as u64,
                _ => 0,
            })
            .collect();
        let s = Sample { input, obs };
        if keep {
            self.samples.push(s);
        } else {
            let i = (n.wrapping_mul(0x9E3779B97F4A7C15) >> 33) as usize % self.samples.len();
            self.samples[i] = s;
        }
    }
    /// Runs one state until it ends; forks go to self.stack.
    pub fn run_state(&mut self, mut st: State) {
        loop {
            let mut n = 0u32;
            let r = loop {
                if let Err(s) = self.step(&mut st) {
                    break Some(s);
                }
                n += 1;
                if n & 0xffff == 0 && Instant::now() > self.cfg.deadline {
                    *self.errors.entry("time limit".into()).or_default() += 1;
                    return;
                }
            };
            if let Some(s) = r {
                if self.cfg.trace {
                    let k = match &s {
                        Stop::End => "end".to_string(),
                        Stop::Assumed => "assumed".to_string(),
                        Stop::Viol => "viol".to_string(),
                        Stop::Err(e) => format!("err {}", e),
                    };
                    eprintln!("path {} steps {} pc {} {} stack {}", st.id, st.steps, st.pc.len(), k, self.stack.len());
                }
                self.end(&st, s);
                return;
            }
        }
    }
    pub fn drain(&mut self) {
        while let Some(s) = self.stack.pop() {
            if Instant::now() > self.cfg.deadline {
                *self.errors.entry("time limit".into()).or_default() += 1;
                return;
            }
            if self.viols.len() >= 60 {
                *self.errors.entry("stopped after many violations".into()).or_default() += 1;
                return;
            }
            self.run_state(s);
            if let (Some(f), true) = (&mut self.live, self.viols.len() > self.viols_sent) {
                use std::io::Write;
                let t: String = self.viols[self.viols_sent..].iter().map(crate::viol_line).collect();
                f.write_all(t.as_bytes()).ok();
                self.viols_sent = self.viols.len();
            }
        }
    }
    pub fn hot_forks(&self, n: usize) -> Vec<(String, u32, u64)> {
        let mut v: Vec<_> = self.fork_sites.iter().map(|((f, b), c)| (*c, *f, *b)).collect();
        v.sort();
        v.reverse();
        v.iter()
            .take(n)
            .map(|(c, f, b)| (self.m.funcs[*f as usize].name.clone(), *b, *c))
            .collect()
    }
}
