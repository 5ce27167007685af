//! Minimal binding to the system libz3 (4.8.12) C API.
use crate::term::*;
use std::os::raw::{c_char, c_int, c_uint, c_void};

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type Solver = *mut c_void;
type Model = *mut c_void;
type Sym = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn alarm(s: c_uint) -> c_uint;
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_mk_context_rc(c: *mut c_void) -> Ctx;
    fn Z3_mk_bv_sort(c: Ctx, n: c_uint) -> Sort;
    fn Z3_inc_ref(c: Ctx, a: Ast);
    fn Z3_mk_int_symbol(c: Ctx, i: c_int) -> Sym;
    fn Z3_mk_const(c: Ctx, s: Sym, t: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, t: Sort) -> Ast;
    fn Z3_mk_bvnot(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_simple_solver(c: Ctx) -> Solver;
    fn Z3_mk_solver_for_logic(c: Ctx, s: Sym) -> Solver;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Sym;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_push(c: Ctx, s: Solver);
    fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_to_string(c: Ctx, s: Solver) -> *const c_char;
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    fn Z3_model_inc_ref(c: Ctx, m: Model);
    fn Z3_model_dec_ref(c: Ctx, m: Model);
    fn Z3_model_get_num_consts(c: Ctx, m: Model) -> c_uint;
    fn Z3_model_get_const_decl(c: Ctx, m: Model, i: c_uint) -> *mut c_void;
    fn Z3_get_decl_name(c: Ctx, d: *mut c_void) -> Sym;
    fn Z3_get_symbol_int(c: Ctx, s: Sym) -> c_int;
    fn Z3_get_symbol_kind(c: Ctx, s: Sym) -> c_int;
    fn Z3_model_get_const_interp(c: Ctx, m: Model, d: *mut c_void) -> Ast;
    fn Z3_get_numeral_uint64(c: Ctx, a: Ast, r: *mut u64) -> bool;
    fn Z3_mk_params(c: Ctx) -> *mut c_void;
    fn Z3_params_inc_ref(c: Ctx, p: *mut c_void);
    fn Z3_params_set_uint(c: Ctx, p: *mut c_void, k: Sym, v: c_uint);
    fn Z3_solver_set_params(c: Ctx, s: Solver, p: *mut c_void);
    fn Z3_set_error_handler(c: Ctx, h: extern "C" fn(Ctx, c_int));
}

extern "C" fn on_error(_c: Ctx, e: c_int) {
    eprintln!("z3 error {}", e);
    std::process::exit(70);
}

/// Terms live as long as the context.
unsafe fn keep(c: Ctx, a: Ast) -> Ast {
    Z3_inc_ref(c, a);
    a
}

const NONE: u32 = u32::MAX;

pub struct Z3 {
    c: Ctx,
    s: Solver,
    bv: Vec<Ast>,   // bit-vector (or Bool for width 1) translation
    sorts: Vec<Sort>,
    asserted: Vec<T>,
    scratch: bool,
    /// Input bytes a term depends on: an index into `sets`, or NONE if not computed yet.
    supp: Vec<u32>,
    sets: Vec<std::rc::Rc<[u32]>>,
    set_ids: FxMap<std::rc::Rc<[u32]>, u32>,
    unions: FxMap<(u32, u32), u32>,
    /// Decided queries: the constraints that matter (sorted, the question last).
    cache: FxMap<Box<[T]>, Option<Box<[(u32, u8)]>>>,
    pub hits: u64,
    pub queries: u64,
    pub n_sat: u64,
    pub n_unsat: u64,
    pub n_unknown: u64,
    pub time: f64,
    /// Seconds after which a query ends the process.
    guard: c_uint,
    pub deadline: Option<std::time::Instant>,
}

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

impl Z3 {
    pub fn new(timeout_ms: u32, qfbv: bool) -> Z3 {
        unsafe {
            let c = Z3_mk_context_rc(Z3_mk_config());
            Z3_set_error_handler(c, on_error);
            let s = if qfbv {
                Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, b"QF_BV\0".as_ptr() as *const c_char))
            } else {
                Z3_mk_simple_solver(c)
            };
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = Z3_mk_string_symbol(c, b"timeout\0".as_ptr() as *const c_char);
            Z3_params_set_uint(c, p, k, timeout_ms);
            Z3_solver_set_params(c, s, p);
            Z3 {
                c,
                s,
                bv: vec![],
                sorts: vec![std::ptr::null_mut(); 129],
                asserted: vec![],
                scratch: false,
                supp: vec![],
                sets: vec![std::rc::Rc::new([])],
                set_ids: [(std::rc::Rc::from([]), 0)].into_iter().collect(),
                unions: FxMap::default(),
                cache: FxMap::default(),
                hits: 0,
                queries: 0,
                n_sat: 0,
                n_unsat: 0,
                n_unknown: 0,
                guard: timeout_ms / 1000 * 2 + 15,
                deadline: None,
                time: 0.0,
            }
        }
    }
    fn sort(&mut self, w: u32) -> Sort {
        if self.sorts[w as usize].is_null() {
            unsafe {
                let s = Z3_mk_bv_sort(self.c, w as c_uint);
                Z3_inc_ref(self.c, s);
                self.sorts[w as usize] = s;
            }
        }
        self.sorts[w as usize]
    }
    /// Width-1 terms are Bool, everything else a bit-vector.
    fn tr(&mut self, p: &Pool, t: T) -> Ast {
        if self.bv.len() < p.nodes.len() {
            self.bv.resize(p.nodes.len(), std::ptr::null_mut());
        }
        let mut stack = vec![t];
        while let Some(&x) = stack.last() {
            let xi = x.0 as usize;
            if !self.bv[xi].is_null() {
                stack.pop();
                continue;
            }
            let n = p.nodes[xi];
            let bv = &self.bv;
            let need = |s: &mut Vec<T>, ys: &[T]| {
                let mut r = false;
                for y in ys {
                    if bv[y.0 as usize].is_null() {
                        s.push(*y);
                        r = true;
                    }
                }
                r
            };
            let pending = match n {
                Node::Var(_) | Node::Const(_) => false,
                Node::Not(a) | Node::Extract(a, _, _) => need(&mut stack, &[a]),
                Node::Bin(_, a, b) | Node::Concat(a, b) => need(&mut stack, &[a, b]),
                Node::Ite(a, b, c) => need(&mut stack, &[a, b, c]),
            };
            if pending {
                continue;
            }
            let a = unsafe { self.build(p, x, n) };
            unsafe { Z3_inc_ref(self.c, a) };
            self.bv[xi] = a;
            stack.pop();
        }
        self.bv[t.0 as usize]
    }
    /// Bool -> 1-bit vector where a vector is needed.
    unsafe fn as_bv(&mut self, p: &Pool, t: T) -> Ast {
        let c = self.c;
        let a = self.bv[t.0 as usize];
        if p.width(t) == 1 {
            let s = self.sort(1);
            let one = keep(c, Z3_mk_unsigned_int64(c, 1, s));
            let zero = keep(c, Z3_mk_unsigned_int64(c, 0, s));
            keep(c, Z3_mk_ite(c, a, one, zero))
        } else {
            a
        }
    }
    unsafe fn build(&mut self, p: &Pool, t: T, n: Node) -> Ast {
        let c = self.c;
        let w = p.width(t);
        match n {
            Node::Var(i) => {
                let s = self.sort(8);
                keep(c, Z3_mk_const(c, Z3_mk_int_symbol(c, i as c_int), s))
            }
            Node::Const(v) => {
                if w == 1 {
                    if v == 1 {
                        keep(c, Z3_mk_true(c))
                    } else {
                        keep(c, Z3_mk_false(c))
                    }
                } else if w <= 64 {
                    let s = self.sort(w);
                    keep(c, Z3_mk_unsigned_int64(c, v as u64, s))
                } else {
                    let sh = self.sort(w - 64);
                    let sl = self.sort(64);
                    let h = keep(c, Z3_mk_unsigned_int64(c, (v >> 64) as u64, sh));
                    let l = keep(c, Z3_mk_unsigned_int64(c, v as u64, sl));
                    keep(c, Z3_mk_concat(c, h, l))
                }
            }
            Node::Not(a) => {
                let x = self.bv[a.0 as usize];
                if w == 1 {
                    keep(c, Z3_mk_not(c, x))
                } else {
                    keep(c, Z3_mk_bvnot(c, x))
                }
            }
            Node::Ite(a, x, y) => keep(c, Z3_mk_ite(
                c,
                self.bv[a.0 as usize],
                self.bv[x.0 as usize],
                self.bv[y.0 as usize],
            )),
            Node::Concat(h, l) => {
                let x = self.as_bv(p, h);
                let y = self.as_bv(p, l);
                keep(c, Z3_mk_concat(c, x, y))
            }
            Node::Extract(a, hi, lo) => {
                let x = keep(c, Z3_mk_extract(c, hi as c_uint, lo as c_uint, self.bv[a.0 as usize]));
                if w == 1 {
                    let s = self.sort(1);
                    keep(c, Z3_mk_eq(c, x, keep(c, Z3_mk_unsigned_int64(c, 1, s))))
                } else {
                    x
                }
            }
            Node::Bin(op, a, b) => {
                let aw = p.width(a);
                if aw == 1 && matches!(op, Op::And | Op::Or | Op::Xor | Op::Eq) {
                    let v = [self.bv[a.0 as usize], self.bv[b.0 as usize]];
                    return match op {
                        Op::And => keep(c, Z3_mk_and(c, 2, v.as_ptr())),
                        Op::Or => keep(c, Z3_mk_or(c, 2, v.as_ptr())),
                        Op::Xor => keep(c, Z3_mk_xor(c, v[0], v[1])),
                        _ => keep(c, Z3_mk_eq(c, v[0], v[1])),
                    };
                }
                let x = self.as_bv(p, a);
                let y = self.as_bv(p, b);
                let r = match op {
                    Op::Add => keep(c, Z3_mk_bvadd(c, x, y)),
                    Op::Sub => keep(c, Z3_mk_bvsub(c, x, y)),
                    Op::Mul => keep(c, Z3_mk_bvmul(c, x, y)),
                    Op::UDiv => keep(c, Z3_mk_bvudiv(c, x, y)),
                    Op::SDiv => keep(c, Z3_mk_bvsdiv(c, x, y)),
                    Op::URem => keep(c, Z3_mk_bvurem(c, x, y)),
                    Op::SRem => keep(c, Z3_mk_bvsrem(c, x, y)),
                    Op::Shl => keep(c, Z3_mk_bvshl(c, x, y)),
                    Op::LShr => keep(c, Z3_mk_bvlshr(c, x, y)),
                    Op::AShr => keep(c, Z3_mk_bvashr(c, x, y)),
                    Op::And => keep(c, Z3_mk_bvand(c, x, y)),
                    Op::Or => keep(c, Z3_mk_bvor(c, x, y)),
                    Op::Xor => keep(c, Z3_mk_bvxor(c, x, y)),
                    Op::Eq => keep(c, Z3_mk_eq(c, x, y)),
                    Op::Ult => keep(c, Z3_mk_bvult(c, x, y)),
                    Op::Ule => keep(c, Z3_mk_bvule(c, x, y)),
                    Op::Slt => keep(c, Z3_mk_bvslt(c, x, y)),
                    Op::Sle => keep(c, Z3_mk_bvsle(c, x, y)),
                };
                if aw == 1 && !matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) {
                    let s = self.sort(1);
                    keep(c, Z3_mk_eq(c, r, keep(c, Z3_mk_unsigned_int64(c, 1, s))))
                } else {
                    r
                }
            }
        }
    }
    fn drop_scratch(&mut self) {
        if self.scratch {
            unsafe { Z3_solver_pop(self.c, self.s, 1) };
            self.scratch = false;
        }
    }
    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let key = (a.min(b), a.max(b));
        if let Some(r) = self.unions.get(&key) {
            return *r;
        }
        let (x, y) = (&self.sets[a as usize], &self.sets[b as usize]);
        let mut v = Vec::with_capacity(x.len() + y.len());
        let (mut i, mut j) = (0, 0);
        while i < x.len() || j < y.len() {
            if j == y.len() || (i < x.len() && x[i] < y[j]) {
                v.push(x[i]);
                i += 1;
            } else {
                if i < x.len() && x[i] == y[j] {
                    i += 1;
                }
                v.push(y[j]);
                j += 1;
            }
        }
        let r = self.intern(v);
        self.unions.insert(key, r);
        r
    }
    fn intern(&mut self, v: Vec<u32>) -> u32 {
        if let Some(r) = self.set_ids.get(v.as_slice()) {
            return *r;
        }
        let v: std::rc::Rc<[u32]> = v.into();
        self.sets.push(v.clone());
        let r = self.sets.len() as u32 - 1;
        self.set_ids.insert(v, r);
        r
    }
    fn support(&mut self, p: &Pool, t: T) -> u32 {
        if self.supp.len() < p.nodes.len() {
            self.supp.resize(p.nodes.len(), NONE);
        }
        let mut stack = vec![t];
        while let Some(&x) = stack.last() {
            let xi = x.0 as usize;
            if self.supp[xi] != NONE {
                stack.pop();
                continue;
            }
            let (ops, n): ([T; 3], usize) = match p.nodes[xi] {
                Node::Const(_) => ([x; 3], 0),
                Node::Var(i) => {
                    self.supp[xi] = self.intern(vec![i]);
                    stack.pop();
                    continue;
                }
                Node::Not(a) | Node::Extract(a, _, _) => ([a, x, x], 1),
                Node::Bin(_, a, b) | Node::Concat(a, b) => ([a, b, x], 2),
                Node::Ite(a, b, c) => ([a, b, c], 3),
            };
            let before = stack.len();
            for y in &ops[..n] {
                if self.supp[y.0 as usize] == NONE {
                    stack.push(*y);
                }
            }
            if stack.len() > before {
                continue;
            }
            let mut r = 0;
            for y in &ops[..n] {
                r = self.union(r, self.supp[y.0 as usize]);
            }
            self.supp[xi] = r;
            stack.pop();
        }
        self.supp[t.0 as usize]
    }
    /// The constraints of `pc` that `extra` depends on, directly or through others. The rest shares no input byte with
    /// them, so (as `pc` itself is satisfiable) it does not matter.
    fn slice(&mut self, p: &Pool, pc: &[T], extra: T) -> (Vec<T>, Vec<u64>) {
        let mut vars: Vec<u64> = vec![];
        fn add(vars: &mut Vec<u64>, s: &[u32]) {
            if let Some(m) = s.last() {
                let n = *m as usize / 64 + 1;
                if vars.len() < n {
                    vars.resize(n, 0);
                }
            }
            for v in s {
                vars[*v as usize / 64] |= 1 << (v % 64);
            }
        }
        let e = self.support(p, extra);
        add(&mut vars, &self.sets[e as usize]);
        let sup: Vec<u32> = pc.iter().map(|t| self.support(p, *t)).collect();
        let mut sel = vec![false; pc.len()];
        loop {
            let mut more = false;
            for i in 0..pc.len() {
                if sel[i] {
                    continue;
                }
                let s = &self.sets[sup[i] as usize];
                if s.iter().any(|v| vars.get(*v as usize / 64).map_or(false, |w| w >> (v % 64) & 1 == 1)) {
                    sel[i] = true;
                    more = true;
                    add(&mut vars, s);
                }
            }
            if !more {
                break;
            }
        }
        (pc.iter().zip(&sel).filter(|x| *x.1).map(|x| *x.0).collect(), vars)
    }
    /// Is pc /\ extra satisfiable?  `model` satisfies pc; on Sat, it is updated in place. The constraints that were
    /// decided come back too.
    pub fn check(&mut self, p: &Pool, pc: &[T], extra: T, model: &mut Vec<u8>) -> (Res, Vec<T>) {
        let (pc, vars) = self.slice(p, pc, extra);
        let mut key = pc.clone();
        key.sort_unstable();
        key.push(extra);
        if let Some(r) = self.cache.get(key.as_slice()) {
            self.hits += 1;
            return match r {
                None => (Res::Unsat, pc),
                Some(m) => {
                    for (i, v) in m.iter() {
                        if model.len() <= *i as usize {
                            model.resize(*i as usize + 1, 0);
                        }
                        model[*i as usize] = *v;
                    }
                    (Res::Sat, pc)
                }
            };
        }
        let r = self.solve(p, &pc, extra, &vars, model);
        if r != Res::Unknown {
            if self.cache.len() >= 1 << 18 {
                self.cache.clear();
            }
            let v = (r == Res::Sat).then(|| {
                (0..vars.len() as u32 * 64)
                    .filter(|i| vars[*i as usize / 64] >> (i % 64) & 1 == 1)
                    .map(|i| (i, model.get(i as usize).copied().unwrap_or(0)))
                    .collect()
            });
            self.cache.insert(key.into(), v);
        }
        (r, pc)
    }
    fn solve(&mut self, p: &Pool, pc: &[T], extra: T, vars: &[u64], model: &mut Vec<u8>) -> Res {
        let t0 = std::time::Instant::now();
        self.drop_scratch();
        let mut k = 0;
        while k < self.asserted.len() && k < pc.len() && self.asserted[k] == pc[k] {
            k += 1;
        }
        if k < self.asserted.len() {
            unsafe { Z3_solver_pop(self.c, self.s, (self.asserted.len() - k) as c_uint) };
            self.asserted.truncate(k);
        }
        for t in &pc[k..] {
            let a = self.tr(p, *t);
            unsafe {
                Z3_solver_push(self.c, self.s);
                Z3_solver_assert(self.c, self.s, a);
            }
            self.asserted.push(*t);
        }
        let a = self.tr(p, extra);
        unsafe {
            Z3_solver_push(self.c, self.s);
            Z3_solver_assert(self.c, self.s, a);
        }
        self.scratch = true;
        self.queries += 1;
        // z3's own timeout is not always honoured: a stuck process ends itself
        let left = self.deadline.map(|d| d.saturating_duration_since(t0).as_secs() as c_uint).unwrap_or(c_uint::MAX - 30);
        unsafe { alarm(self.guard.min(left + 30)) };
        let r = unsafe { Z3_solver_check(self.c, self.s) };
        unsafe { alarm(0) };
        let res = match r {
            1 => {
                self.n_sat += 1;
                self.get_model(vars, model);
                Res::Sat
            }
            -1 => {
                self.n_unsat += 1;
                Res::Unsat
            }
            _ => {
                self.n_unknown += 1;
                Res::Unknown
            }
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > slow_limit() {
            if let Ok(dir) = std::env::var("SYMX_SLOW") {
                let s = unsafe { std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, self.s)) };
                let f = format!("{}/slow-{}-{}.smt2", dir, std::process::id(), self.queries);
                let _ = std::fs::write(f, format!("; {:.1}s {:?}\n{}", dt, r, s.to_string_lossy()));
            }
        }
        res
    }
    fn get_model(&mut self, vars: &[u64], model: &mut Vec<u8>) {
        unsafe {
            let m = Z3_solver_get_model(self.c, self.s);
            Z3_model_inc_ref(self.c, m);
            let n = Z3_model_get_num_consts(self.c, m);
            for i in 0..n {
                let d = Z3_model_get_const_decl(self.c, m, i);
                let s = Z3_get_decl_name(self.c, d);
                if Z3_get_symbol_kind(self.c, s) != 0 {
                    continue;
                }
                let idx = Z3_get_symbol_int(self.c, s) as usize;
                let v = Z3_model_get_const_interp(self.c, m, d);
                if v.is_null() {
                    continue;
                }
                let mut r = 0u64;
                if Z3_get_numeral_uint64(self.c, v, &mut r) {
                    if idx < model.len() && vars.get(idx / 64).map_or(false, |w| w >> (idx % 64) & 1 == 1) {
                        model[idx] = r as u8;
                    }
                }
            }
            Z3_model_dec_ref(self.c, m);
        }
    }
}

fn slow_limit() -> f64 {
    std::env::var("SYMX_SLOW_S").ok().and_then(|s| s.parse().ok()).unwrap_or(5.0)
}
