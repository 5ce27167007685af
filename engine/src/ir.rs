//! Parser for the textual LLVM IR that rustc emits after fat LTO.
//! Everything the interpreter does not need (metadata, attributes, flags) is skipped.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Vec(u32, Rc<Ty>),
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) => *n,
            Ty::Ptr => 64,
            Ty::F32 => 32,
            Ty::F64 => 64,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64)
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => {
                let b = ((*n as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(n) => ((*n as u64) + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(n) => {
                let b = ((*n as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(n, t) => {
                let bits = *n as u64 * t.bits() as u64;
                (bits + 7) / 8
            }
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !*packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            _ => 0,
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field_offset")
            }
            Ty::Arr(_, t) => i as u64 * t.size(),
            Ty::Vec(_, t) => i as u64 * t.size(),
            _ => panic!("field_offset of {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => panic!("count of {:?}", self),
        }
    }
}

/// A constant before global addresses are assigned.
#[derive(Clone, Debug)]
pub enum Const {
    Int(u128),
    Undef,
    Zero,
    Agg(Vec<(Ty, Const)>),
    Bytes(Vec<u8>),
    Global(String),
    Gep(Box<Const>, Ty, Vec<(Ty, Const)>),
    Cast(Box<Const>, Ty, Ty, String),
    Bin(String, Ty, Box<Const>, Box<Const>),
    Splat(Ty, Box<Const>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),
    Indirect(Opd),
    Intrinsic(u32),
    /// template, constraints
    Asm(String, String),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(BinOp, Ty, Opd, Opd),
    Icmp(Pred, Ty, Opd, Opd),
    Fcmp(String, Ty, Opd, Opd),
    FNeg(Ty, Opd),
    Cast(CastOp, Ty, Opd, Ty),
    Select(Ty, Ty, Opd, Opd, Opd), // cond ty, val ty
    Alloca(u64, u64, Option<(Ty, Opd)>),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(Opd, u64, Vec<(Opd, u32, u64)>), // base, const offset, (idx, idx bits, scale)
    Call(Callee, Vec<(Ty, Opd)>, Ty, Option<u32>), // invoke normal dest
    Extract(Opd, Vec<u32>),
    Insert(Ty, Opd, Opd, Vec<u32>),
    ExtractElem(Opd, Opd, Ty),
    InsertElem(Ty, Opd, Opd, Opd),
    Shuffle(Ty, Opd, Opd, Vec<i32>),
    Freeze(Opd),
    AtomicRmw(String, Ty, Opd, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    Fence,
    LandingPad,
    Ret(Option<(Ty, Opd)>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Ty, Opd, u32, Vec<(u128, u32)>),
    Unreachable,
    Bad(String),
    Resume,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    BitCast,
    PtrToInt,
    IntToPtr,
    FpTrunc,
    FpExt,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
}

#[derive(Debug, Clone)]
pub struct Phi {
    pub dst: u32,
    pub inc: Vec<(u32, Opd)>,
}

#[derive(Debug, Clone)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<(u32, Inst)>, // dst (NODST if none)
    pub dbg: Vec<u32>,           // debug locations of the block
}

/// The part of the debug metadata that maps instructions to source functions.
#[derive(Default)]
pub struct Dbg {
    loc: HashMap<u32, (u32, u32, u32)>, // line, scope, inlinedAt
    sub: HashMap<u32, (String, u32)>,   // function name, file
    lex: HashMap<u32, (u32, u32)>,      // parent scope, file
    file: HashMap<u32, String>,
}

fn meta_field<'a>(l: &'a str, k: &str) -> Option<&'a str> {
    let i = l.find(k)? + k.len();
    let r = &l[i..];
    if let Some(q) = r.strip_prefix('"') {
        return q.find('"').map(|e| &q[..e]);
    }
    let e = r.find(|c| c == ',' || c == ')').unwrap_or(r.len());
    Some(&r[..e])
}

impl Dbg {
    fn add(&mut self, l: &str) {
        let (id, rest) = match l[1..].split_once(" = ") {
            Some((a, b)) => match a.parse::<u32>() {
                Ok(n) => (n, b),
                Err(_) => return,
            },
            None => return,
        };
        let rest = rest.strip_prefix("distinct ").unwrap_or(rest);
        let num = |k: &str| {
            meta_field(rest, k)
                .and_then(|s| s.trim_start_matches('!').parse::<u32>().ok())
                .unwrap_or(0)
        };
        if rest.starts_with("!DILocation(") {
            self.loc.insert(id, (num("line: "), num("scope: "), num("inlinedAt: ")));
        } else if rest.starts_with("!DISubprogram(") {
            let n = meta_field(rest, "name: ").unwrap_or("?").to_string();
            self.sub.insert(id, (n, num("file: ")));
        } else if rest.starts_with("!DILexicalBlock") {
            self.lex.insert(id, (num("scope: "), num("file: ")));
        } else if rest.starts_with("!DIFile(") {
            let f = meta_field(rest, "filename: ").unwrap_or("");
            let d = meta_field(rest, "directory: ").unwrap_or("");
            let p = if f.starts_with('/') {
                f.to_string()
            } else {
                format!("{}/{}", d, f)
            };
            self.file.insert(id, p);
        }
    }
    /// Source functions (file, name, line) the given locations belong to, inlining included.
    pub fn resolve(&self, locs: &std::collections::BTreeSet<u32>) -> Vec<(String, String, u32)> {
        let mut out = std::collections::BTreeSet::new();
        for l in locs {
            let mut cur = *l;
            while let Some((line, scope, at)) = self.loc.get(&cur) {
                let mut s = *scope;
                let mut file = None;
                while let Some((p, f)) = self.lex.get(&s) {
                    if file.is_none() {
                        file = Some(*f);
                    }
                    s = *p;
                }
                if let Some((n, f)) = self.sub.get(&s) {
                    let fl = self.file.get(&file.unwrap_or(*f)).cloned().unwrap_or_default();
                    if fl.contains("/repo/") {
                        out.insert((fl, n.clone(), *line));
                    }
                }
                if *at == 0 {
                    break;
                }
                cur = *at;
            }
        }
        out.into_iter().collect()
    }
}

pub const NODST: u32 = u32::MAX;

#[derive(Debug, Clone)]
pub struct Func {
    pub name: String,
    pub ret: Ty,
    pub params: Vec<(Ty, u32)>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub defined: bool,
    pub src_lines: (usize, usize),
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Const>,
    pub align: u64,
    pub constant: bool,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, u32>,
    pub consts: Vec<(Ty, Const)>,
    pub intrinsics: Vec<String>,
    pub types: HashMap<String, Ty>,
    pub aliases: Vec<(String, Const)>,
    pub dbg: Dbg,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),     // bare word
    Local(String),  // %x
    Glob(String),   // @x
    Num(String),    // integer or float literal
    Str(Vec<u8>),   // c"..." or "..."
    P(char),        // punctuation
    Meta(String),   // !x
    Attr(String),   // #n
    Ellipsis,
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 1 < s.len() && s[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else if s[i] == b'\\' && i + 2 < s.len() {
            let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
            o.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}

fn is_idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                let (name, j) = if i + 1 < b.len() && b[i + 1] == b'"' {
                    let mut j = i + 2;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    (
                        String::from_utf8_lossy(&unescape(&b[i + 2..j])).to_string(),
                        j + 1,
                    )
                } else {
                    let mut j = i + 1;
                    while j < b.len() && is_idc(b[j]) {
                        j += 1;
                    }
                    (s[i + 1..j].to_string(), j)
                };
                out.push(if c == b'%' {
                    Tok::Local(name)
                } else {
                    Tok::Glob(name)
                });
                i = j;
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && (is_idc(b[j])) {
                    j += 1;
                }
                out.push(Tok::Meta(s[i + 1..j].to_string()));
                i = j;
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && b[j].is_ascii_digit() {
                    j += 1;
                }
                out.push(Tok::Attr(s[i + 1..j].to_string()));
                i = j;
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::Str(unescape(&b[i + 1..j])));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let mut j = i + 2;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::Str(unescape(&b[i + 2..j])));
                i = j + 1;
            }
            b'.' if s[i..].starts_with("...") => {
                out.push(Tok::Ellipsis);
                i += 3;
            }
            b'-' | b'0'..=b'9' | b'+' => {
                let mut j = i + 1;
                while j < b.len()
                    && (b[j].is_ascii_alphanumeric()
                        || b[j] == b'.'
                        || ((b[j] == b'+' || b[j] == b'-') && (b[j - 1] == b'e')))
                {
                    j += 1;
                }
                out.push(Tok::Num(s[i..j].to_string()));
                i = j;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                let mut j = i + 1;
                while j < b.len() && is_idc(b[j]) {
                    j += 1;
                }
                out.push(Tok::Id(s[i..j].to_string()));
                i = j;
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out
}

struct P<'a> {
    t: &'a [Tok],
    i: usize,
    types: &'a HashMap<String, Ty>,
}

impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> Tok {
        let x = self.t.get(self.i).cloned();
        self.i += 1;
        x.unwrap_or_else(|| panic!("unexpected end of line: {:?}", self.t))
    }
    fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(self.peek(), Some(Tok::Id(x)) if x == s)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn want(&mut self, c: char) {
        if !self.eat_p(c) {
            panic!("expected {:?} at {} in {:?}", c, self.i, self.t);
        }
    }
    fn num(&mut self) -> u64 {
        match self.next() {
            Tok::Num(s) => s.parse().unwrap_or_else(|_| panic!("num {}", s)),
            t => panic!("expected number, got {:?} in {:?}", t, self.t),
        }
    }
    fn skip_parens(&mut self) {
        self.want('(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                _ => {}
            }
        }
    }
    fn ty(&mut self) -> Ty {
        match self.next() {
            Tok::Id(s) => match s.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.eat_id("addrspace") {
                        self.skip_parens();
                    }
                    Ty::Ptr
                }
                "float" => Ty::F32,
                "double" => Ty::F64,
                "label" | "metadata" | "token" | "half" | "bfloat" | "fp128" | "x86_fp80"
                | "opaque" | "target" => Ty::Other,
                _ if s.starts_with('i') && s[1..].parse::<u32>().is_ok() => {
                    Ty::Int(s[1..].parse().unwrap())
                }
                _ => panic!("type {} in {:?}", s, self.t),
            },
            Tok::Local(n) => self
                .types
                .get(&n)
                .cloned()
                .unwrap_or_else(|| panic!("named type {}", n)),
            Tok::P('[') => {
                let n = self.num();
                assert!(self.eat_id("x"));
                let t = self.ty();
                self.want(']');
                Ty::Arr(n, Rc::new(t))
            }
            Tok::P('<') => {
                if self.eat_p('{') {
                    let f = self.ty_list('}');
                    self.want('>');
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = self.num();
                    assert!(self.eat_id("x"));
                    let t = self.ty();
                    self.want('>');
                    Ty::Vec(n as u32, Rc::new(t))
                }
            }
            Tok::P('{') => Ty::Struct(Rc::new(self.ty_list('}')), false),
            t => panic!("type at {:?} in {:?}", t, self.t),
        }
    }
    fn ty_list(&mut self, close: char) -> Vec<Ty> {
        let mut v = Vec::new();
        if self.eat_p(close) {
            return v;
        }
        loop {
            v.push(self.ty());
            if self.eat_p(close) {
                return v;
            }
            self.want(',');
        }
    }
    fn is_const_kw(s: &str) -> bool {
        matches!(
            s,
            "true" | "false"
                | "null"
                | "undef"
                | "poison"
                | "zeroinitializer"
                | "none"
                | "splat"
                | "getelementptr"
                | "inttoptr"
                | "ptrtoint"
                | "ptrtoaddr"
                | "bitcast"
                | "trunc"
                | "add"
                | "sub"
                | "xor"
                | "mul"
                | "and"
                | "or"
                | "shl"
                | "lshr"
                | "asm"
                | "dso_local_equivalent"
                | "no_cfi"
                | "blockaddress"
        )
    }
    /// Skips parameter / return / call-site attributes.
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::Id(s)) if !Self::is_const_kw(s) => {
                    let s = s.clone();
                    // a type keyword ends the attribute list
                    if s == "ptr"
                        || s == "void"
                        || s == "float"
                        || s == "double"
                        || s == "metadata"
                        || s == "label"
                        || (s.starts_with('i') && s[1..].parse::<u32>().is_ok())
                    {
                        return;
                    }
                    self.i += 1;
                    if s == "align" {
                        if self.is_p('(') {
                            self.skip_parens();
                        } else {
                            self.i += 1;
                        }
                    } else if self.is_p('(') {
                        self.skip_parens();
                    }
                }
                Some(Tok::Attr(_)) => self.i += 1,
                _ => return,
            }
        }
    }
    fn skip_flags(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::Id(s))
                    if matches!(
                        s.as_str(),
                        "nuw" | "nsw"
                            | "exact"
                            | "disjoint"
                            | "samesign"
                            | "nneg"
                            | "inbounds"
                            | "nusw"
                            | "fast"
                            | "nnan"
                            | "ninf"
                            | "nsz"
                            | "arcp"
                            | "contract"
                            | "afn"
                            | "reassoc"
                            | "volatile"
                            | "atomic"
                            | "weak"
                    ) =>
                {
                    self.i += 1
                }
                Some(Tok::Id(s)) if s == "inrange" => {
                    self.i += 1;
                    self.skip_parens();
                }
                _ => return,
            }
        }
    }
    fn typed_const(&mut self) -> (Ty, Const) {
        let t = self.ty();
        self.skip_attrs();
        let c = self.constant(&t);
        (t, c)
    }
    fn constant(&mut self, ty: &Ty) -> Const {
        match self.next() {
            Tok::Num(s) => parse_num(&s, ty),
            Tok::Str(b) => Const::Bytes(b),
            Tok::Glob(n) => Const::Global(n),
            Tok::Id(s) => match s.as_str() {
                "true" => Const::Int(1),
                "false" => Const::Int(0),
                "null" | "none" => Const::Int(0),
                "undef" | "poison" => Const::Undef,
                "zeroinitializer" => Const::Zero,
                "dso_local_equivalent" | "no_cfi" => self.constant(ty),
                "splat" => {
                    self.want('(');
                    let (t, c) = self.typed_const();
                    self.want(')');
                    Const::Splat(t, Box::new(c))
                }
                "getelementptr" => {
                    self.skip_flags();
                    self.want('(');
                    let t = self.ty();
                    self.want(',');
                    let (_, base) = self.typed_const();
                    let mut idx = Vec::new();
                    while self.eat_p(',') {
                        self.skip_flags();
                        idx.push(self.typed_const());
                    }
                    self.want(')');
                    Const::Gep(Box::new(base), t, idx)
                }
                "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" => {
                    self.want('(');
                    let (t, c) = self.typed_const();
                    assert!(self.eat_id("to"));
                    let t2 = self.ty();
                    self.want(')');
                    Const::Cast(Box::new(c), t, t2, s)
                }
                "add" | "sub" | "xor" | "mul" | "and" | "or" | "shl" | "lshr" => {
                    self.skip_flags();
                    self.want('(');
                    let (t, a) = self.typed_const();
                    self.want(',');
                    let (_, b) = self.typed_const();
                    self.want(')');
                    Const::Bin(s, t, Box::new(a), Box::new(b))
                }
                // floating-point constant given by its bits
                _ if s.starts_with("f0x") && s.len() <= 3 + 16 => {
                    Const::Int(u128::from_str_radix(&s[3..], 16).unwrap_or_else(|_| panic!("const {}", s)))
                }
                _ => panic!("const {} in {:?}", s, self.t),
            },
            Tok::P('[') => self.agg(']'),
            Tok::P('{') => self.agg('}'),
            Tok::P('<') => {
                if self.eat_p('{') {
                    let a = self.agg('}');
                    self.want('>');
                    a
                } else {
                    self.agg('>')
                }
            }
            t => panic!("const at {:?} in {:?}", t, self.t),
        }
    }
    fn agg(&mut self, close: char) -> Const {
        let mut v = Vec::new();
        if self.eat_p(close) {
            return Const::Agg(v);
        }
        loop {
            v.push(self.typed_const());
            if self.eat_p(close) {
                return Const::Agg(v);
            }
            self.want(',');
        }
    }
}

fn parse_num(s: &str, ty: &Ty) -> Const {
    match ty {
        Ty::F32 | Ty::F64 => {
            let bits = if let Some(h) = s.strip_prefix("0x") {
                u64::from_str_radix(h, 16).unwrap()
            } else {
                s.parse::<f64>().unwrap().to_bits()
            };
            if *ty == Ty::F32 {
                Const::Int((f64::from_bits(bits) as f32).to_bits() as u128)
            } else {
                Const::Int(bits as u128)
            }
        }
        Ty::Int(w) => {
            let v = if let Some(n) = s.strip_prefix('-') {
                (n.parse::<u128>().unwrap()).wrapping_neg()
            } else {
                s.parse::<u128>()
                    .unwrap_or_else(|_| panic!("int {}", s))
            };
            let m = if *w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
            Const::Int(v & m)
        }
        _ => panic!("number {} of type {:?}", s, ty),
    }
}

struct FnCtx {
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}

impl FnCtx {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn label(&mut self, n: &str) -> u32 {
        if let Some(r) = self.labels.get(n) {
            return *r;
        }
        let r = self.labels.len() as u32;
        self.labels.insert(n.to_string(), r);
        r
    }
}

struct Builder<'a> {
    m: &'a mut Module,
    cx: FnCtx,
    kcache: HashMap<String, u32>,
}

impl Module {
    pub fn konst(&mut self, t: Ty, c: Const) -> u32 {
        self.consts.push((t, c));
        self.consts.len() as u32 - 1
    }
    fn func_id(&mut self, n: &str) -> u32 {
        if let Some(i) = self.fidx.get(n) {
            return *i;
        }
        let i = self.funcs.len() as u32;
        self.funcs.push(Func {
            name: n.to_string(),
            ret: Ty::Void,
            params: vec![],
            nregs: 0,
            blocks: vec![],
            defined: false,
            src_lines: (0, 0),
        });
        self.fidx.insert(n.to_string(), i);
        i
    }
    fn intrinsic_id(&mut self, n: &str) -> u32 {
        if let Some(i) = self.intrinsics.iter().position(|x| x == n) {
            return i as u32;
        }
        self.intrinsics.push(n.to_string());
        self.intrinsics.len() as u32 - 1
    }
}

impl<'a> Builder<'a> {
    fn opd(&mut self, p: &mut P, ty: &Ty) -> Opd {
        match p.peek() {
            Some(Tok::Local(n)) => {
                let n = n.clone();
                p.i += 1;
                Opd::R(self.cx.reg(&n))
            }
            Some(Tok::Meta(_)) => {
                p.i += 1;
                Opd::K(self.m.konst(Ty::Int(1), Const::Int(0)))
            }
            Some(Tok::Num(s)) => {
                let key = format!("{:?} {}", ty, s);
                if let Some(k) = self.kcache.get(&key) {
                    p.i += 1;
                    return Opd::K(*k);
                }
                let c = p.constant(ty);
                let k = self.m.konst(ty.clone(), c);
                self.kcache.insert(key, k);
                Opd::K(k)
            }
            _ => {
                let c = p.constant(ty);
                Opd::K(self.m.konst(ty.clone(), c))
            }
        }
    }
    fn typed_opd(&mut self, p: &mut P) -> (Ty, Opd) {
        let t = p.ty();
        p.skip_attrs();
        let o = self.opd(p, &t);
        (t, o)
    }
    fn label(&mut self, p: &mut P) -> u32 {
        assert!(p.eat_id("label"), "label in {:?}", p.t);
        match p.next() {
            Tok::Local(n) => self.cx.label(&n),
            t => panic!("label {:?}", t),
        }
    }

    fn call(&mut self, p: &mut P, invoke: bool) -> Inst {
        // fast-math flags, calling convention, return attributes
        loop {
            match p.peek() {
                Some(Tok::Id(s)) => {
                    let s = s.clone();
                    if s.ends_with("cc") && !s.starts_with('i') {
                        p.i += 1;
                        continue;
                    }
                    if s == "cc" {
                        p.i += 2;
                        continue;
                    }
                    let before = p.i;
                    p.skip_attrs();
                    if p.i == before {
                        break;
                    }
                }
                _ => break,
            }
        }
        let ret = p.ty();
        if p.is_p('(') {
            p.skip_parens(); // function type of a vararg call
        }
        let callee = match p.next() {
            Tok::Glob(n) => {
                if n.starts_with("llvm.") {
                    Callee::Intrinsic(self.m.intrinsic_id(&n))
                } else {
                    Callee::Direct(self.m.func_id(&n))
                }
            }
            Tok::Local(n) => Callee::Indirect(Opd::R(self.cx.reg(&n))),
            Tok::Id(s) if s == "asm" => {
                let mut tx = Vec::new();
                while !p.is_p('(') {
                    if let Tok::Str(b) = p.next() {
                        tx.push(String::from_utf8_lossy(&b).trim_end_matches('\0').to_string());
                    }
                }
                tx.resize(2, String::new());
                Callee::Asm(tx[0].clone(), tx[1].clone())
            }
            t => panic!("callee {:?} in {:?}", t, p.t),
        };
        p.want('(');
        let mut args = Vec::new();
        if !p.eat_p(')') {
            loop {
                let t = p.ty();
                if t == Ty::Other {
                    // metadata argument
                    p.i += 1;
                    while !p.is_p(',') && !p.is_p(')') {
                        if p.is_p('(') {
                            p.skip_parens()
                        } else {
                            p.i += 1
                        }
                    }
                } else {
                    p.skip_attrs();
                    let o = self.opd(p, &t);
                    args.push((t, o));
                }
                if p.eat_p(')') {
                    break;
                }
                p.want(',');
            }
        }
        let mut dest = None;
        if invoke {
            while !p.is_id("to") {
                p.i += 1;
            }
            p.i += 1;
            dest = Some(self.label(p));
        }
        Inst::Call(callee, args, ret, dest)
    }

    fn inst(&mut self, p: &mut P) -> Inst {
        let op = match p.next() {
            Tok::Id(s) => s,
            t => panic!("inst {:?} in {:?}", t, p.t),
        };
        let bin = match op.as_str() {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem),
            "srem" => Some(BinOp::SRem),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            "fadd" => Some(BinOp::FAdd),
            "fsub" => Some(BinOp::FSub),
            "fmul" => Some(BinOp::FMul),
            "fdiv" => Some(BinOp::FDiv),
            "frem" => Some(BinOp::FRem),
            _ => None,
        };
        if let Some(b) = bin {
            p.skip_flags();
            let t = p.ty();
            let a = self.opd(p, &t);
            p.want(',');
            let c = self.opd(p, &t);
            return Inst::Bin(b, t, a, c);
        }
        let cast = match op.as_str() {
            "trunc" => Some(CastOp::Trunc),
            "zext" => Some(CastOp::ZExt),
            "sext" => Some(CastOp::SExt),
            "bitcast" | "addrspacecast" => Some(CastOp::BitCast),
            "ptrtoint" | "ptrtoaddr" => Some(CastOp::PtrToInt),
            "inttoptr" => Some(CastOp::IntToPtr),
            "fptrunc" => Some(CastOp::FpTrunc),
            "fpext" => Some(CastOp::FpExt),
            "uitofp" => Some(CastOp::UiToFp),
            "sitofp" => Some(CastOp::SiToFp),
            "fptoui" => Some(CastOp::FpToUi),
            "fptosi" => Some(CastOp::FpToSi),
            _ => None,
        };
        if let Some(c) = cast {
            p.skip_flags();
            let t = p.ty();
            let a = self.opd(p, &t);
            assert!(p.eat_id("to"));
            let t2 = p.ty();
            return Inst::Cast(c, t, a, t2);
        }
        match op.as_str() {
            "fneg" => {
                p.skip_flags();
                let (t, o) = self.typed_opd(p);
                Inst::FNeg(t, o)
            }
            "icmp" => {
                p.skip_flags();
                let pr = match p.next() {
                    Tok::Id(s) => match s.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        _ => panic!("pred {}", s),
                    },
                    t => panic!("{:?}", t),
                };
                let t = p.ty();
                let a = self.opd(p, &t);
                p.want(',');
                let b = self.opd(p, &t);
                Inst::Icmp(pr, t, a, b)
            }
            "fcmp" => {
                p.skip_flags();
                let pr = match p.next() {
                    Tok::Id(s) => s,
                    t => panic!("{:?}", t),
                };
                let t = p.ty();
                let a = self.opd(p, &t);
                p.want(',');
                let b = self.opd(p, &t);
                Inst::Fcmp(pr, t, a, b)
            }
            "select" => {
                p.skip_flags();
                let (ct, c) = self.typed_opd(p);
                p.want(',');
                let (t, a) = self.typed_opd(p);
                p.want(',');
                let (_, b) = self.typed_opd(p);
                Inst::Select(ct, t, c, a, b)
            }
            "alloca" => {
                p.eat_id("inalloca");
                let t = p.ty();
                let mut n = None;
                let mut al = t.align();
                while p.eat_p(',') {
                    if p.eat_id("align") {
                        al = p.num();
                    } else if matches!(p.peek(), Some(Tok::Meta(_))) {
                        break;
                    } else {
                        n = Some(self.typed_opd(p));
                    }
                }
                Inst::Alloca(t.size(), al, n)
            }
            "load" => {
                p.skip_flags();
                let t = p.ty();
                p.want(',');
                let (_, o) = self.typed_opd(p);
                Inst::Load(t, o)
            }
            "store" => {
                p.skip_flags();
                let (t, v) = self.typed_opd(p);
                p.want(',');
                let (_, a) = self.typed_opd(p);
                Inst::Store(t, v, a)
            }
            "getelementptr" => {
                p.skip_flags();
                let t = p.ty();
                p.want(',');
                let (bt, base) = self.typed_opd(p);
                assert!(bt == Ty::Ptr, "vector gep");
                let mut off: u64 = 0;
                let mut var = Vec::new();
                let mut cur = Ty::Arr(0, Rc::new(t));
                while p.eat_p(',') {
                    if matches!(p.peek(), Some(Tok::Meta(_))) {
                        break;
                    }
                    let (it, io) = self.typed_opd(p);
                    let kval = match &io {
                        Opd::K(k) => match &self.m.consts[*k as usize].1 {
                            Const::Int(v) => Some(sext(*v, it.bits())),
                            Const::Zero | Const::Undef => Some(0),
                            _ => None,
                        },
                        _ => None,
                    };
                    match &cur {
                        Ty::Struct(..) => {
                            let i = kval.unwrap() as usize;
                            off = off.wrapping_add(cur.field_offset(i));
                            cur = cur.elem(i);
                        }
                        _ => {
                            let el = cur.elem(0);
                            let sc = el.size();
                            match kval {
                                Some(v) => {
                                    off = off.wrapping_add((v as i64 as u64).wrapping_mul(sc))
                                }
                                None => var.push((io, it.bits(), sc)),
                            }
                            cur = el;
                        }
                    }
                }
                Inst::Gep(base, off, var)
            }
            "call" => self.call(p, false),
            "tail" | "musttail" | "notail" => {
                assert!(p.eat_id("call"));
                self.call(p, false)
            }
            "invoke" => self.call(p, true),
            "extractvalue" => {
                let (_, o) = self.typed_opd(p);
                let mut idx = Vec::new();
                while p.eat_p(',') {
                    if matches!(p.peek(), Some(Tok::Meta(_))) {
                        break;
                    }
                    idx.push(p.num() as u32);
                }
                Inst::Extract(o, idx)
            }
            "insertvalue" => {
                let (t, o) = self.typed_opd(p);
                p.want(',');
                let (_, v) = self.typed_opd(p);
                let mut idx = Vec::new();
                while p.eat_p(',') {
                    if matches!(p.peek(), Some(Tok::Meta(_))) {
                        break;
                    }
                    idx.push(p.num() as u32);
                }
                Inst::Insert(t, o, v, idx)
            }
            "extractelement" => {
                let (t, v) = self.typed_opd(p);
                p.want(',');
                let (_, i) = self.typed_opd(p);
                Inst::ExtractElem(v, i, t)
            }
            "insertelement" => {
                let (t, v) = self.typed_opd(p);
                p.want(',');
                let (_, e) = self.typed_opd(p);
                p.want(',');
                let (_, i) = self.typed_opd(p);
                Inst::InsertElem(t, v, e, i)
            }
            "shufflevector" => {
                let (t, a) = self.typed_opd(p);
                p.want(',');
                let (_, b) = self.typed_opd(p);
                p.want(',');
                let (mt, mc) = p.typed_const();
                let n = mt.count();
                let mask = match mc {
                    Const::Zero => vec![0; n],
                    Const::Undef => vec![-1; n],
                    Const::Agg(v) => v
                        .iter()
                        .map(|(_, c)| match c {
                            Const::Int(i) => *i as i32,
                            _ => -1,
                        })
                        .collect(),
                    Const::Splat(_, c) => match *c {
                        Const::Int(i) => vec![i as i32; n],
                        _ => vec![-1; n],
                    },
                    c => panic!("mask {:?}", c),
                };
                Inst::Shuffle(t, a, b, mask)
            }
            "freeze" => {
                let (_, o) = self.typed_opd(p);
                Inst::Freeze(o)
            }
            "atomicrmw" => {
                p.skip_flags();
                let o = match p.next() {
                    Tok::Id(s) => s,
                    t => panic!("{:?}", t),
                };
                let (_, a) = self.typed_opd(p);
                p.want(',');
                let (t, v) = self.typed_opd(p);
                Inst::AtomicRmw(o, t, a, v)
            }
            "cmpxchg" => {
                p.skip_flags();
                let (_, a) = self.typed_opd(p);
                p.want(',');
                let (t, c) = self.typed_opd(p);
                p.want(',');
                let (_, n) = self.typed_opd(p);
                Inst::CmpXchg(t, a, c, n)
            }
            "fence" => Inst::Fence,
            "landingpad" => Inst::LandingPad,
            "resume" => Inst::Resume,
            "unreachable" => Inst::Unreachable,
            "ret" => {
                let t = p.ty();
                if t == Ty::Void {
                    Inst::Ret(None)
                } else {
                    let o = self.opd(p, &t);
                    Inst::Ret(Some((t, o)))
                }
            }
            "br" => {
                if p.is_id("label") {
                    Inst::Br(self.label(p))
                } else {
                    let (_, c) = self.typed_opd(p);
                    p.want(',');
                    let a = self.label(p);
                    p.want(',');
                    let b = self.label(p);
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, o) = self.typed_opd(p);
                p.want(',');
                let d = self.label(p);
                p.want('[');
                let mut cases = Vec::new();
                while !p.eat_p(']') {
                    let (_, c) = p.typed_const();
                    p.want(',');
                    let l = self.label(p);
                    match c {
                        Const::Int(v) => cases.push((v, l)),
                        c => panic!("case {:?}", c),
                    }
                }
                Inst::Switch(t, o, d, cases)
            }
            _ => panic!("instruction {} in {:?}", op, p.t),
        }
    }
}

pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

pub fn parse(text: &str) -> Module {
    let mut m = Module {
        funcs: vec![],
        fidx: HashMap::new(),
        globals: vec![],
        gidx: HashMap::new(),
        consts: vec![],
        intrinsics: vec![],
        types: HashMap::new(),
        aliases: vec![],
        dbg: Dbg::default(),
    };
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    // named types first
    for l in &lines {
        if l.starts_with('%') && l.contains(" = type ") {
            let toks = lex(l);
            if let Tok::Local(n) = &toks[0] {
                let t = {
                    let mut p = P {
                        t: &toks,
                        i: 3,
                        types: &m.types,
                    };
                    p.ty()
                };
                m.types.insert(n.clone(), t);
            }
        }
    }
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with('@') {
            parse_global(&mut m, l);
            i += 1;
        } else if l.starts_with("declare") {
            parse_header(&mut m, l, false);
            i += 1;
        } else if l.starts_with("define") {
            let start = i;
            let (fid, mut cx) = parse_header(&mut m, l, true);
            let mut body: Vec<String> = Vec::new();
            i += 1;
            while lines[i] != "}" {
                let t = lines[i];
                if t.trim().is_empty() {
                    i += 1;
                    continue;
                }
                let tt = t.trim_start();
                let cont = tt.starts_with("to label ")
                    || tt.starts_with("catch ")
                    || tt.starts_with("cleanup")
                    || tt.starts_with("filter ")
                    || tt.starts_with("unwind label");
                if cont {
                    let last = body.last_mut().unwrap();
                    last.push(' ');
                    last.push_str(tt);
                } else if tt.starts_with("switch ") && tt.ends_with('[') {
                    let mut s = tt.to_string();
                    loop {
                        i += 1;
                        s.push(' ');
                        s.push_str(lines[i].trim());
                        if lines[i].trim_start().starts_with(']') {
                            break;
                        }
                    }
                    body.push(s);
                } else {
                    body.push(t.to_string());
                }
                i += 1;
            }
            // what cannot be encoded is an error only if a path executes it
            if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| parse_body(&mut m, fid, &mut cx, &body))).is_err() {
                let f = &mut m.funcs[fid as usize];
                f.blocks.clear();
                f.defined = false;
            }
            m.funcs[fid as usize].src_lines = (start + 1, i + 1);
            i += 1;
        } else {
            if l.starts_with('!') {
                m.dbg.add(l);
            }
            i += 1;
        }
    }
    m
}

fn parse_global(m: &mut Module, l: &str) {
    let toks = lex(l);
    let name = match &toks[0] {
        Tok::Glob(n) => n.clone(),
        _ => return,
    };
    if name.starts_with("llvm.") {
        return;
    }
    let types = m.types.clone();
    let mut p = P {
        t: &toks,
        i: 2,
        types: &types,
    };
    let mut constant = false;
    let mut external = false;
    loop {
        match p.peek() {
            Some(Tok::Id(s)) => {
                let s = s.clone();
                match s.as_str() {
                    "constant" => {
                        constant = true;
                        p.i += 1;
                        break;
                    }
                    "global" => {
                        p.i += 1;
                        break;
                    }
                    "alias" | "ifunc" => {
                        p.i += 1;
                        let _ = p.ty();
                        let mut is_fn = false;
                        if p.is_p('(') {
                            is_fn = true;
                            p.skip_parens();
                        }
                        p.want(',');
                        let (_, c) = p.typed_const();
                        if let (true, Const::Global(t)) = (is_fn, &c) {
                            let id = m.func_id(t);
                            m.fidx.insert(name.clone(), id);
                        }
                        m.aliases.push((name, c));
                        return;
                    }
                    "external" | "extern_weak" => {
                        external = true;
                        p.i += 1;
                    }
                    _ => {
                        p.i += 1;
                        if p.is_p('(') {
                            p.skip_parens();
                        }
                    }
                }
            }
            _ => panic!("global {}", l),
        }
    }
    let ty = p.ty();
    let init = if external { None } else { Some(p.constant(&ty)) };
    let mut align = ty.align();
    while p.i < toks.len() {
        if p.eat_id("align") {
            align = p.num();
        } else {
            p.i += 1;
        }
    }
    let gi = m.globals.len() as u32;
    m.gidx.insert(name.clone(), gi);
    m.globals.push(Global {
        name,
        ty,
        init,
        align,
        constant,
    });
}

fn parse_header(m: &mut Module, l: &str, def: bool) -> (u32, FnCtx) {
    let toks = lex(l);
    let types = m.types.clone();
    let mut p = P {
        t: &toks,
        i: 1,
        types: &types,
    };
    // linkage / visibility / cc / attributes up to the return type
    loop {
        match p.peek() {
            Some(Tok::Id(s)) => {
                let s = s.clone();
                if matches!(
                    s.as_str(),
                    "internal"
                        | "private"
                        | "external"
                        | "extern_weak"
                        | "weak"
                        | "weak_odr"
                        | "linkonce"
                        | "linkonce_odr"
                        | "available_externally"
                        | "dso_local"
                        | "hidden"
                        | "protected"
                        | "default"
                        | "unnamed_addr"
                        | "local_unnamed_addr"
                ) || (s.ends_with("cc") && !s.starts_with('i'))
                {
                    p.i += 1;
                    continue;
                }
                let b = p.i;
                p.skip_attrs();
                if p.i == b {
                    break;
                }
            }
            _ => break,
        }
    }
    let ret = p.ty();
    let name = match p.next() {
        Tok::Glob(n) => n,
        t => panic!("function name {:?} in {}", t, l),
    };
    let mut cx = FnCtx {
        regs: HashMap::new(),
        labels: HashMap::new(),
    };
    let mut params = Vec::new();
    p.want('(');
    let mut unnamed = 0;
    if !p.eat_p(')') {
        loop {
            if p.peek() == Some(&Tok::Ellipsis) {
                p.i += 1;
            } else {
                let t = p.ty();
                p.skip_attrs();
                let n = match p.peek() {
                    Some(Tok::Local(n)) => {
                        let n = n.clone();
                        p.i += 1;
                        n
                    }
                    _ => {
                        let n = format!("{}", unnamed);
                        unnamed += 1;
                        n
                    }
                };
                let r = cx.reg(&n);
                params.push((t, r));
            }
            if p.eat_p(')') {
                break;
            }
            p.want(',');
        }
    }
    let fid = m.func_id(&name);
    let f = &mut m.funcs[fid as usize];
    f.ret = ret;
    f.params = params;
    f.defined = def;
    f.nregs = cx.regs.len() as u32;
    (fid, cx)
}

fn label_of(line: &str) -> Option<String> {
    if line.starts_with(' ') || line.starts_with('\t') {
        return None;
    }
    let l = match line.find(';') {
        Some(k) if !line.starts_with('"') => line[..k].trim_end(),
        _ => line.trim_end(),
    };
    if l.starts_with('"') {
        let e = l[1..].find('"')?;
        return Some(String::from_utf8_lossy(&unescape(l[1..1 + e].as_bytes())).to_string());
    }
    l.strip_suffix(':').map(|s| s.to_string())
}

fn parse_body(m: &mut Module, fid: u32, cx: &mut FnCtx, body: &[String]) {
    let types = m.types.clone();
    // an unlabelled entry block is numbered after the unnamed parameters
    let nparams_unnamed = cx.regs.keys().filter(|k| k.parse::<u32>().is_ok()).count();
    let mut b = Builder {
        cx: FnCtx {
            regs: std::mem::take(&mut cx.regs),
            labels: HashMap::new(),
        },
        m,
        kcache: HashMap::new(),
    };
    // define labels in order of appearance so that block 0 is the entry
    let mut first = true;
    for l in body {
        if let Some(n) = label_of(l) {
            b.cx.label(&n);
            first = false;
        } else if first {
            b.cx.label(&format!("{}", nparams_unnamed));
            first = false;
        }
    }
    let mut blocks: Vec<Block> = Vec::new();
    for l in body {
        if label_of(l).is_some() {
            blocks.push(Block {
                phis: vec![],
                insts: vec![],
                dbg: vec![],
            });
            continue;
        }
        if blocks.is_empty() {
            blocks.push(Block {
                phis: vec![],
                insts: vec![],
                dbg: vec![],
            });
        }
        let toks = lex(l);
        if toks.is_empty() {
            continue;
        }
        if let Some(k) = l.rfind("!dbg !") {
            let d: String = l[k + 6..].chars().take_while(|c| c.is_ascii_digit()).collect();
            if let Ok(n) = d.parse::<u32>() {
                blocks.last_mut().unwrap().dbg.push(n);
            }
        }
        let mut p = P {
            t: &toks,
            i: 0,
            types: &types,
        };
        let mut dst = NODST;
        if let Tok::Local(n) = &toks[0] {
            dst = b.cx.reg(n);
            p.i = 2;
        } else if let Tok::P('#') = &toks[0] {
            continue;
        } else if let Tok::Attr(_) = &toks[0] {
            continue; // #dbg_... records
        }
        if p.is_id("phi") {
            p.i += 1;
            p.skip_flags();
            let t = p.ty();
            let mut inc = Vec::new();
            loop {
                p.want('[');
                let o = b.opd(&mut p, &t);
                p.want(',');
                let lb = match p.next() {
                    Tok::Local(n) => b.cx.label(&n),
                    t => panic!("{:?}", t),
                };
                p.want(']');
                inc.push((lb, o));
                if !p.eat_p(',') || matches!(p.peek(), Some(Tok::Meta(_))) {
                    break;
                }
            }
            blocks.last_mut().unwrap().phis.push(Phi { dst, inc });
        } else {
            let ins = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.inst(&mut p)))
                .unwrap_or_else(|_| Inst::Bad(l.trim().chars().take(160).collect()));
            blocks.last_mut().unwrap().insts.push((dst, ins));
        }
    }
    let n = b.cx.regs.len() as u32;
    assert_eq!(b.cx.labels.len(), blocks.len(), "labels in {}", b.m.funcs[fid as usize].name);
    let f = &mut b.m.funcs[fid as usize];
    f.blocks = blocks;
    f.nregs = n;
}
