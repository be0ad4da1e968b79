//! Executes functions of an LLVM module (text form) on symbolic reals.
//!
//! For code that is not generic: machine floats become real numbers known as SMT terms, floating
//! point comparisons become branches, integers and addresses stay concrete. Float constants are
//! read as the number that was meant (see `Consts`).
use crate::rat::Rat;
use crate::sym::*;
use std::cell::Cell;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    W(String),
    /// %name
    L(String),
    /// @name
    G(String),
    P(char),
    S(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq)]
enum Ty {
    Void,
    F(u32),
    I(u32),
    Ptr,
    Arr(usize, Box<Ty>),
    Vec(usize, Box<Ty>),
    St(Vec<Ty>, bool),
    Other,
}

#[derive(Clone, Debug)]
enum Op {
    Loc(String),
    Glob(String),
    Word(String),
    Str(Vec<u8>),
    Agg(Vec<(Ty, Op)>),
    Splat(Box<(Ty, Op)>),
}

#[derive(Clone, Debug)]
enum V {
    F(Sym),
    I(u128, u32),
    P(usize, i64),
    Fn(String),
    Agg(Vec<V>),
    Undef,
}

struct Func {
    params: Vec<String>,
    /// block name -> lines
    blocks: HashMap<String, Vec<Vec<Tok>>>,
    entry: String,
}

/// The functions and constants of some modules.
pub struct Module {
    funcs: HashMap<String, Func>,
    globals: HashMap<String, Vec<Tok>>,
}

fn unsupported(what: impl std::fmt::Display) -> ! {
    panic!("symx: not encoded: {what}")
}

fn lex(line: &str) -> Vec<Tok> {
    let b = line.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let word = |c: u8| c.is_ascii_alphanumeric() || b"_.$-+".contains(&c);
    while i < b.len() {
        let c = b[i];
        if c.is_ascii_whitespace() {
            i += 1;
        } else if c == b';' {
            break;
        } else if c == b'"' || (c == b'c' && b.get(i + 1) == Some(&b'"')) {
            if c == b'c' {
                i += 1;
            }
            let mut s = vec![];
            i += 1;
            while i < b.len() && b[i] != b'"' {
                if b[i] == b'\\' && i + 2 < b.len() {
                    s.push(u8::from_str_radix(&line[i + 1..i + 3], 16).unwrap_or(b'\\'));
                    i += 3;
                } else {
                    s.push(b[i]);
                    i += 1;
                }
            }
            i += 1;
            out.push(Tok::S(s));
        } else if c == b'%' || c == b'@' {
            i += 1;
            let s = if b.get(i) == Some(&b'"') {
                let e = line[i + 1..].find('"').map_or(b.len(), |e| e + i + 1);
                let s = line[i + 1..e].to_string();
                i = e + 1;
                s
            } else {
                let st = i;
                while i < b.len() && word(b[i]) {
                    i += 1;
                }
                line[st..i].to_string()
            };
            out.push(if c == b'%' { Tok::L(s) } else { Tok::G(s) });
        } else if word(c) {
            let st = i;
            while i < b.len() && word(b[i]) {
                i += 1;
            }
            out.push(Tok::W(line[st..i].to_string()));
        } else {
            out.push(Tok::P(c as char));
            i += 1;
        }
    }
    out
}

impl Module {
    pub fn read(texts: &[String]) -> Module {
        let mut m = Module { funcs: HashMap::new(), globals: HashMap::new() };
        for t in texts {
            m.add(t);
        }
        m
    }

    fn add(&mut self, text: &str) {
        let mut it = text.lines();
        while let Some(l) = it.next() {
            if l.starts_with("define ") {
                let toks = lex(l);
                let Some(g) = toks.iter().position(|t| matches!(t, Tok::G(_))) else { continue };
                let Tok::G(name) = &toks[g] else { unreachable!() };
                let (mut depth, mut params) = (0, vec![]);
                for t in &toks[g + 1..] {
                    match t {
                        Tok::P('(') => depth += 1,
                        Tok::P(')') => {
                            depth -= 1;
                            if depth == 0 {
                                break;
                            }
                        }
                        Tok::L(n) if depth == 1 => params.push(n.clone()),
                        _ => {}
                    }
                }
                let mut f = Func { params, blocks: HashMap::new(), entry: String::new() };
                let mut cur = String::new();
                let mut depth = 0i32;
                for l in it.by_ref() {
                    if l == "}" {
                        break;
                    }
                    let toks = lex(l);
                    if toks.is_empty() {
                        continue;
                    }
                    let label = match &toks[0] {
                        Tok::W(w) if toks.get(1) == Some(&Tok::P(':')) => Some(w.clone()),
                        Tok::S(w) if toks.get(1) == Some(&Tok::P(':')) => Some(String::from_utf8_lossy(w).into_owned()),
                        _ => None,
                    };
                    if let (Some(w), false) = (label, l.starts_with(' ')) {
                        cur = w;
                        if f.entry.is_empty() {
                            f.entry = cur.clone();
                        }
                        f.blocks.entry(cur.clone()).or_default();
                        continue;
                    }
                    if f.entry.is_empty() {
                        cur = "0".into();
                        f.entry = cur.clone();
                    }
                    let b = f.blocks.entry(cur.clone()).or_default();
                    // a switch goes over several lines
                    let here: i32 = toks.iter().map(|t| match t {
                        Tok::P('[' | '{' | '(') => 1,
                        Tok::P(']' | '}' | ')') => -1,
                        _ => 0,
                    }).sum();
                    if depth > 0 || matches!(toks.first(), Some(Tok::W(w)) if w == "to" || w == "cleanup" || w == "catch") {
                        b.last_mut().unwrap().extend(toks);
                    } else {
                        b.push(toks);
                    }
                    depth += here;
                }
                self.funcs.insert(name.clone(), f);
            } else if l.starts_with('@') {
                let toks = lex(l);
                if let Some(Tok::G(n)) = toks.first() {
                    if let Some(k) = toks.iter().position(|t| matches!(t, Tok::W(w) if w == "constant" || w == "global")) {
                        self.globals.insert(n.clone(), toks[k + 1..].to_vec());
                    }
                }
            }
        }
    }

    pub fn has(&self, name: &str) -> bool {
        self.funcs.contains_key(name)
    }

    /// Calls a function of float arguments and result.
    pub fn call(&self, consts: &Consts, name: &str, args: &[Sym]) -> Sym {
        let mut m = Machine { m: self, consts, mem: vec![], glob: HashMap::new(), steps: 0, depth: 0 };
        match m.call(name, args.iter().map(|a| V::F(*a)).collect()) {
            V::F(s) => s,
            _ => unsupported("the result is no float"),
        }
    }
}

/// Reads float constants as the numbers they stand for: a simple fraction, a simple multiple of
/// some named real numbers (pi, e, ..), an integer plus such a multiple, or else what is stored.
pub struct Consts {
    pub named: Vec<(f64, Sym)>,
    pub seen: Cell<u64>,
}

impl Consts {
    pub fn new(named: Vec<(f64, Sym)>) -> Consts {
        Consts { named, seen: Cell::new(0) }
    }

    fn near(x: f64, y: f64, eps: f64) -> bool {
        (x - y).abs() <= eps * x.abs()
    }

    fn simple(x: f64, eps: f64, den: i128) -> Option<(i128, i128)> {
        (1..=den).map(|q| ((x * q as f64).round() as i128, q)).find(|&(p, q)| p.abs() < 1 << 20 && Self::near(x, p as f64 / q as f64, eps))
    }

    fn snap(&self, x: f64, bits: i32) -> Option<Sym> {
        // half a unit in the last place, and two when more than one rounding is involved
        let (eps, eps2) = (2f64.powi(-bits), 2f64.powi(2 - bits));
        if let Some((p, q)) = Self::simple(x, eps, 100) {
            return Some(rat(p, q));
        }
        for &(v, s) in &self.named {
            if let Some((p, q)) = Self::simple(x / v, eps2, 64) {
                if p != 0 {
                    return Some(rat(p, q) * s);
                }
            }
        }
        for &(v, s) in &self.named {
            for k in [1i128, -1, 2, -2] {
                let r = (x - k as f64 * v).round();
                if r.abs() <= 64.0 && Self::near(x, r + k as f64 * v, eps2) {
                    return Some(int(r as i128) + int(k) * s);
                }
            }
        }
        Self::simple(x, eps, 1000).map(|(p, q)| rat(p, q))
    }

    fn constant(&self, x: f64, ty: &Ty) -> V {
        self.seen.set(self.seen.get() + 1);
        if !x.is_finite() {
            unsupported(format!("constant {x}"));
        }
        if x == 0.0 {
            return V::F(int(0));
        }
        let mut s = None;
        if *ty == Ty::F(64) {
            s = self.snap(x, 53);
        }
        if s.is_none() && x as f32 as f64 == x {
            s = self.snap(x, 24);
        }
        V::F(s.unwrap_or_else(|| match Rat::from_f64(x) {
            Some(_) => Sym::from(x),
            None => unsupported(format!("constant {x}")),
        }))
    }
}

/// A reader of tokens.
struct Rd<'a> {
    t: &'a [Tok],
    i: usize,
}

impl<'a> Rd<'a> {
    fn peek(&self) -> Option<&'a Tok> {
        self.t.get(self.i)
    }
    fn is(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::W(x)) if x == w)
    }
    fn eat(&mut self, c: char) -> bool {
        let r = self.is(c);
        self.i += r as usize;
        r
    }
    fn want(&mut self, c: char) {
        if !self.eat(c) {
            unsupported(format!("{:?} instead of {c}", self.peek()));
        }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        let r = self.is_w(w);
        self.i += r as usize;
        r
    }
    fn word(&mut self) -> String {
        match self.peek() {
            Some(Tok::W(w)) => {
                self.i += 1;
                w.clone()
            }
            t => unsupported(format!("{t:?} instead of a word")),
        }
    }
    fn label(&mut self) -> String {
        if !self.eat_w("label") {
            unsupported("no label");
        }
        match self.peek() {
            Some(Tok::L(n)) => {
                self.i += 1;
                n.clone()
            }
            t => unsupported(format!("{t:?} instead of a label")),
        }
    }
    fn group(&mut self) {
        let mut d = 0;
        loop {
            match self.peek() {
                Some(Tok::P('(')) => d += 1,
                Some(Tok::P(')')) => d -= 1,
                None => return,
                _ => {}
            }
            self.i += 1;
            if d == 0 {
                return;
            }
        }
    }
    fn scalar(w: &str) -> Option<Ty> {
        Some(match w {
            "void" => Ty::Void,
            "float" => Ty::F(32),
            "double" => Ty::F(64),
            "ptr" => Ty::Ptr,
            "half" | "fp128" | "x86_fp80" | "metadata" | "token" => Ty::Other,
            _ => Ty::I(w.strip_prefix('i')?.parse().ok()?),
        })
    }
    fn ty(&mut self) -> Ty {
        match self.peek() {
            Some(Tok::W(w)) => {
                let Some(t) = Self::scalar(w) else { unsupported(format!("type {w}")) };
                self.i += 1;
                t
            }
            Some(Tok::P(c @ ('[' | '<'))) => {
                self.i += 1;
                if *c == '<' && self.is('{') {
                    let Ty::St(v, _) = self.ty() else { unreachable!() };
                    self.want('>');
                    return Ty::St(v, true);
                }
                let n = self.word().parse().unwrap_or_else(|_| unsupported("array length"));
                if !self.eat_w("x") {
                    unsupported("array type");
                }
                let t = Box::new(self.ty());
                self.want(if *c == '[' { ']' } else { '>' });
                if *c == '[' {
                    Ty::Arr(n, t)
                } else {
                    Ty::Vec(n, t)
                }
            }
            Some(Tok::P('{')) => {
                self.i += 1;
                let mut v = vec![];
                while !self.eat('}') {
                    v.push(self.ty());
                    self.eat(',');
                }
                Ty::St(v, false)
            }
            t => unsupported(format!("type {t:?}")),
        }
    }
    fn attrs(&mut self) {
        while let Some(Tok::W(w)) = self.peek() {
            if ["true", "false", "null", "undef", "poison", "zeroinitializer", "splat", "none", "getelementptr", "asm", "inttoptr"].contains(&w.as_str())
                || w.starts_with(|c: char| c.is_ascii_digit() || c == '-')
                || w.starts_with("f0x")
                || Self::scalar(w).is_some()
            {
                return;
            }
            self.i += 1;
            if w == "align" && !self.is('(') {
                self.i += 1;
            } else if self.is('(') {
                self.group();
            }
        }
    }
    fn op(&mut self) -> Op {
        let t = self.peek();
        self.i += 1;
        match t {
            Some(Tok::L(n)) => Op::Loc(n.clone()),
            Some(Tok::G(n)) => Op::Glob(n.clone()),
            Some(Tok::S(s)) => Op::Str(s.clone()),
            Some(Tok::W(w)) if w == "splat" => {
                self.want('(');
                let t = self.ty();
                let o = self.op();
                self.want(')');
                Op::Splat(Box::new((t, o)))
            }
            Some(Tok::W(w)) if w == "getelementptr" || w == "inttoptr" || w == "ptrtoint" => unsupported("constant expression"),
            Some(Tok::W(w)) => Op::Word(w.clone()),
            Some(Tok::P(c @ ('<' | '[' | '{'))) => {
                let packed = *c == '<' && self.eat('{');
                let close = if packed { '}' } else { match c { '<' => '>', '[' => ']', _ => '}' } };
                let mut v = vec![];
                while !self.eat(close) {
                    let t = self.ty();
                    let o = self.op();
                    v.push((t, o));
                    self.eat(',');
                }
                if packed {
                    self.want('>');
                }
                Op::Agg(v)
            }
            t => unsupported(format!("operand {t:?}")),
        }
    }
    fn typed(&mut self) -> (Ty, Op) {
        let t = self.ty();
        self.attrs();
        (t, self.op())
    }
    /// flags between an operation and its type
    fn flags(&mut self) {
        while let Some(Tok::W(w)) = self.peek() {
            let known = ["nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast", "nuw", "nsw", "exact", "disjoint", "nneg",
                         "samesign", "inbounds", "nusw", "volatile", "inalloca"];
            if known.contains(&w.as_str()) {
                self.i += 1;
            } else {
                return;
            }
        }
    }
}

/// One piece of memory: values by offset.
type Mem = std::collections::BTreeMap<i64, (V, usize)>;

struct Machine<'a> {
    m: &'a Module,
    consts: &'a Consts,
    mem: Vec<Mem>,
    glob: HashMap<String, usize>,
    steps: u64,
    depth: u32,
}

fn mask(v: u128, bits: u32) -> u128 {
    if bits >= 128 {
        v
    } else {
        v & ((1 << bits) - 1)
    }
}
fn signed(v: u128, bits: u32) -> i128 {
    if bits >= 128 {
        v as i128
    } else {
        ((v << (128 - bits)) as i128) >> (128 - bits)
    }
}

fn align(t: &Ty) -> usize {
    match t {
        Ty::F(b) | Ty::I(b) => (*b as usize).div_ceil(8).next_power_of_two().min(16),
        Ty::Ptr => 8,
        Ty::Arr(_, t) => align(t),
        Ty::Vec(..) => size(t).next_power_of_two(),
        Ty::St(_, true) => 1,
        Ty::St(v, _) => v.iter().map(align).max().unwrap_or(1),
        _ => unsupported("alignment"),
    }
}
fn size(t: &Ty) -> usize {
    match t {
        Ty::F(b) | Ty::I(b) => (*b as usize).div_ceil(8).next_power_of_two(),
        Ty::Ptr => 8,
        Ty::Arr(n, t) | Ty::Vec(n, t) => n * size(t),
        Ty::St(v, packed) => {
            let mut o = 0usize;
            for f in v {
                let a = if *packed { 1 } else { align(f) };
                o = o.div_ceil(a) * a + size(f);
            }
            let a = align(t);
            o.div_ceil(a) * a
        }
        _ => unsupported("size"),
    }
}
fn fields(t: &Ty) -> Vec<(usize, Ty)> {
    match t {
        Ty::Arr(n, t) | Ty::Vec(n, t) => (0..*n).map(|k| (k * size(t), (**t).clone())).collect(),
        Ty::St(v, packed) => {
            let mut o = 0usize;
            v.iter().map(|f| {
                let a = if *packed { 1 } else { align(f) };
                o = o.div_ceil(a) * a;
                let r = (o, f.clone());
                o += size(f);
                r
            }).collect()
        }
        _ => unsupported("fields"),
    }
}

impl<'a> Machine<'a> {
    fn alloc(&mut self) -> usize {
        self.mem.push(Mem::new());
        self.mem.len() - 1
    }

    fn store(&mut self, v: V, t: &Ty, obj: usize, off: i64) {
        match (&v, t) {
            (V::Agg(vs), Ty::Arr(..) | Ty::Vec(..) | Ty::St(..)) => {
                for (x, (o, ft)) in vs.clone().into_iter().zip(fields(t)) {
                    self.store(x, &ft, obj, off + o as i64);
                }
            }
            (V::Undef, Ty::Arr(..) | Ty::Vec(..) | Ty::St(..)) => {
                for (o, ft) in fields(t) {
                    self.store(V::Undef, &ft, obj, off + o as i64);
                }
            }
            _ => {
                let n = size(t);
                let over: Vec<i64> = self.mem[obj]
                    .iter()
                    .filter(|(o, (_, s))| **o < off + n as i64 && off < **o + *s as i64)
                    .map(|(o, _)| *o)
                    .collect();
                for o in over {
                    self.mem[obj].remove(&o);
                }
                self.mem[obj].insert(off, (v, n));
            }
        }
    }

    fn load(&mut self, t: &Ty, obj: usize, off: i64) -> V {
        match t {
            Ty::Arr(..) | Ty::Vec(..) | Ty::St(..) => V::Agg(fields(t).into_iter().map(|(o, ft)| self.load(&ft, obj, off + o as i64)).collect()),
            _ => {
                if let Some((v, n)) = self.mem[obj].get(&off) {
                    if *n == size(t) {
                        match (v, t) {
                            (V::F(_), Ty::F(_)) | (V::I(..), Ty::I(_)) | (V::P(..) | V::Fn(_), Ty::Ptr) | (V::Undef, _) => return v.clone(),
                            _ => {}
                        }
                    }
                }
                // bytes of a constant
                let mut bytes = vec![];
                for k in 0..size(t) as i64 {
                    match self.mem[obj].get(&(off + k)) {
                        Some((V::I(b, 8), 1)) => bytes.push(*b as u8),
                        _ => unsupported("load of something stored differently"),
                    }
                }
                let v = bytes.iter().rev().fold(0u128, |a, b| a << 8 | *b as u128);
                match t {
                    Ty::I(b) => V::I(mask(v, *b), *b),
                    Ty::F(32) => self.consts.constant(f32::from_bits(v as u32) as f64, t),
                    Ty::F(64) => self.consts.constant(f64::from_bits(v as u64), t),
                    _ => unsupported("load of bytes"),
                }
            }
        }
    }

    fn global(&mut self, n: &str) -> V {
        if self.m.funcs.contains_key(n) {
            return V::Fn(n.into());
        }
        if let Some(&o) = self.glob.get(n) {
            return V::P(o, 0);
        }
        let Some(t) = self.m.globals.get(n) else { return V::Fn(n.into()) };
        let o = self.alloc();
        self.glob.insert(n.into(), o);
        let mut r = Rd { t, i: 0 };
        let ty = r.ty();
        let op = r.op();
        let v = self.value(&ty, &op, &HashMap::new());
        self.store(v, &ty, o, 0);
        V::P(o, 0)
    }

    fn value(&mut self, t: &Ty, o: &Op, env: &HashMap<String, V>) -> V {
        match o {
            Op::Loc(n) => env.get(n).cloned().unwrap_or_else(|| unsupported(format!("%{n} has no value"))),
            Op::Glob(n) => self.global(n),
            Op::Str(s) => V::Agg(s.iter().map(|b| V::I(*b as u128, 8)).collect()),
            Op::Agg(v) => V::Agg(v.iter().map(|(t, o)| self.value(t, o, env)).collect()),
            Op::Splat(e) => {
                let Ty::Vec(n, _) = t else { unsupported("splat") };
                let v = self.value(&e.0, &e.1, env);
                V::Agg(vec![v; *n])
            }
            Op::Word(w) => match (w.as_str(), t) {
                ("undef" | "poison", _) => V::Undef,
                ("zeroinitializer", Ty::Arr(..) | Ty::Vec(..) | Ty::St(..)) => {
                    V::Agg(fields(t).iter().map(|(_, ft)| self.value(ft, o, env)).collect())
                }
                ("zeroinitializer", Ty::F(_)) => V::F(int(0)),
                ("zeroinitializer", Ty::I(b)) => V::I(0, *b),
                ("true", _) => V::I(1, 1),
                ("false", _) => V::I(0, 1),
                (_, Ty::I(b)) => match w.parse::<i128>() {
                    Ok(k) => V::I(mask(k as u128, *b), *b),
                    Err(_) => unsupported(format!("integer {w}")),
                },
                (_, Ty::F(b)) => {
                    let x = if let Some(h) = w.strip_prefix("f0x") {
                        let k = u64::from_str_radix(h, 16).unwrap_or_else(|_| unsupported(w));
                        if *b == 32 { f32::from_bits(k as u32) as f64 } else { f64::from_bits(k) }
                    } else if let Some(h) = w.strip_prefix("0x") {
                        f64::from_bits(u64::from_str_radix(h, 16).unwrap_or_else(|_| unsupported(w)))
                    } else if *b == 32 {
                        w.parse::<f32>().unwrap_or_else(|_| unsupported(w)) as f64
                    } else {
                        w.parse::<f64>().unwrap_or_else(|_| unsupported(w))
                    };
                    self.consts.constant(x, t)
                }
                _ => unsupported(format!("operand {w}")),
            },
        }
    }

    fn f(v: V) -> Sym {
        match v {
            V::F(s) => s,
            V::Undef => unsupported("undefined float"),
            v => unsupported(format!("{v:?} instead of a float")),
        }
    }
    fn i(v: V) -> (u128, u32) {
        match v {
            V::I(k, b) => (k, b),
            v => unsupported(format!("{v:?} instead of an integer")),
        }
    }
    fn bool(v: V) -> bool {
        Self::i(v).0 != 0
    }

    fn lift1(a: V, f: &dyn Fn(V) -> V) -> V {
        match a {
            V::Agg(v) => V::Agg(v.into_iter().map(|x| Self::lift1(x, f)).collect()),
            a => f(a),
        }
    }
    fn lift2(a: V, b: V, f: &dyn Fn(V, V) -> V) -> V {
        match (a, b) {
            (V::Agg(v), V::Agg(w)) => V::Agg(v.into_iter().zip(w).map(|(x, y)| Self::lift2(x, y, f)).collect()),
            (a, b) => f(a, b),
        }
    }

    fn fcmp(p: &str, a: Sym, b: Sym) -> bool {
        match p {
            "true" | "ord" => true,
            "false" | "uno" => false,
            "oeq" | "ueq" => branch(a.eqs(b)),
            "one" | "une" => branch(a.eqs(b).not()),
            "olt" | "ult" => branch(a.lts(b)),
            "ole" | "ule" => branch(a.les(b)),
            "ogt" | "ugt" => branch(b.lts(a)),
            "oge" | "uge" => branch(b.les(a)),
            _ => unsupported(p),
        }
    }

    fn arith(op: &str, a: V, b: V) -> V {
        let ((x, n), (y, _)) = (Self::i(a), Self::i(b));
        let (sx, sy) = (signed(x, n), signed(y, n));
        let r = match op {
            "add" => x.wrapping_add(y),
            "sub" => x.wrapping_sub(y),
            "mul" => x.wrapping_mul(y),
            "and" => x & y,
            "or" => x | y,
            "xor" => x ^ y,
            "shl" => x << y,
            "lshr" => x >> y,
            "ashr" => (sx >> y) as u128,
            "udiv" | "urem" | "sdiv" | "srem" if y == 0 => unsupported("integer division by zero"),
            "udiv" => x / y,
            "urem" => x % y,
            "sdiv" => (sx / sy) as u128,
            _ => (sx % sy) as u128,
        };
        V::I(mask(r, n), n)
    }

    /// Library functions and intrinsics of real numbers.
    fn math(&mut self, name: &str, a: &[V]) -> Option<V> {
        let base = match name.strip_prefix("llvm.") {
            Some(n) => n.split('.').next().unwrap(),
            None => name.strip_suffix('f').filter(|n| ["sqrt", "exp", "exp2", "expm1", "sin", "cos", "tan", "sinh", "cosh", "log", "log1p", "hypot", "pow", "fabs", "fma", "asin", "atan2", "fmin", "fmax", "copysign"].contains(n)).unwrap_or(name),
        };
        if let Some(V::Agg(first)) = a.first() {
            if matches!(base, "sqrt" | "exp" | "exp2" | "sin" | "cos" | "fabs" | "fma" | "fmuladd" | "log" | "minnum" | "maxnum" | "pow") {
                let n = first.len();
                let r = (0..n).map(|k| {
                    let args: Vec<V> = a.iter().map(|v| if let V::Agg(v) = v { v[k].clone() } else { v.clone() }).collect();
                    self.math(name, &args)
                }).collect::<Option<Vec<V>>>();
                return r.map(V::Agg);
            }
        }
        let f = |k: usize| Self::f(a[k].clone());
        let r = match base {
            "sqrt" => sqrt(f(0)),
            "exp" => exp(f(0)),
            "expm1" => exp(f(0)) - int(1),
            "exp2" => exp(ln(int(2)) * f(0)),
            "sin" => sin(f(0)),
            "cos" => cos(f(0)),
            "tan" => tan(f(0)),
            "sinh" => sinh(f(0)),
            "cosh" => cosh(f(0)),
            "log" => ln(f(0)),
            "log1p" => ln(int(1) + f(0)),
            "hypot" => sqrt(f(0) * f(0) + f(1) * f(1)),
            "fabs" => abs(f(0)),
            "fma" | "fmuladd" => f(0) * f(1) + f(2),
            "asin" => asin(f(0)),
            "atan2" => atan2(f(0), f(1)),
            "minnum" | "minimum" | "minimumnum" | "fmin" => if branch(f(0).les(f(1))) { f(0) } else { f(1) },
            "maxnum" | "maximum" | "maximumnum" | "fmax" => if branch(f(0).les(f(1))) { f(1) } else { f(0) },
            "copysign" => {
                let m = abs(f(0));
                if branch(f(1).ge0()) { m } else { -m }
            }
            "powi" => {
                let (k, b) = Self::i(a[1].clone());
                let k = signed(k, b);
                if k.abs() > 64 {
                    unsupported("a large power");
                }
                let mut r = int(1);
                for _ in 0..k.abs() {
                    r *= f(0);
                }
                if k < 0 { int(1) / r } else { r }
            }
            "pow" => {
                let (b, e) = (f(0), f(1));
                match constant(e) {
                    Some(r) if r.d == 1 && r.n.abs() <= 64 => {
                        let mut p = int(1);
                        for _ in 0..r.n.abs() {
                            p *= b;
                        }
                        if r.n < 0 { int(1) / p } else { p }
                    }
                    Some(r) if (r.n, r.d) == (1, 2) => sqrt(b),
                    _ if same_term(b, exp(int(1))) => exp(e),
                    _ => unsupported("a power"),
                }
            }
            _ => return None,
        };
        Some(V::F(r))
    }

    fn call(&mut self, name: &str, args: Vec<V>) -> V {
        if let Some(v) = self.math(name, &args) {
            return v;
        }
        if let Some(n) = name.strip_prefix("llvm.") {
            let base = n.split('.').next().unwrap();
            match base {
                "lifetime" | "assume" | "dbg" | "experimental" | "invariant" => return V::Undef,
                "expect" => return args[0].clone(),
                "memcpy" | "memmove" => {
                    let (V::P(d, dof), V::P(s, sof)) = (&args[0], &args[1]) else { unsupported("memcpy") };
                    let n = Self::i(args[2].clone()).0 as i64;
                    let items: Vec<(i64, (V, usize))> = self.mem[*s].range(*sof..sof + n).map(|(o, v)| (*o, v.clone())).collect();
                    let (d, dof, sof) = (*d, *dof, *sof);
                    for (o, (v, sz)) in items {
                        if o + sz as i64 > sof + n {
                            unsupported("partial memcpy");
                        }
                        let at = dof + o - sof;
                        let over: Vec<i64> = self.mem[d].iter().filter(|(p, (_, q))| **p < at + sz as i64 && at < **p + *q as i64).map(|(p, _)| *p).collect();
                        for p in over {
                            self.mem[d].remove(&p);
                        }
                        self.mem[d].insert(at, (v, sz));
                    }
                    return V::Undef;
                }
                "memset" => {
                    let V::P(d, off) = args[0] else { unsupported("memset") };
                    let (b, n) = (Self::i(args[1].clone()).0, Self::i(args[2].clone()).0 as i64);
                    for k in 0..n {
                        self.store(V::I(b, 8), &Ty::I(8), d, off + k);
                    }
                    return V::Undef;
                }
                "umin" | "umax" | "smin" | "smax" => {
                    let ((x, n), (y, _)) = (Self::i(args[0].clone()), Self::i(args[1].clone()));
                    let less = if base.starts_with('u') { x <= y } else { signed(x, n) <= signed(y, n) };
                    return V::I(if less == base.ends_with("min") { x } else { y }, n);
                }
                "vector" if n.contains("reduce.fadd") || n.contains("reduce.fmul") => {
                    let V::Agg(v) = &args[1] else { unsupported("reduction") };
                    return V::F(v.iter().fold(Self::f(args[0].clone()), |a, x| {
                        let x = Self::f(x.clone());
                        if n.contains("fadd") { a + x } else { a * x }
                    }));
                }
                _ => unsupported(name),
            }
        }
        if name.contains("panic") || name.contains("unwrap_failed") || name.contains("expect_failed") {
            panic!("FAULT: {name}");
        }
        let m = self.m;
        let Some(f) = m.funcs.get(name) else { unsupported(format!("function {name}")) };
        self.depth += 1;
        if self.depth > 200 {
            unsupported("deep recursion");
        }
        let env = f.params.iter().cloned().zip(args).collect();
        let r = self.body(f, env);
        self.depth -= 1;
        r
    }

    fn body(&mut self, f: &'a Func, mut env: HashMap<String, V>) -> V {
        let mut cur: &str = &f.entry;
        let mut prev: &str = "";
        loop {
            let Some(lines) = f.blocks.get(cur) else { unsupported(format!("block {cur}")) };
            // all phis read the values from before
            let mut phis = vec![];
            for l in lines {
                if !matches!((&l.first(), &l.get(2)), (Some(Tok::L(_)), Some(Tok::W(w))) if w == "phi") {
                    break;
                }
                let Tok::L(dst) = &l[0] else { unreachable!() };
                let mut r = Rd { t: l, i: 3 };
                r.flags();
                let t = r.ty();
                let mut got = None;
                while r.eat('[') {
                    let o = r.op();
                    r.want(',');
                    let from = match r.peek() {
                        Some(Tok::L(n)) => n.clone(),
                        _ => unsupported("phi"),
                    };
                    r.i += 1;
                    r.want(']');
                    r.eat(',');
                    if from == prev {
                        got = Some(self.value(&t, &o, &env));
                    }
                }
                phis.push((dst.clone(), got.unwrap_or_else(|| unsupported("phi without a value"))));
            }
            let skip = phis.len();
            env.extend(phis);
            let mut next: Option<String> = None;
            for l in &lines[skip..] {
                self.steps += 1;
                if self.steps > 200_000 {
                    unsupported("too many steps");
                }
                let (dst, start) = match (&l[0], l.get(1)) {
                    (Tok::L(n), Some(Tok::P('='))) => (Some(n.clone()), 2),
                    _ => (None, 0),
                };
                let mut r = Rd { t: l, i: start };
                if matches!(r.peek(), Some(Tok::P('#' | '!'))) {
                    continue; // debug record
                }
                let mut op = r.word();
                if matches!(op.as_str(), "tail" | "musttail" | "notail") {
                    op = r.word();
                }
                let v = match op.as_str() {
                    "fadd" | "fsub" | "fmul" | "fdiv" => {
                        r.flags();
                        let t = r.ty();
                        let a = r.op();
                        r.want(',');
                        let b = r.op();
                        let (a, b) = (self.value(&t, &a, &env), self.value(&t, &b, &env));
                        Self::lift2(a, b, &|a, b| {
                            let (a, b) = (Self::f(a), Self::f(b));
                            V::F(match op.as_str() {
                                "fadd" => a + b,
                                "fsub" => a - b,
                                "fmul" => a * b,
                                _ => a / b,
                            })
                        })
                    }
                    "fneg" => {
                        r.flags();
                        let (t, o) = r.typed();
                        let a = self.value(&t, &o, &env);
                        Self::lift1(a, &|a| V::F(-Self::f(a)))
                    }
                    "fcmp" | "icmp" => {
                        r.flags();
                        let p = r.word();
                        let t = r.ty();
                        let a = r.op();
                        r.want(',');
                        let b = r.op();
                        let (a, b) = (self.value(&t, &a, &env), self.value(&t, &b, &env));
                        if op == "fcmp" {
                            Self::lift2(a, b, &|a, b| V::I(Self::fcmp(&p, Self::f(a), Self::f(b)) as u128, 1))
                        } else {
                            Self::lift2(a, b, &|a, b| {
                                if let (V::P(x, i), V::P(y, j)) = (&a, &b) {
                                    return match p.as_str() {
                                        "eq" => V::I(((x, i) == (y, j)) as u128, 1),
                                        "ne" => V::I(((x, i) != (y, j)) as u128, 1),
                                        _ => unsupported("order of addresses"),
                                    };
                                }
                                let ((x, n), (y, _)) = (Self::i(a), Self::i(b));
                                let (sx, sy) = (signed(x, n), signed(y, n));
                                let r = match p.as_str() {
                                    "eq" => x == y,
                                    "ne" => x != y,
                                    "ult" => x < y,
                                    "ule" => x <= y,
                                    "ugt" => x > y,
                                    "uge" => x >= y,
                                    "slt" => sx < sy,
                                    "sle" => sx <= sy,
                                    "sgt" => sx > sy,
                                    _ => sx >= sy,
                                };
                                V::I(r as u128, 1)
                            })
                        }
                    }
                    "add" | "sub" | "mul" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "udiv" | "urem" | "sdiv" | "srem" => {
                        r.flags();
                        let t = r.ty();
                        let a = r.op();
                        r.want(',');
                        let b = r.op();
                        let (a, b) = (self.value(&t, &a, &env), self.value(&t, &b, &env));
                        Self::lift2(a, b, &|a, b| Self::arith(&op, a, b))
                    }
                    "trunc" | "zext" | "sext" | "fpext" | "fptrunc" | "sitofp" | "uitofp" | "fptosi" | "fptoui" | "bitcast" => {
                        r.flags();
                        let (t, o) = r.typed();
                        if !r.eat_w("to") {
                            unsupported(op);
                        }
                        let to = r.ty();
                        let to = if let Ty::Vec(_, e) = &to { (**e).clone() } else { to };
                        let a = self.value(&t, &o, &env);
                        Self::lift1(a, &|a| match (op.as_str(), a, &to) {
                            ("trunc" | "zext", V::I(k, _), Ty::I(b)) => V::I(mask(k, *b), *b),
                            ("sext", V::I(k, n), Ty::I(b)) => V::I(mask(signed(k, n) as u128, *b), *b),
                            ("fpext" | "fptrunc", V::F(s), _) => V::F(s),
                            ("sitofp", V::I(k, n), _) => V::F(int(signed(k, n))),
                            ("uitofp", V::I(k, _), _) => V::F(int(k as i128)),
                            ("fptosi" | "fptoui", V::F(s), Ty::I(b)) => match constant(s) {
                                Some(r) => V::I(mask((r.n / r.d) as u128, *b), *b),
                                None => unsupported(&op),
                            },
                            _ => unsupported(&op),
                        })
                    }
                    "freeze" => {
                        let (t, o) = r.typed();
                        self.value(&t, &o, &env)
                    }
                    "select" => {
                        r.flags();
                        let (t, o) = r.typed();
                        let c = self.value(&t, &o, &env);
                        r.want(',');
                        let (t, o) = r.typed();
                        let a = self.value(&t, &o, &env);
                        r.want(',');
                        let (t, o) = r.typed();
                        let b = self.value(&t, &o, &env);
                        match (c, a, b) {
                            (V::Agg(c), V::Agg(a), V::Agg(b)) => {
                                V::Agg(c.into_iter().zip(a.into_iter().zip(b)).map(|(c, (a, b))| if Self::bool(c) { a } else { b }).collect())
                            }
                            (c, a, b) => if Self::bool(c) { a } else { b },
                        }
                    }
                    "br" => {
                        if r.is_w("label") {
                            next = Some(r.label());
                        } else {
                            let (t, o) = r.typed();
                            let c = Self::bool(self.value(&t, &o, &env));
                            r.want(',');
                            let a = r.label();
                            r.want(',');
                            let b = r.label();
                            next = Some(if c { a } else { b });
                        }
                        break;
                    }
                    "switch" => {
                        let (t, o) = r.typed();
                        let (k, _) = Self::i(self.value(&t, &o, &env));
                        r.want(',');
                        let mut to = r.label();
                        r.want('[');
                        while !r.eat(']') {
                            let (t, o) = r.typed();
                            r.want(',');
                            let l = r.label();
                            if Self::i(self.value(&t, &o, &env)).0 == k {
                                to = l;
                            }
                        }
                        next = Some(to);
                        break;
                    }
                    "ret" => {
                        let t = r.ty();
                        if t == Ty::Void {
                            return V::Undef;
                        }
                        let o = r.op();
                        return self.value(&t, &o, &env);
                    }
                    "unreachable" => panic!("FAULT: reached what should be unreachable"),
                    "extractvalue" | "insertvalue" => {
                        let (t, o) = r.typed();
                        let mut a = self.value(&t, &o, &env);
                        r.want(',');
                        let mut new = None;
                        if op == "insertvalue" {
                            let (t, o) = r.typed();
                            new = Some(self.value(&t, &o, &env));
                            r.want(',');
                        }
                        let mut path = vec![];
                        while let Some(Tok::W(w)) = r.peek() {
                            path.push(w.parse::<usize>().unwrap_or_else(|_| unsupported("index")));
                            r.i += 1;
                            if !r.eat(',') {
                                break;
                            }
                        }
                        fn blank(v: &V, t: &Ty) -> V {
                            match (v, t) {
                                (V::Undef, Ty::Arr(..) | Ty::Vec(..) | Ty::St(..)) => V::Agg(fields(t).iter().map(|(_, f)| blank(&V::Undef, f)).collect()),
                                _ => v.clone(),
                            }
                        }
                        a = blank(&a, &t);
                        let mut p = &mut a;
                        for k in path {
                            let V::Agg(v) = p else { unsupported("extractvalue") };
                            p = &mut v[k];
                        }
                        match new {
                            Some(n) => {
                                *p = n;
                                a
                            }
                            None => p.clone(),
                        }
                    }
                    "extractelement" | "insertelement" => {
                        let (t, o) = r.typed();
                        let Ty::Vec(n, _) = t else { unsupported(op) };
                        let mut a = match self.value(&t, &o, &env) {
                            V::Agg(v) => v,
                            _ => vec![V::Undef; n],
                        };
                        r.want(',');
                        let mut new = None;
                        if op == "insertelement" {
                            let (t, o) = r.typed();
                            new = Some(self.value(&t, &o, &env));
                            r.want(',');
                        }
                        let (t, o) = r.typed();
                        let k = Self::i(self.value(&t, &o, &env)).0 as usize;
                        match new {
                            Some(v) => {
                                a[k] = v;
                                V::Agg(a)
                            }
                            None => a[k].clone(),
                        }
                    }
                    "shufflevector" => {
                        let mut all = vec![];
                        for _ in 0..2 {
                            let (t, o) = r.typed();
                            let Ty::Vec(n, _) = t else { unsupported(op) };
                            match self.value(&t, &o, &env) {
                                V::Agg(v) => all.extend(v),
                                _ => all.extend(vec![V::Undef; n]),
                            }
                            r.want(',');
                        }
                        let (t, o) = r.typed();
                        let Ty::Vec(n, _) = t else { unsupported(op) };
                        match self.value(&t, &o, &env) {
                            V::Agg(m) => V::Agg(m.into_iter().map(|k| match k {
                                V::I(k, _) => all[k as usize].clone(),
                                _ => V::Undef,
                            }).collect()),
                            _ => V::Agg(vec![V::Undef; n]),
                        }
                    }
                    "alloca" => V::P(self.alloc(), 0),
                    "load" => {
                        r.flags();
                        let t = r.ty();
                        r.want(',');
                        let (pt, o) = r.typed();
                        let V::P(obj, off) = self.value(&pt, &o, &env) else { unsupported("load") };
                        self.load(&t, obj, off)
                    }
                    "store" => {
                        r.flags();
                        let (t, o) = r.typed();
                        let v = self.value(&t, &o, &env);
                        r.want(',');
                        let (pt, o) = r.typed();
                        let V::P(obj, off) = self.value(&pt, &o, &env) else { unsupported("store") };
                        self.store(v, &t, obj, off);
                        V::Undef
                    }
                    "getelementptr" => {
                        r.flags();
                        let mut t = r.ty();
                        r.want(',');
                        let (pt, o) = r.typed();
                        let V::P(obj, mut off) = self.value(&pt, &o, &env) else { unsupported("getelementptr") };
                        let mut first = true;
                        while r.eat(',') {
                            if !matches!(r.peek(), Some(Tok::W(_))) {
                                break;
                            }
                            let (it, o) = r.typed();
                            let (k, b) = Self::i(self.value(&it, &o, &env));
                            let k = signed(k, b) as i64;
                            if first {
                                off += k * size(&t) as i64;
                            } else {
                                match &t {
                                    Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                        off += k * size(e) as i64;
                                        t = (**e).clone();
                                    }
                                    _ => {
                                        let (o, e) = fields(&t)[k as usize].clone();
                                        off += o as i64;
                                        t = e;
                                    }
                                }
                            }
                            first = false;
                        }
                        V::P(obj, off)
                    }
                    "call" | "invoke" => {
                        r.flags();
                        // calling convention and attributes of the result
                        while let Some(Tok::W(w)) = r.peek() {
                            if Rd::scalar(w).is_some() {
                                break;
                            }
                            r.i += 1;
                            if r.is('(') {
                                r.group();
                            }
                        }
                        r.ty();
                        if r.is('(') {
                            r.group(); // a full function type
                        }
                        let name = match r.peek() {
                            Some(Tok::G(n)) => n.clone(),
                            Some(Tok::L(n)) => match env.get(n) {
                                Some(V::Fn(f)) => f.clone(),
                                _ => unsupported("call of an address"),
                            },
                            t => unsupported(format!("call of {t:?}")),
                        };
                        r.i += 1;
                        r.want('(');
                        let mut args = vec![];
                        if name.starts_with("llvm.dbg") || name.starts_with("llvm.lifetime") || name.starts_with("llvm.experimental") || name.starts_with("llvm.assume") {
                            continue;
                        }
                        while !r.eat(')') {
                            let (t, o) = r.typed();
                            args.push(self.value(&t, &o, &env));
                            r.eat(',');
                        }
                        let v = self.call(&name, args);
                        if op == "invoke" {
                            while r.peek().is_some() && !r.eat_w("to") {
                                r.i += 1;
                            }
                            next = Some(r.label());
                            if let Some(d) = &dst {
                                env.insert(d.clone(), v);
                            }
                            break;
                        }
                        v
                    }
                    _ => unsupported(op),
                };
                if let Some(d) = dst {
                    env.insert(d, v);
                }
            }
            let Some(n) = next else { unsupported("a block without an end") };
            let Some((k, _)) = f.blocks.get_key_value(&n) else { unsupported(format!("block {n}")) };
            prev = cur;
            cur = k;
        }
    }
}

/// The modules named in the environment variable SYMX_LLVM (separated by colons).
pub fn modules() -> Module {
    let list = std::env::var("SYMX_LLVM").unwrap_or_default();
    let texts: Vec<String> = list.split(':').filter(|p| !p.is_empty()).map(|p| std::fs::read_to_string(p).unwrap_or_default()).collect();
    Module::read(&texts)
}
