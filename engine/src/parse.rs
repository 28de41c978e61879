//! Parser for textual LLVM IR (.ll), tolerant to attributes and metadata.
use crate::ir::*;
use std::collections::HashMap;
use std::sync::Arc;

pub struct P<'a> {
    s: &'a [u8],
    p: usize,
    pub m: Module,
    named: HashMap<String, TyId>,
    builtin_ids: HashMap<String, u32>,
    // function local
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    sym_addr: HashMap<String, u64>,
    i8t: TyId,
}

#[derive(Debug)]
pub struct PErr(pub String);
type R<T> = Result<T, PErr>;

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

struct GlobalPend {
    addr: u64,
    ty: TyId,
    init_pos: usize,
}

enum FnPend {
    Def { id: u32, body: usize, params: Vec<(String, TyId)> },
}

impl<'a> P<'a> {
    pub fn new(s: &'a [u8]) -> P<'a> {
        let mut types = Types::default();
        let i8t = types.mk(Type::Int(8));
        P {
            s,
            p: 0,
            m: Module {
                types,
                funcs: vec![],
                func_by_name: HashMap::new(),
                builtins: vec![],
                globals: vec![],
                global_by_name: HashMap::new(),
                quiet: vec![],
                image: vec![],
                addr_func: HashMap::new(),
                errno_addr: 0,
            },
            named: HashMap::new(),
            builtin_ids: HashMap::new(),
            regs: HashMap::new(),
            blocks: HashMap::new(),
            sym_addr: HashMap::new(),
            i8t,
        }
    }
    fn err<T>(&self, m: &str) -> R<T> {
        let a = self.p.saturating_sub(100);
        let b = (self.p + 120).min(self.s.len());
        Err(PErr(format!(
            "{} near: {} <<HERE>> {}",
            m,
            String::from_utf8_lossy(&self.s[a..self.p.min(self.s.len())]),
            String::from_utf8_lossy(&self.s[self.p.min(b)..b])
        )))
    }
    fn ws(&mut self) {
        while self.p < self.s.len() {
            match self.s[self.p] {
                b' ' | b'\t' | b'\r' | b'\n' => self.p += 1,
                b';' => {
                    while self.p < self.s.len() && self.s[self.p] != b'\n' {
                        self.p += 1
                    }
                }
                _ => break,
            }
        }
    }
    /// skip spaces, not newlines
    fn sp(&mut self) {
        while self.p < self.s.len() && (self.s[self.p] == b' ' || self.s[self.p] == b'\t') {
            self.p += 1
        }
    }
    fn line_end(&mut self) {
        while self.p < self.s.len() && self.s[self.p] != b'\n' {
            self.p += 1
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.p < self.s.len() {
            self.s[self.p]
        } else {
            0
        }
    }
    fn eat(&mut self, t: &str) -> bool {
        let save = self.p;
        self.ws();
        if self.s[self.p..].starts_with(t.as_bytes()) {
            // for words make sure that the word ends
            let e = self.p + t.len();
            if t.as_bytes().last().map_or(false, |c| is_id(*c)) && e < self.s.len() && is_id(self.s[e]) {
                self.p = save;
                return false;
            }
            self.p = e;
            true
        } else {
            self.p = save;
            false
        }
    }
    fn expect(&mut self, t: &str) -> R<()> {
        if self.eat(t) {
            Ok(())
        } else {
            self.err(&format!("expected {}", t))
        }
    }
    fn word(&mut self) -> String {
        self.ws();
        let a = self.p;
        while self.p < self.s.len() && is_id(self.s[self.p]) {
            self.p += 1
        }
        String::from_utf8_lossy(&self.s[a..self.p]).into_owned()
    }
    fn peek_word(&mut self) -> String {
        let p = self.p;
        let w = self.word();
        self.p = p;
        w
    }
    fn quoted(&mut self) -> R<Vec<u8>> {
        // at opening quote
        if self.s[self.p] != b'"' {
            return self.err("quote");
        }
        self.p += 1;
        let mut v = vec![];
        while self.s[self.p] != b'"' {
            if self.s[self.p] == b'\\' {
                if self.s[self.p + 1] == b'\\' {
                    v.push(b'\\');
                    self.p += 2;
                } else {
                    let h = std::str::from_utf8(&self.s[self.p + 1..self.p + 3]).unwrap();
                    v.push(u8::from_str_radix(h, 16).map_err(|_| PErr("hex".into()))?);
                    self.p += 3;
                }
            } else {
                v.push(self.s[self.p]);
                self.p += 1;
            }
        }
        self.p += 1;
        Ok(v)
    }
    /// after a sigil % or @
    fn name(&mut self) -> R<String> {
        if self.s[self.p] == b'"' {
            let v = self.quoted()?;
            Ok(String::from_utf8_lossy(&v).into_owned())
        } else {
            let a = self.p;
            while self.p < self.s.len() && is_id(self.s[self.p]) {
                self.p += 1
            }
            Ok(String::from_utf8_lossy(&self.s[a..self.p]).into_owned())
        }
    }
    fn skip_balanced(&mut self) -> R<()> {
        // at an opening bracket
        let mut d = 0;
        loop {
            if self.p >= self.s.len() {
                return self.err("eof in balanced");
            }
            match self.s[self.p] {
                b'(' | b'[' | b'{' => d += 1,
                b')' | b']' | b'}' => d -= 1,
                b'"' => {
                    self.quoted()?;
                    continue;
                }
                _ => {}
            }
            self.p += 1;
            if d == 0 {
                return Ok(());
            }
        }
    }
    fn is_type_word(w: &str) -> bool {
        matches!(w, "void" | "ptr" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "label" | "metadata" | "token" | "opaque")
            || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
    }
    fn at_type(&mut self) -> bool {
        match self.peek() {
            b'<' | b'[' | b'{' | b'%' => true,
            c if c.is_ascii_alphabetic() => {
                let w = self.peek_word();
                Self::is_type_word(&w)
            }
            _ => false,
        }
    }
    fn ty(&mut self) -> R<TyId> {
        let mut t = match self.peek() {
            b'<' => {
                self.p += 1;
                if self.peek() == b'{' {
                    let t = self.struct_body(true)?;
                    self.expect(">")?;
                    t
                } else {
                    let n = self.uint()?;
                    self.expect("x")?;
                    let e = self.ty()?;
                    self.expect(">")?;
                    self.m.types.mk(Type::Vec(n, e))
                }
            }
            b'[' => {
                self.p += 1;
                let n = self.uint()?;
                self.expect("x")?;
                let e = self.ty()?;
                self.expect("]")?;
                self.m.types.mk(Type::Arr(n, e))
            }
            b'{' => self.struct_body(false)?,
            b'%' => {
                self.p += 1;
                let n = self.name()?;
                match self.named.get(&n) {
                    Some(&t) => t,
                    None => return self.err("unknown named type"),
                }
            }
            _ => {
                let w = self.word();
                match w.as_str() {
                    "void" => self.m.types.mk(Type::Void),
                    "ptr" => {
                        if self.eat("addrspace") {
                            self.ws();
                            self.skip_balanced()?;
                        }
                        self.m.types.mk(Type::Ptr)
                    }
                    "float" => self.m.types.mk(Type::Float),
                    "double" => self.m.types.mk(Type::Double),
                    "label" => self.m.types.mk(Type::Label),
                    "metadata" => self.m.types.mk(Type::Meta),
                    "opaque" | "token" | "half" | "fp128" | "x86_fp80" => self.m.types.mk(Type::Opaque),
                    w if w.starts_with('i') => match w[1..].parse::<u32>() {
                        Ok(n) => self.m.types.mk(Type::Int(n)),
                        Err(_) => return self.err("type"),
                    },
                    _ => return self.err("type"),
                }
            }
        };
        // function type?
        self.sp();
        if self.p < self.s.len() && self.s[self.p] == b'(' {
            // lookahead: a function type's parens contain types only
            let save = self.p;
            self.p += 1;
            let mut ps = vec![];
            let mut va = false;
            let mut ok = true;
            loop {
                if self.eat(")") {
                    break;
                }
                if self.eat("...") {
                    va = true;
                    continue;
                }
                if self.eat(",") {
                    continue;
                }
                if !self.at_type() {
                    ok = false;
                    break;
                }
                match self.ty() {
                    Ok(x) => ps.push(x),
                    Err(_) => {
                        ok = false;
                        break;
                    }
                }
                let c = self.peek();
                if c != b',' && c != b')' {
                    ok = false;
                    break;
                }
            }
            if ok {
                t = self.m.types.mk(Type::Func(t, ps, va));
            } else {
                self.p = save;
            }
        }
        Ok(t)
    }
    fn struct_body(&mut self, packed: bool) -> R<TyId> {
        self.expect("{")?;
        let mut f = vec![];
        if !self.eat("}") {
            loop {
                f.push(self.ty()?);
                if self.eat("}") {
                    break;
                }
                self.expect(",")?;
            }
        }
        Ok(self.m.types.mk(Type::Struct(f, packed)))
    }
    fn uint(&mut self) -> R<u64> {
        let w = self.word();
        match w.parse::<u64>() {
            Ok(x) => Ok(x),
            Err(_) => self.err("uint"),
        }
    }
    fn int_const(&mut self, w: u32) -> R<Val> {
        let s = self.word();
        let neg = s.starts_with('-');
        let d = if neg { &s[1..] } else { &s[..] };
        let v: u128 = if let Some(h) = d.strip_prefix("0x") {
            u128::from_str_radix(h, 16).map_err(|_| PErr("int".into()))?
        } else if let Some(h) = d.strip_prefix("u0x") {
            u128::from_str_radix(h, 16).map_err(|_| PErr("int".into()))?
        } else {
            match d.parse() {
                Ok(v) => v,
                Err(_) => return self.err(&format!("int literal {}", s)),
            }
        };
        let v = if neg { v.wrapping_neg() } else { v };
        Ok(mkc(v, w))
    }
    fn float_const(&mut self, t: TyId) -> R<Val> {
        self.ws();
        let a = self.p;
        while self.p < self.s.len() && (is_id(self.s[self.p]) || self.s[self.p] == b'+') {
            self.p += 1
        }
        let s = std::str::from_utf8(&self.s[a..self.p]).unwrap().to_string();
        let is_f = matches!(self.m.types.get(t), Type::Float);
        let d: f64 = if let Some(h) = s.strip_prefix("f0x") {
            let v = u64::from_str_radix(h, 16).map_err(|_| PErr(format!("float {}", s)))?;
            return Ok(Val::C(v));
        } else if let Some(h) = s.strip_prefix("0x") {
            let v = u64::from_str_radix(h, 16).map_err(|_| PErr(format!("float {}", s)))?;
            f64::from_bits(v)
        } else {
            match s.as_str() {
                "+inf" => f64::INFINITY,
                "-inf" => f64::NEG_INFINITY,
                "+qnan" | "+nan" => f64::NAN,
                "-qnan" | "-nan" => -f64::NAN,
                _ => match s.parse() {
                    Ok(d) => d,
                    Err(_) => return self.err(&format!("float literal {}", s)),
                },
            }
        };
        Ok(Val::C(if is_f { (d as f32).to_bits() as u64 } else { d.to_bits() }))
    }
    fn sym(&mut self, n: &str) -> u64 {
        if let Some(&a) = self.sym_addr.get(n) {
            return a;
        }
        // unknown: treat as null (extern_weak)
        0
    }
    /// constant of type t
    fn konst(&mut self, t: TyId) -> R<Val> {
        match self.peek() {
            b'@' => {
                self.p += 1;
                let n = self.name()?;
                return Ok(Val::C(self.sym(&n)));
            }
            b'c' if self.s[self.p + 1] == b'"' => {
                self.p += 1;
                let v = self.quoted()?;
                return Ok(Val::Agg(Arc::new(v.into_iter().map(|b| Val::C(b as u64)).collect())));
            }
            b'[' => {
                self.p += 1;
                return self.agg_elems("]");
            }
            b'{' => {
                self.p += 1;
                return self.agg_elems("}");
            }
            b'<' => {
                self.p += 1;
                if self.peek() == b'{' {
                    self.p += 1;
                    let v = self.agg_elems("}")?;
                    self.expect(">")?;
                    return Ok(v);
                }
                return self.agg_elems(">");
            }
            _ => {}
        }
        let c = self.s[self.p];
        if c.is_ascii_digit() || c == b'-' || c == b'+' {
            return match self.m.types.get(t).clone() {
                Type::Int(w) => self.int_const(w),
                Type::Float | Type::Double => self.float_const(t),
                _ => self.err("number constant for type"),
            };
        }
        let save = self.p;
        let w = self.word();
        match w.as_str() {
            "null" | "undef" | "poison" | "zeroinitializer" | "none" => Ok(self.m.types.zero(t)),
            "false" => Ok(Val::C(0)),
            "true" => Ok(Val::C(1)),
            "splat" => {
                self.expect("(")?;
                let et = self.ty()?;
                let v = self.konst(et)?;
                self.expect(")")?;
                let n = self.m.types.nelem(t);
                Ok(Val::Agg(Arc::new(vec![v; n])))
            }
            "getelementptr" => {
                while self.peek() != b'(' {
                    self.word();
                    if self.peek() == b'(' {
                        // inrange(...)
                        let sv = self.p;
                        self.skip_balanced()?;
                        if self.peek() != b'(' {
                            self.p = sv;
                            break;
                        }
                    }
                }
                self.expect("(")?;
                let st = self.ty()?;
                self.expect(",")?;
                let pt = self.ty()?;
                let base = self.konst(pt)?;
                let mut a = cval(&base);
                let mut cur = st;
                let mut first = true;
                while self.eat(",") {
                    let it = self.ty()?;
                    let iv = self.konst(it)?;
                    let w = match self.m.types.get(it) {
                        Type::Int(w) => *w,
                        _ => 64,
                    };
                    let idx = sext(cval(&iv), w);
                    if first {
                        a = a.wrapping_add((idx as u64).wrapping_mul(self.m.types.size(cur)));
                        first = false;
                    } else {
                        match self.m.types.get(cur).clone() {
                            Type::Struct(..) => {
                                let (o, t2) = self.m.types.field_off(cur, idx as usize);
                                a = a.wrapping_add(o);
                                cur = t2;
                            }
                            Type::Arr(_, e) | Type::Vec(_, e) => {
                                a = a.wrapping_add((idx as u64).wrapping_mul(self.m.types.size(e)));
                                cur = e;
                            }
                            _ => return self.err("const gep"),
                        }
                    }
                }
                self.expect(")")?;
                Ok(Val::C(a))
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "trunc" | "ptrtoaddr" => {
                self.expect("(")?;
                let ft = self.ty()?;
                let v = self.konst(ft)?;
                self.expect("to")?;
                let tt = self.ty()?;
                self.expect(")")?;
                if w == "trunc" {
                    if let Type::Int(n) = self.m.types.get(tt) {
                        let n = *n;
                        return Ok(mkc(cval(&v) as u128, n));
                    }
                }
                Ok(v)
            }
            "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" => {
                while self.peek() != b'(' {
                    self.word();
                }
                self.expect("(")?;
                let t1 = self.ty()?;
                let a = self.konst(t1)?;
                self.expect(",")?;
                let t2 = self.ty()?;
                let b = self.konst(t2)?;
                self.expect(")")?;
                let (x, y) = (cval(&a), cval(&b));
                let r = match w.as_str() {
                    "add" => x.wrapping_add(y),
                    "sub" => x.wrapping_sub(y),
                    "mul" => x.wrapping_mul(y),
                    "xor" => x ^ y,
                    "and" => x & y,
                    "or" => x | y,
                    _ => x.wrapping_shl(y as u32),
                };
                let n = match self.m.types.get(t1) {
                    Type::Int(n) => *n,
                    _ => 64,
                };
                Ok(mkc(r as u128, n))
            }
            "f0x" => self.err("float"),
            _ => {
                self.p = save;
                if matches!(self.m.types.get(t), Type::Float | Type::Double) {
                    return self.float_const(t);
                }
                self.err(&format!("constant {}", w))
            }
        }
    }
    fn agg_elems(&mut self, end: &str) -> R<Val> {
        let mut v = vec![];
        if self.eat(end) {
            return Ok(Val::Agg(Arc::new(v)));
        }
        loop {
            let t = self.ty()?;
            v.push(self.konst(t)?);
            if self.eat(end) {
                break;
            }
            self.expect(",")?;
        }
        Ok(Val::Agg(Arc::new(v)))
    }
    fn reg(&mut self, n: String) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn operand(&mut self, t: TyId) -> R<Opnd> {
        if self.peek() == b'%' {
            self.p += 1;
            let n = self.name()?;
            Ok(Opnd::R(self.reg(n)))
        } else {
            Ok(Opnd::K(self.konst(t)?))
        }
    }
    fn tyop(&mut self) -> R<(TyId, Opnd)> {
        let t = self.ty()?;
        Ok((t, self.operand(t)?))
    }
    fn label(&mut self) -> R<u32> {
        self.expect("label")?;
        self.ws();
        self.expect("%")?;
        let n = self.name()?;
        self.blk(n)
    }
    fn blk(&mut self, n: String) -> R<u32> {
        match self.blocks.get(&n) {
            Some(&b) => Ok(b),
            None => self.err(&format!("block {}", n)),
        }
    }
    fn is_const_word(w: &str) -> bool {
        matches!(
            w,
            "null" | "undef" | "poison" | "zeroinitializer" | "none" | "true" | "false" | "splat" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" | "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "asm" | "c" | "ptrtoaddr"
        )
    }
    /// skip attributes (words, word(...), #n, strings) until something else; returns byval size if seen
    fn skip_attrs(&mut self) -> R<Option<u64>> {
        let mut byval = None;
        loop {
            match self.peek() {
                b'#' => {
                    self.p += 1;
                    self.word();
                }
                b'"' => {
                    self.quoted()?;
                    if self.eat("=") {
                        self.ws();
                        self.quoted()?;
                    }
                }
                c if c.is_ascii_alphabetic() => {
                    let w = self.peek_word();
                    if Self::is_type_word(&w) || Self::is_const_word(&w) || w == "to" || w == "unwind" || w == "personality" || w == "section" || w == "comdat" || w == "gc" {
                        // "align", etc never collide with these
                        if w != "c" {
                            return Ok(byval);
                        }
                    }
                    self.word();
                    self.sp();
                    if w == "align" && self.s[self.p].is_ascii_digit() {
                        self.word();
                    } else if self.p < self.s.len() && self.s[self.p] == b'(' {
                        if w == "byval" {
                            self.p += 1;
                            let t = self.ty()?;
                            byval = Some(self.m.types.size(t));
                            self.expect(")")?;
                        } else {
                            self.skip_balanced()?;
                        }
                    } else if w == "cc" {
                        self.word();
                    }
                }
                _ => return Ok(byval),
            }
        }
    }
    fn builtin(&mut self, n: &str) -> u32 {
        if let Some(&i) = self.builtin_ids.get(n) {
            return i;
        }
        let i = self.m.builtins.len() as u32;
        self.m.builtins.push(n.to_string());
        self.builtin_ids.insert(n.to_string(), i);
        i
    }

    pub fn module(mut self) -> R<Module> {
        // pass 1: collect symbols
        let mut gaddr = GLOBAL_BASE + 0x1000;
        let mut taddr = TLS_BASE + 0x1000;
        let mut faddr = FUNC_BASE;
        let mut gpend: Vec<GlobalPend> = vec![];
        let mut fpend: Vec<FnPend> = vec![];
        loop {
            self.ws();
            if self.p >= self.s.len() {
                break;
            }
            match self.s[self.p] {
                b'@' => {
                    self.p += 1;
                    let n = self.name()?;
                    self.expect("=")?;
                    let mut tls = false;
                    let mut external = false;
                    let mut weak_ext = false;
                    let constant;
                    loop {
                        let w = self.peek_word();
                        match w.as_str() {
                            "global" => {
                                self.word();
                                constant = false;
                                break;
                            }
                            "constant" => {
                                self.word();
                                constant = true;
                                break;
                            }
                            "alias" | "ifunc" => return self.err("alias unsupported"),
                            "thread_local" => {
                                self.word();
                                tls = true;
                                self.sp();
                                if self.s[self.p] == b'(' {
                                    self.skip_balanced()?;
                                }
                            }
                            "external" => {
                                self.word();
                                external = true;
                            }
                            "extern_weak" => {
                                self.word();
                                weak_ext = true;
                            }
                            "" => return self.err("global"),
                            _ => {
                                self.word();
                                self.sp();
                                if self.s[self.p] == b'(' {
                                    self.skip_balanced()?;
                                }
                            }
                        }
                    }
                    let t = self.ty()?;
                    if weak_ext {
                        self.sym_addr.insert(n, 0);
                        self.line_end();
                        continue;
                    }
                    let size = self.m.types.size(t);
                    let init_pos = if external { 0 } else { self.p };
                    // find alignment in the rest of the line
                    self.ws();
                    let ls = self.p;
                    // skip initializer: strings may contain anything, but no newline
                    self.line_end();
                    let line = &self.s[ls..self.p];
                    let mut al = self.m.types.align(t);
                    if let Some(i) = find_last(line, b", align ") {
                        let mut k = i + 8;
                        let mut a = 0u64;
                        while k < line.len() && line[k].is_ascii_digit() {
                            a = a * 10 + (line[k] - b'0') as u64;
                            k += 1;
                        }
                        if a > 0 {
                            al = a;
                        }
                    }
                    let ap = if tls { &mut taddr } else { &mut gaddr };
                    *ap = (*ap + al - 1) / al * al;
                    let addr = *ap;
                    *ap += size.max(1) + 16;
                    self.sym_addr.insert(n.clone(), addr);
                    self.m.global_by_name.insert(n.clone(), addr);
                    if ["tracing", "CALLSITE", "panic_count", "std_detect", "backtrace"].iter().any(|q| n.contains(q)) {
                        self.m.quiet.push((addr, addr + size.max(1)));
                    }
                    self.m.globals.push(Global { name: n, addr, size, tls, constant });
                    if !external {
                        gpend.push(GlobalPend { addr, ty: t, init_pos });
                    }
                }
                b'%' => {
                    self.p += 1;
                    let n = self.name()?;
                    self.expect("=")?;
                    self.expect("type")?;
                    if self.eat("opaque") {
                        let t = self.m.types.mk(Type::Opaque);
                        self.named.insert(n, t);
                    } else {
                        let t = self.ty()?;
                        self.named.insert(n, t);
                    }
                }
                b'!' | b'$' => self.line_end(),
                _ => {
                    let w = self.peek_word();
                    match w.as_str() {
                        "define" | "declare" => {
                            self.word();
                            let weak = self.peek_word() == "extern_weak";
                            self.skip_attrs()?;
                            let ret = {
                                // return type may be followed by attributes? attributes come before it
                                self.ret_ty()?
                            };
                            self.ws();
                            self.expect("@")?;
                            let n = self.name()?;
                            self.expect("(")?;
                            let mut params = vec![];
                            let mut byv = vec![];
                            let mut k = 0;
                            loop {
                                if self.eat(")") {
                                    break;
                                }
                                if self.eat(",") {
                                    continue;
                                }
                                if self.eat("...") {
                                    continue;
                                }
                                let t = self.ty()?;
                                let bv = self.skip_attrs()?;
                                let nm = if self.peek() == b'%' {
                                    self.p += 1;
                                    self.name()?
                                } else {
                                    format!("{}", k)
                                };
                                k += 1;
                                params.push((nm, t));
                                byv.push(bv);
                            }
                            if w == "declare" {
                                self.line_end();
                                if weak {
                                    self.sym_addr.insert(n, 0);
                                    continue;
                                }
                                let b = self.builtin(&n);
                                faddr += 16;
                                self.sym_addr.insert(n, faddr);
                                self.m.addr_func.insert(faddr, Callee::Builtin(b));
                            } else {
                                // skip to "{" at end of this line
                                self.line_end();
                                let body = self.p + 1;
                                // find "\n}\n"
                                let e = find_from(self.s, b"\n}", self.p);
                                self.p = e + 2;
                                faddr += 16;
                                let id = self.m.funcs.len() as u32;
                                self.sym_addr.insert(n.clone(), faddr);
                                self.m.addr_func.insert(faddr, Callee::Func(id));
                                self.m.func_by_name.insert(n.clone(), id);
                                self.m.funcs.push(Func {
                                    name: n,
                                    nparams: params.len() as u32,
                                    nregs: 0,
                                    blocks: vec![],
                                    ret,
                                    params: params.iter().map(|x| x.1).collect(),
                                    param_byval: byv,
                                });
                                fpend.push(FnPend::Def { id, body, params });
                            }
                        }
                        "source_filename" | "target" | "attributes" | "module" | "uselistorder" => self.line_end(),
                        _ => return self.err("top level"),
                    }
                }
            }
        }
        // errno cell
        gaddr = (gaddr + 63) / 64 * 64;
        self.m.errno_addr = gaddr;
        // pass 2: global initialisers
        for g in gpend {
            self.p = g.init_pos;
            let c = self.peek();
            let mut img = vec![0u8; self.m.types.size(g.ty) as usize];
            if c != b',' && c != b'\n' {
                let v = self.konst(g.ty)?;
                write_const(&self.m.types, g.ty, &v, &mut img);
            }
            self.m.image.push((g.addr, img));
        }
        // pass 3: function bodies
        for f in fpend {
            let FnPend::Def { id, body, params } = f;
            self.function(id, body, params)?;
        }
        let _ = self.i8t;
        Ok(self.m)
    }
    fn ret_ty(&mut self) -> R<TyId> {
        // avoid treating "void @f(" as function type: name comes before the paren, so ty() is safe
        self.ty()
    }

    fn function(&mut self, id: u32, body: usize, params: Vec<(String, TyId)>) -> R<()> {
        self.regs.clear();
        self.blocks.clear();
        for (n, _) in &params {
            let n = n.clone();
            self.reg(n);
        }
        // collect block labels
        let end = find_from(self.s, b"\n}", body.saturating_sub(1)) + 1;
        let mut q = body;
        // entry block: label might be implicit (numbered nparams or unnamed)
        let mut labels: Vec<(String, usize)> = vec![];
        let mut first = true;
        while q < end {
            let e = find_from(self.s, b"\n", q);
            let line = &self.s[q..e];
            let is_label = !line.is_empty() && (is_id(line[0]) || line[0] == b'"');
            if is_label {
                let save = self.p;
                self.p = q;
                let n = if line[0] == b'"' {
                    let v = self.quoted()?;
                    String::from_utf8_lossy(&v).into_owned()
                } else {
                    let a = self.p;
                    while is_id(self.s[self.p]) {
                        self.p += 1
                    }
                    String::from_utf8_lossy(&self.s[a..self.p]).into_owned()
                };
                if self.s[self.p] != b':' {
                    return self.err("label");
                }
                self.p = save;
                labels.push((n, e + 1));
                first = false;
            } else if first && line.len() > 2 && line.starts_with(b"  ") {
                let nunnamed = params.iter().filter(|p| p.0.bytes().all(|c| c.is_ascii_digit())).count();
                labels.push((format!("{}", nunnamed), q));
                first = false;
            }
            q = e + 1;
        }
        for (i, l) in labels.iter().enumerate() {
            self.blocks.insert(l.0.clone(), i as u32);
        }
        let mut blocks = Vec::with_capacity(labels.len());
        for i in 0..labels.len() {
            self.p = labels[i].1;
            let mut b = Block::default();
            loop {
                self.ws();
                if self.p >= end || self.s[self.p] == b'}' {
                    break;
                }
                // instruction lines start with two spaces; a label line starts at column 0
                if self.p > 0 && self.s[self.p - 1] == b'\n' {
                    break;
                }
                let start = self.p;
                let done = self.inst(&mut b).map_err(|e| {
                    let le = find_from(self.s, b"\n", start);
                    PErr(format!("{}\n in line: {}", e.0, String::from_utf8_lossy(&self.s[start..le.min(start + 600)])))
                })?;
                // skip the rest of the line (metadata etc.)
                self.line_end();
                if done {
                    break;
                }
            }
            blocks.push(b);
        }
        let f = &mut self.m.funcs[id as usize];
        f.blocks = blocks;
        f.nregs = self.regs.len() as u32;
        Ok(())
    }

    /// parse one instruction; true if it terminates the block
    fn inst(&mut self, b: &mut Block) -> R<bool> {
        let mut dst = u32::MAX;
        if self.s[self.p] == b'%' {
            self.p += 1;
            let n = self.name()?;
            dst = self.reg(n);
            self.expect("=")?;
        }
        let op = self.word();
        let mut term = false;
        let ins = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.flags();
                let t = self.ty()?;
                let a = self.operand(t)?;
                self.expect(",")?;
                let c = self.operand(t)?;
                let o = match op.as_str() {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem,
                    "srem" => BinOp::SRem,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    "xor" => BinOp::Xor,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    "ashr" => BinOp::AShr,
                    "fadd" => BinOp::FAdd,
                    "fsub" => BinOp::FSub,
                    "fmul" => BinOp::FMul,
                    "fdiv" => BinOp::FDiv,
                    _ => BinOp::FRem,
                };
                Inst::Bin(o, t, a, c)
            }
            "fneg" => {
                self.flags();
                let (t, a) = self.tyop()?;
                Inst::FNeg(t, a)
            }
            "icmp" => {
                self.eat("samesign");
                let p = self.word();
                let pr = match p.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => return self.err("icmp pred"),
                };
                let t = self.ty()?;
                let a = self.operand(t)?;
                self.expect(",")?;
                let c = self.operand(t)?;
                Inst::ICmp(pr, t, a, c)
            }
            "fcmp" => {
                let mut p = self.word();
                while matches!(p.as_str(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                    p = self.word();
                }
                let t = self.ty()?;
                let a = self.operand(t)?;
                self.expect(",")?;
                let c = self.operand(t)?;
                Inst::FCmp(p, t, a, c)
            }
            "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "addrspacecast" => {
                self.flags();
                let (t, a) = self.tyop()?;
                self.expect("to")?;
                let t2 = self.ty()?;
                let o = match op.as_str() {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "fptrunc" => CastOp::FpTrunc,
                    "fpext" => CastOp::FpExt,
                    "fptoui" => CastOp::FpToUi,
                    "fptosi" => CastOp::FpToSi,
                    "uitofp" => CastOp::UiToFp,
                    "sitofp" => CastOp::SiToFp,
                    "ptrtoint" | "ptrtoaddr" => CastOp::PtrToInt,
                    "inttoptr" => CastOp::IntToPtr,
                    _ => CastOp::BitCast,
                };
                Inst::Cast(o, t, t2, a)
            }
            "getelementptr" => {
                loop {
                    let w = self.peek_word();
                    if matches!(w.as_str(), "inbounds" | "nuw" | "nusw" | "nsw") {
                        self.word();
                    } else if w == "inrange" {
                        self.word();
                        self.ws();
                        self.skip_balanced()?;
                    } else {
                        break;
                    }
                }
                let st = self.ty()?;
                self.expect(",")?;
                let pt = self.ty()?;
                if self.m.types.is_agg(pt) {
                    return self.err("vector gep");
                }
                let base = self.operand(pt)?;
                let mut off = 0i64;
                let mut dy = vec![];
                let mut cur = st;
                let mut first = true;
                while self.eat(",") {
                    if self.peek() == b'!' {
                        break;
                    }
                    let it = self.ty()?;
                    let w = match self.m.types.get(it) {
                        Type::Int(w) => *w,
                        _ => return self.err("gep index type"),
                    };
                    let iv = self.operand(it)?;
                    let scale;
                    if first {
                        scale = self.m.types.size(cur);
                        first = false;
                    } else {
                        match self.m.types.get(cur).clone() {
                            Type::Struct(..) => {
                                let k = match &iv {
                                    Opnd::K(v) => cval(v) as usize,
                                    _ => return self.err("gep struct idx"),
                                };
                                let (o, t2) = self.m.types.field_off(cur, k);
                                off += o as i64;
                                cur = t2;
                                continue;
                            }
                            Type::Arr(_, e) | Type::Vec(_, e) => {
                                scale = self.m.types.size(e);
                                cur = e;
                            }
                            _ => return self.err("gep"),
                        }
                    }
                    match &iv {
                        Opnd::K(v) => off = off.wrapping_add(sext(cval(v), w).wrapping_mul(scale as i64)),
                        _ => dy.push((iv, scale, w)),
                    }
                }
                Inst::Gep(base, off, dy)
            }
            "load" => {
                let at = self.eat("atomic");
                self.eat("volatile");
                let t = self.ty()?;
                self.expect(",")?;
                let (_, p) = self.tyop()?;
                Inst::Load(t, p, at)
            }
            "store" => {
                let at = self.eat("atomic");
                self.eat("volatile");
                let (t, v) = self.tyop()?;
                self.expect(",")?;
                let (_, p) = self.tyop()?;
                Inst::Store(t, v, p, at)
            }
            "alloca" => {
                self.eat("inalloca");
                let t = self.ty()?;
                let mut n = Opnd::K(Val::C(1));
                let mut al = self.m.types.align(t);
                while self.eat(",") {
                    if self.eat("align") {
                        al = self.uint()?;
                    } else if self.peek() == b'!' || self.peek() == b'a' {
                        break;
                    } else {
                        let (_, o) = self.tyop()?;
                        n = o;
                    }
                }
                Inst::Alloca(t, n, al)
            }
            "select" => {
                self.flags();
                let (ct, c) = self.tyop()?;
                self.expect(",")?;
                let (t, a) = self.tyop()?;
                self.expect(",")?;
                let (_, d) = self.tyop()?;
                Inst::Select(ct, t, c, a, d)
            }
            "br" => {
                term = true;
                if self.peek_word() == "label" {
                    Inst::Br(self.label()?)
                } else {
                    let (_, c) = self.tyop()?;
                    self.expect(",")?;
                    let x = self.label()?;
                    self.expect(",")?;
                    let y = self.label()?;
                    Inst::CondBr(c, x, y)
                }
            }
            "switch" => {
                term = true;
                let (t, v) = self.tyop()?;
                self.expect(",")?;
                let d = self.label()?;
                self.expect("[")?;
                let mut cs = vec![];
                while !self.eat("]") {
                    let ct = self.ty()?;
                    let k = self.konst(ct)?;
                    self.expect(",")?;
                    let l = self.label()?;
                    cs.push((k, l));
                }
                Inst::Switch(t, v, d, cs)
            }
            "ret" => {
                term = true;
                let t = self.ty()?;
                if matches!(self.m.types.get(t), Type::Void) {
                    Inst::Ret(None)
                } else {
                    Inst::Ret(Some(self.operand(t)?))
                }
            }
            "unreachable" => {
                term = true;
                Inst::Unreachable
            }
            "resume" => {
                term = true;
                Inst::Unsupported("resume".into())
            }
            "landingpad" => {
                // consume clauses on the following lines
                self.line_end();
                loop {
                    let sv = self.p;
                    self.ws();
                    let w = self.peek_word();
                    if w == "cleanup" || w == "catch" || w == "filter" {
                        self.line_end();
                    } else {
                        self.p = sv;
                        break;
                    }
                }
                // line_end() of the caller must be harmless: we are at a newline
                Inst::Landing
            }
            "tail" | "musttail" | "notail" | "call" => {
                if op != "call" {
                    self.expect("call")?;
                }
                let (cal, args, rt) = self.call_tail()?;
                Inst::Call(cal, args, rt, None)
            }
            "invoke" => {
                term = true;
                let (cal, args, rt) = self.call_tail()?;
                self.skip_attrs()?;
                if self.peek() == b'[' {
                    self.skip_balanced()?;
                }
                self.expect("to")?;
                let l = self.label()?;
                self.expect("unwind")?;
                let _ = self.label()?;
                Inst::Call(cal, args, rt, Some(l))
            }
            "extractvalue" => {
                let (_, a) = self.tyop()?;
                let mut ix = vec![];
                while self.eat(",") {
                    if self.peek() == b'!' {
                        break;
                    }
                    ix.push(self.uint()? as u32);
                }
                Inst::ExtractValue(a, ix)
            }
            "insertvalue" => {
                let (t, a) = self.tyop()?;
                self.expect(",")?;
                let (_, v) = self.tyop()?;
                let mut ix = vec![];
                while self.eat(",") {
                    if self.peek() == b'!' {
                        break;
                    }
                    ix.push(self.uint()? as u32);
                }
                Inst::InsertValue(t, a, v, ix)
            }
            "extractelement" => {
                let (t, a) = self.tyop()?;
                self.expect(",")?;
                let (_, i) = self.tyop()?;
                Inst::ExtractElement(t, a, i)
            }
            "insertelement" => {
                let (t, a) = self.tyop()?;
                self.expect(",")?;
                let (_, v) = self.tyop()?;
                self.expect(",")?;
                let (_, i) = self.tyop()?;
                Inst::InsertElement(t, a, v, i)
            }
            "shufflevector" => {
                let (t, a) = self.tyop()?;
                self.expect(",")?;
                let (_, c) = self.tyop()?;
                self.expect(",")?;
                let mt = self.ty()?;
                let mk = self.konst(mt)?;
                let mask = match mk {
                    Val::Agg(v) => v.iter().map(|x| cval(x) as i32).collect(),
                    _ => return self.err("shuffle mask"),
                };
                Inst::Shuffle(t, a, c, mask)
            }
            "atomicrmw" => {
                self.eat("volatile");
                let o = self.word();
                let ro = match o.as_str() {
                    "xchg" => RmwOp::Xchg,
                    "add" => RmwOp::Add,
                    "sub" => RmwOp::Sub,
                    "and" => RmwOp::And,
                    "nand" => RmwOp::Nand,
                    "or" => RmwOp::Or,
                    "xor" => RmwOp::Xor,
                    "max" => RmwOp::Max,
                    "min" => RmwOp::Min,
                    "umax" => RmwOp::UMax,
                    "umin" => RmwOp::UMin,
                    _ => return self.err("rmw"),
                };
                let (_, p) = self.tyop()?;
                self.expect(",")?;
                let (t, v) = self.tyop()?;
                Inst::Rmw(ro, t, p, v)
            }
            "cmpxchg" => {
                self.eat("weak");
                self.eat("volatile");
                let (_, p) = self.tyop()?;
                self.expect(",")?;
                let (t, c) = self.tyop()?;
                self.expect(",")?;
                let (_, n) = self.tyop()?;
                Inst::CmpXchg(t, p, c, n)
            }
            "fence" => Inst::Fence,
            "freeze" => {
                let (_, a) = self.tyop()?;
                Inst::Freeze(a)
            }
            "phi" => {
                self.flags();
                let t = self.ty()?;
                let mut inc = vec![];
                loop {
                    self.expect("[")?;
                    let v = self.operand(t)?;
                    self.expect(",")?;
                    self.ws();
                    self.expect("%")?;
                    let n = self.name()?;
                    let k = self.blk(n)?;
                    self.expect("]")?;
                    inc.push((k, v));
                    self.sp();
                    if self.s[self.p] == b',' {
                        self.p += 1;
                        if self.peek() != b'[' {
                            break;
                        }
                    } else {
                        break;
                    }
                }
                b.phis.push((dst, inc));
                return Ok(false);
            }
            _ => return self.err(&format!("opcode {}", op)),
        };
        b.insts.push((dst, ins));
        Ok(term)
    }
    fn flags(&mut self) {
        loop {
            let w = self.peek_word();
            if matches!(
                w.as_str(),
                "nsw" | "nuw" | "exact" | "disjoint" | "nneg" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc"
            ) {
                self.word();
            } else {
                break;
            }
        }
    }
    fn call_tail(&mut self) -> R<(Callee, Vec<(TyId, Opnd)>, TyId)> {
        self.flags();
        self.skip_attrs()?;
        let mut t = self.ty()?;
        if let Type::Func(r, _, _) = self.m.types.get(t) {
            t = *r;
        }
        let cal = match self.peek() {
            b'@' => {
                self.p += 1;
                let n = self.name()?;
                match self.sym_addr.get(&n) {
                    Some(a) => match self.m.addr_func.get(a) {
                        Some(c) => c.clone(),
                        None => Callee::Ind(Opnd::K(Val::C(*a))),
                    },
                    None => return self.err("unknown callee"),
                }
            }
            b'%' => {
                self.p += 1;
                let n = self.name()?;
                let r = self.reg(n);
                Callee::Ind(Opnd::R(r))
            }
            _ => {
                if self.eat("asm") {
                    loop {
                        let w = self.peek_word();
                        if w.is_empty() {
                            break;
                        }
                        self.word();
                    }
                    self.ws();
                    let a = self.quoted()?;
                    self.expect(",")?;
                    self.ws();
                    let c = self.quoted()?;
                    Callee::Asm(String::from_utf8_lossy(&a).into_owned(), String::from_utf8_lossy(&c).into_owned())
                } else {
                    let ptr = self.m.types.mk(Type::Ptr);
                    Callee::Ind(Opnd::K(self.konst(ptr)?))
                }
            }
        };
        self.expect("(")?;
        let mut args = vec![];
        loop {
            if self.eat(")") {
                break;
            }
            if self.eat(",") {
                continue;
            }
            let at = self.ty()?;
            if matches!(self.m.types.get(at), Type::Meta) {
                // skip metadata argument
                while self.peek() != b',' && self.peek() != b')' {
                    if self.s[self.p] == b'(' || self.s[self.p] == b'{' {
                        self.skip_balanced()?;
                    } else if self.s[self.p] == b'"' {
                        self.quoted()?;
                    } else {
                        self.p += 1;
                    }
                }
                args.push((at, Opnd::K(Val::C(0))));
                continue;
            }
            self.skip_attrs()?;
            let o = self.operand(at)?;
            args.push((at, o));
        }
        Ok((cal, args, t))
    }
}

pub fn mkc(v: u128, w: u32) -> Val {
    let v = if w >= 128 { v } else { v & ((1u128 << w) - 1) };
    if w <= 64 {
        Val::C(v as u64)
    } else {
        Val::W(Arc::new(v))
    }
}
pub fn cval(v: &Val) -> u64 {
    match v {
        Val::C(x) => *x,
        Val::W(x) => **x as u64,
        _ => panic!("cval of {:?}", v),
    }
}
pub fn sext(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}
fn find_from(s: &[u8], pat: &[u8], from: usize) -> usize {
    let mut i = from;
    while i + pat.len() <= s.len() {
        if s[i] == pat[0] && &s[i..i + pat.len()] == pat {
            return i;
        }
        i += 1;
    }
    s.len()
}
fn find_last(s: &[u8], pat: &[u8]) -> Option<usize> {
    let mut i = s.len().checked_sub(pat.len())?;
    loop {
        if &s[i..i + pat.len()] == pat {
            return Some(i);
        }
        if i == 0 {
            return None;
        }
        i -= 1;
    }
}
pub fn write_const(t: &Types, ty: TyId, v: &Val, out: &mut [u8]) {
    match v {
        Val::C(x) => {
            let n = ((t.bits(ty) + 7) / 8) as usize;
            for i in 0..n.min(out.len()) {
                out[i] = if i < 8 { (x >> (8 * i)) as u8 } else { 0 };
            }
        }
        Val::W(x) => {
            let n = ((t.bits(ty) + 7) / 8) as usize;
            for i in 0..n.min(out.len()) {
                out[i] = (**x >> (8 * i)) as u8;
            }
        }
        Val::Agg(vs) => {
            for (k, e) in vs.iter().enumerate() {
                let (o, et) = t.field_off(ty, k);
                let sz = t.size(et) as usize;
                write_const(t, et, e, &mut out[o as usize..o as usize + sz]);
            }
        }
        Val::S(_) => unreachable!(),
    }
}
