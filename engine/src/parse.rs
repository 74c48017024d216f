//! Parser for LLVM textual IR as printed by llvm-dis (subset emitted by rustc + opt).
use crate::big::Big;
use crate::ir::*;
use std::collections::HashMap;

pub struct P<'a> {
    s: &'a [u8],
    i: usize,
    types: HashMap<String, Ty>,
}

type R<X> = Result<X, String>;

fn idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

struct FnCtx {
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}
impl FnCtx {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn label(&mut self, n: &str) -> u32 {
        if let Some(r) = self.labels.get(n) {
            return *r;
        }
        let r = self.labels.len() as u32;
        self.labels.insert(n.to_string(), r);
        r
    }
}

impl<'a> P<'a> {
    pub fn new(s: &'a [u8]) -> P<'a> {
        P { s, i: 0, types: HashMap::new() }
    }
    fn err<X>(&self, m: &str) -> R<X> {
        let st = self.s[..self.i.min(self.s.len())].iter().rposition(|c| *c == b'\n').map_or(0, |x| x + 1);
        let en = self.s[self.i.min(self.s.len())..].iter().position(|c| *c == b'\n').map_or(self.s.len(), |x| x + self.i);
        let line = String::from_utf8_lossy(&self.s[st..en]);
        Err(format!("{} at col {}: {}", m, self.i - st, &line.chars().take(400).collect::<String>()))
    }
    fn pk(&self) -> u8 {
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
    }
    fn wsn(&mut self) {
        loop {
            while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() {
                self.i += 1;
            }
            if self.pk() == b';' {
                self.eol();
            } else {
                break;
            }
        }
    }
    fn eol(&mut self) {
        while self.i < self.s.len() && self.s[self.i] != b'\n' {
            self.i += 1;
        }
    }
    fn lit(&mut self, x: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(x.as_bytes()) {
            self.i += x.len();
            true
        } else {
            false
        }
    }
    /// keyword: literal not followed by an identifier char
    fn kw(&mut self, x: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(x.as_bytes()) {
            let n = self.i + x.len();
            if n >= self.s.len() || !idc(self.s[n]) {
                self.i = n;
                return true;
            }
        }
        false
    }
    fn exp(&mut self, x: &str) -> R<()> {
        if self.lit(x) {
            Ok(())
        } else {
            self.err(&format!("expected '{}'", x))
        }
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && idc(self.s[self.i]) {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        let i = self.i;
        let w = self.word();
        self.i = i;
        w
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.pk() {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.pk() != b'"' {
                        self.i += 1;
                    }
                }
                0 => return,
                _ => {}
            }
            self.i += 1;
        }
    }
    /// name after % or @, possibly quoted
    fn name(&mut self) -> R<String> {
        if self.pk() == b'"' {
            self.i += 1;
            let st = self.i;
            while self.pk() != b'"' {
                self.i += 1;
            }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).to_string();
            self.i += 1;
            Ok(r)
        } else {
            let st = self.i;
            while self.i < self.s.len() && idc(self.s[self.i]) {
                self.i += 1;
            }
            if st == self.i {
                return self.err("name");
            }
            Ok(String::from_utf8_lossy(&self.s[st..self.i]).to_string())
        }
    }
    fn uint(&mut self) -> R<u64> {
        self.ws();
        let st = self.i;
        while self.pk().is_ascii_digit() {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap().parse().or_else(|_| self.err("uint"))
    }
    fn at_type(&mut self) -> bool {
        self.ws();
        match self.pk() {
            b'{' | b'[' | b'<' | b'%' => true,
            b'i' => {
                let w = self.peek_word();
                w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())
            }
            _ => matches!(self.peek_word(), "ptr" | "void" | "label" | "metadata" | "float" | "double" | "half" | "token" | "x86_fp80" | "fp128"),
        }
    }
    pub fn ty(&mut self) -> R<Ty> {
        self.ws();
        let t = match self.pk() {
            b'{' => {
                self.i += 1;
                Ty::Struct(self.ty_list(b'}')?, false)
            }
            b'<' => {
                self.i += 1;
                self.ws();
                if self.pk() == b'{' {
                    self.i += 1;
                    let l = self.ty_list(b'}')?;
                    self.exp(">")?;
                    Ty::Struct(l, true)
                } else {
                    let n = self.uint()?;
                    self.exp("x")?;
                    let t = self.ty()?;
                    self.exp(">")?;
                    Ty::Vector(n, Box::new(t))
                }
            }
            b'[' => {
                self.i += 1;
                let n = self.uint()?;
                self.exp("x")?;
                let t = self.ty()?;
                self.exp("]")?;
                Ty::Array(n, Box::new(t))
            }
            b'%' => {
                self.i += 1;
                let n = self.name()?;
                match self.types.get(&n) {
                    Some(t) => t.clone(),
                    None => Ty::Other,
                }
            }
            _ => {
                let w = self.word();
                match w {
                    "ptr" => {
                        if self.kw("addrspace") {
                            self.skip_parens();
                        }
                        Ty::Ptr
                    }
                    "void" => Ty::Void,
                    "float" => Ty::Float(32),
                    "double" => Ty::Float(64),
                    "half" => Ty::Float(16),
                    "fp128" | "x86_fp80" => Ty::Float(128),
                    "label" | "metadata" | "token" | "opaque" => Ty::Other,
                    _ if w.starts_with('i') => match w[1..].parse() {
                        Ok(n) => Ty::Int(n),
                        Err(_) => return self.err("type"),
                    },
                    _ => return self.err("type"),
                }
            }
        };
        Ok(t)
    }
    fn ty_list(&mut self, end: u8) -> R<Vec<Ty>> {
        let mut v = vec![];
        self.ws();
        if self.pk() == end {
            self.i += 1;
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            self.ws();
            if self.pk() == b',' {
                self.i += 1;
            } else if self.pk() == end {
                self.i += 1;
                return Ok(v);
            } else {
                return self.err("type list");
            }
        }
    }
    /// skip parameter / return attributes
    fn attrs(&mut self) {
        loop {
            self.ws();
            if self.pk() == b'"' {
                // "key"="value"
                self.i += 1;
                while self.pk() != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                if self.pk() == b'=' {
                    self.i += 2;
                    while self.pk() != b'"' {
                        self.i += 1;
                    }
                    self.i += 1;
                }
                continue;
            }
            if !self.pk().is_ascii_lowercase() {
                return;
            }
            let w = self.peek_word();
            let known = matches!(
                w,
                "noundef" | "nonnull" | "noalias" | "nocapture" | "readonly" | "writeonly" | "readnone" | "zeroext" | "signext" | "inreg" | "returned" | "sret" | "byval" | "byref" | "align" | "dereferenceable" | "dereferenceable_or_null" | "captures" | "range" | "nofree" | "nest" | "immarg" | "initializes" | "dead_on_unwind" | "dead_on_return" | "writable" | "noext" | "swiftself" | "swifterror" | "allocptr" | "allocalign" | "alignstack" | "nofpclass" | "inalloca" | "elementtype" | "preallocated" | "fastcc" | "ccc" | "coldcc" | "preserve_mostcc" | "preserve_allcc" | "tailcc" | "cc" | "reassoc" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "fast"
            );
            if !known {
                return;
            }
            self.word();
            if w == "align" {
                self.ws();
                if self.pk() == b'(' {
                    self.skip_parens();
                } else {
                    let _ = self.uint();
                }
            } else if w == "cc" {
                let _ = self.uint();
            } else if self.pk() == b'(' {
                self.skip_parens();
            }
        }
    }
    fn int_lit(&mut self, w: u32) -> R<Const> {
        self.ws();
        let st = self.i;
        if self.pk() == b'-' {
            self.i += 1;
        }
        if self.s[self.i..].starts_with(b"u0x") || self.s[self.i..].starts_with(b"s0x") {
            self.i += 3;
            let h = self.word();
            return Ok(Const::Int(u128::from_str_radix(h, 16).or_else(|_| self.err("hex"))?));
        }
        while self.pk().is_ascii_digit() {
            self.i += 1;
        }
        let s = std::str::from_utf8(&self.s[st..self.i]).unwrap();
        let b = match Big::parse(s) {
            Some(b) => b,
            None => return self.err("int literal"),
        };
        let b = if b.is_neg() { b.add(&Big::pow2(w)) } else { b };
        Ok(match b.to_u128() {
            Some(x) => Const::Int(x),
            None => Const::Big(b),
        })
    }
    fn cstr(&mut self) -> Vec<u8> {
        // at c"
        self.i += 2;
        let mut v = vec![];
        loop {
            match self.pk() {
                b'"' => {
                    self.i += 1;
                    return v;
                }
                b'\\' => {
                    if self.s[self.i + 1] == b'\\' {
                        v.push(b'\\');
                        self.i += 2;
                    } else {
                        let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                        v.push(u8::from_str_radix(h, 16).unwrap());
                        self.i += 3;
                    }
                }
                c => {
                    v.push(c);
                    self.i += 1;
                }
            }
        }
    }
    fn konst(&mut self, t: &Ty) -> R<Const> {
        self.ws();
        match self.pk() {
            b'@' => {
                self.i += 1;
                Ok(Const::Global(self.name()?))
            }
            b'-' | b'0'..=b'9' => match t {
                Ty::Int(w) => self.int_lit(*w),
                Ty::Float(_) => {
                    self.word();
                    while idc(self.pk()) || self.pk() == b'+' {
                        self.i += 1
                    }
                    Ok(Const::Unsupported("float".into()))
                }
                _ => self.err("int for non-int type"),
            },
            b'c' if self.s[self.i + 1] == b'"' => Ok(Const::Bytes(self.cstr())),
            b'{' => {
                self.i += 1;
                Ok(Const::Agg(self.const_list(b'}')?))
            }
            b'[' => {
                self.i += 1;
                Ok(Const::Agg(self.const_list(b']')?))
            }
            b'<' => {
                self.i += 1;
                self.ws();
                if self.pk() == b'{' {
                    self.i += 1;
                    let l = self.const_list(b'}')?;
                    self.exp(">")?;
                    Ok(Const::Agg(l))
                } else {
                    Ok(Const::Agg(self.const_list(b'>')?))
                }
            }
            _ => {
                let w = self.word();
                match w {
                    "true" => Ok(Const::Int(1)),
                    "false" => Ok(Const::Int(0)),
                    "null" => Ok(Const::Null),
                    "undef" | "poison" => Ok(Const::Undef),
                    "zeroinitializer" => Ok(Const::Zero),
                    "none" => Ok(Const::Zero),
                    "splat" => {
                        self.exp("(")?;
                        let t = self.ty()?;
                        let c = self.konst(&t)?;
                        self.exp(")")?;
                        Ok(Const::Splat(Box::new(c)))
                    }
                    "getelementptr" => {
                        while !self.lit("(") {
                            self.word();
                            self.ws();
                            if self.pk() == b'(' {
                                // inrange(...) or the real paren: real one is followed by a type
                                let sv = self.i;
                                self.i += 1;
                                let is_ty = self.at_type();
                                self.i = sv;
                                if is_ty {
                                    continue;
                                }
                                self.skip_parens();
                            }
                        }
                        let st = self.ty()?;
                        self.exp(",")?;
                        let bt = self.ty()?;
                        let b = self.konst(&bt)?;
                        let mut idx = vec![];
                        while self.lit(",") {
                            let it = self.ty()?;
                            idx.push(self.konst(&it)?);
                        }
                        self.exp(")")?;
                        Ok(Const::Gep(Box::new(b), st, idx))
                    }
                    "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "zext" | "addrspacecast" => {
                        self.exp("(")?;
                        let ft = self.ty()?;
                        let c = self.konst(&ft)?;
                        if !self.kw("to") {
                            return self.err("to");
                        }
                        let _ = self.ty()?;
                        self.exp(")")?;
                        Ok(Const::Cast(Box::new(c)))
                    }
                    "add" | "sub" | "xor" | "mul" | "shl" => {
                        while self.kw("nuw") || self.kw("nsw") {}
                        self.exp("(")?;
                        let at = self.ty()?;
                        let a = self.konst(&at)?;
                        self.exp(",")?;
                        let bt = self.ty()?;
                        let b = self.konst(&bt)?;
                        self.exp(")")?;
                        let wd = if let Ty::Int(w) = at { w } else { 64 };
                        Ok(Const::Bin(w.to_string(), Box::new(a), Box::new(b), wd))
                    }
                    _ => {
                        if let Ty::Float(_) = t {
                            return Ok(Const::Unsupported("float".into()));
                        }
                        self.err(&format!("constant '{}'", w))
                    }
                }
            }
        }
    }
    fn const_list(&mut self, end: u8) -> R<Vec<(Ty, Const)>> {
        let mut v = vec![];
        self.ws();
        if self.pk() == end {
            self.i += 1;
            return Ok(v);
        }
        loop {
            let t = self.ty()?;
            let c = self.konst(&t)?;
            v.push((t, c));
            self.ws();
            if self.pk() == b',' {
                self.i += 1
            } else if self.pk() == end {
                self.i += 1;
                return Ok(v);
            } else {
                return self.err("const list");
            }
        }
    }
    fn val(&mut self, t: &Ty, f: &mut FnCtx) -> R<Op> {
        self.ws();
        if self.pk() == b'%' {
            self.i += 1;
            let n = self.name()?;
            return Ok(Op::R(f.reg(&n)));
        }
        let c = self.konst(t)?;
        Ok(Op::C(Box::new((t.clone(), c))))
    }
    fn tyval(&mut self, f: &mut FnCtx) -> R<(Ty, Op)> {
        let t = self.ty()?;
        let v = self.val(&t, f)?;
        Ok((t, v))
    }
    fn label_ref(&mut self, f: &mut FnCtx) -> R<u32> {
        if !self.kw("label") {
            return self.err("label");
        }
        self.exp("%")?;
        let n = self.name()?;
        Ok(f.label(&n))
    }

    pub fn module(mut self) -> R<Module> {
        let mut m = Module { funcs: vec![], globals: vec![], aliases: vec![] };
        loop {
            self.wsn();
            if self.i >= self.s.len() {
                break;
            }
            match self.pk() {
                b'@' => self.global(&mut m)?,
                b'%' => {
                    self.i += 1;
                    let n = self.name()?;
                    self.exp("=")?;
                    self.kw("type");
                    let t = self.ty()?;
                    self.types.insert(n, t);
                }
                b'!' | b'$' | b'^' => self.eol(),
                _ => {
                    let w = self.word();
                    match w {
                        "define" => self.function(&mut m, false)?,
                        "declare" => self.function(&mut m, true)?,
                        "source_filename" | "target" | "attributes" | "module" | "uselistorder" => self.eol(),
                        _ => return self.err(&format!("toplevel '{}'", w)),
                    }
                }
            }
        }
        Ok(m)
    }
    fn global(&mut self, m: &mut Module) -> R<()> {
        self.i += 1;
        let name = self.name()?;
        self.exp("=")?;
        let mut external = false;
        loop {
            let w = self.word();
            match w {
                "global" | "constant" => {
                    let ty = self.ty()?;
                    let init = if external { None } else { Some(self.konst(&ty)?) };
                    let mut align = ty.align();
                    // , section "x", align N, !md
                    while self.lit(",") {
                        if self.kw("align") {
                            align = self.uint()?;
                        } else {
                            while self.pk() != b',' && self.pk() != b'\n' {
                                self.i += 1;
                            }
                        }
                    }
                    self.eol();
                    m.globals.push(Global { name, ty, init, align, constant: w == "constant" });
                    return Ok(());
                }
                "alias" => {
                    let _ = self.ty()?;
                    self.exp(",")?;
                    let t = self.ty()?;
                    let c = self.konst(&t)?;
                    m.aliases.push((name, c));
                    self.eol();
                    return Ok(());
                }
                "external" | "extern_weak" => external = true,
                "ifunc" => {
                    self.eol();
                    return Ok(());
                }
                "" => return self.err("global"),
                _ => {
                    if self.pk() == b'(' {
                        self.skip_parens();
                    }
                }
            }
        }
    }
    fn function(&mut self, m: &mut Module, decl: bool) -> R<()> {
        // linkage, cc, ret attrs
        loop {
            self.attrs();
            if self.at_type() {
                break;
            }
            let w = self.word();
            if w.is_empty() {
                // metadata attachment on declare: `declare !md ...`
                if self.pk() == b'!' {
                    while self.pk() != b' ' {
                        self.i += 1;
                    }
                    self.ws();
                    if self.pk() == b'!' {
                        continue;
                    }
                    continue;
                }
                return self.err("function header");
            }
        }
        let _ret = self.ty()?;
        self.exp("@")?;
        let name = self.name()?;
        let mut f = FnCtx { regs: HashMap::new(), labels: HashMap::new() };
        let mut params = vec![];
        self.exp("(")?;
        let mut unnamed = 0;
        if !self.lit(")") {
            loop {
                if self.lit("...") {
                } else {
                    let _t = self.ty()?;
                    self.attrs();
                    self.ws();
                    if self.pk() == b'%' {
                        self.i += 1;
                        let n = self.name()?;
                        params.push(f.reg(&n));
                    } else {
                        params.push(f.reg(&unnamed.to_string()));
                        unnamed += 1;
                    }
                }
                if self.lit(",") {
                    continue;
                }
                self.exp(")")?;
                break;
            }
        }
        if decl {
            self.eol();
            m.funcs.push(Func { name, params, nregs: 0, blocks: vec![], is_decl: true });
            return Ok(());
        }
        // skip to '{' at end of line
        let en = self.s[self.i..].iter().position(|c| *c == b'\n').unwrap() + self.i;
        if self.s[en - 1] != b'{' {
            return self.err("no body");
        }
        self.i = en + 1;
        // entry label: the first unnamed block is numbered right after params unless explicit
        let nparams = f.regs.keys().filter(|k| k.bytes().all(|c| c.is_ascii_digit())).count();
        let mut blocks: Vec<Block> = vec![];
        let mut cur: Option<u32> = None;
        loop {
            self.wsn();
            if self.pk() == b'}' {
                self.i += 1;
                break;
            }
            // label?
            let sv = self.i;
            let mut is_label = false;
            let mut lname = String::new();
            if self.pk() == b'"' {
                lname = self.name()?;
                is_label = self.pk() == b':';
            } else if idc(self.pk()) {
                lname = self.word().to_string();
                is_label = self.pk() == b':';
            }
            if is_label {
                self.i += 1;
                cur = Some(f.label(&lname));
                self.eol();
                continue;
            }
            self.i = sv;
            let b = match cur {
                Some(b) => b,
                None => {
                    let b = f.label(&nparams.to_string());
                    cur = Some(b);
                    b
                }
            };
            while blocks.len() <= b as usize {
                blocks.push(Block::default());
            }
            self.inst(&mut f, &mut blocks, b)?;
        }
        while blocks.len() < f.labels.len() {
            blocks.push(Block::default());
        }
        // the entry block must be block 0: it is, unless an earlier label was referenced first (impossible)
        m.funcs.push(Func { name, params, nregs: f.regs.len() as u32, blocks, is_decl: false });
        Ok(())
    }
    fn inst(&mut self, f: &mut FnCtx, blocks: &mut Vec<Block>, b: u32) -> R<()> {
        let mut d = NOREG;
        if self.pk() == b'%' {
            self.i += 1;
            let n = self.name()?;
            self.exp("=")?;
            d = f.reg(&n);
        }
        let st = self.i;
        let w = self.word();
        let ins = match w {
            "phi" => {
                let t = self.ty()?;
                let mut inc = vec![];
                loop {
                    self.exp("[")?;
                    let v = self.val(&t, f)?;
                    self.exp(",")?;
                    self.exp("%")?;
                    let n = self.name()?;
                    let l = f.label(&n);
                    self.exp("]")?;
                    inc.push((l, v));
                    if !self.lit(",") {
                        break;
                    }
                    self.ws();
                    if self.pk() == b'!' {
                        break;
                    }
                }
                blocks[b as usize].phis.push((d, inc));
                self.eol();
                return Ok(());
            }
            "alloca" => {
                self.kw("inalloca");
                let t = self.ty()?;
                let mut align = t.align();
                let mut n = None;
                while self.lit(",") {
                    if self.kw("align") {
                        align = self.uint()?;
                    } else if self.pk() == b'!' || { self.ws(); self.pk() == b'!' } {
                        break;
                    } else {
                        let (_, v) = self.tyval(f)?;
                        n = Some(v);
                    }
                }
                Inst::Alloca { d, size: t.alloc_size(), align, n }
            }
            "load" => {
                self.kw("atomic");
                self.kw("volatile");
                let ty = self.ty()?;
                self.exp(",")?;
                let (_, p) = self.tyval(f)?;
                Inst::Load { d, ty, p }
            }
            "store" => {
                self.kw("atomic");
                self.kw("volatile");
                let (ty, v) = self.tyval(f)?;
                self.exp(",")?;
                let (_, p) = self.tyval(f)?;
                Inst::Store { ty, v, p }
            }
            "getelementptr" => {
                while self.kw("inbounds") || self.kw("nuw") || self.kw("nusw") {}
                let t = self.ty()?;
                self.exp(",")?;
                let (_, base) = self.tyval(f)?;
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur: Option<Ty> = None; // None: first index scales by sizeof(t)
                while self.lit(",") {
                    self.ws();
                    if self.pk() == b'!' {
                        break;
                    }
                    let (it, iv) = self.tyval(f)?;
                    let iw = if let Ty::Int(w) = it { w } else { 64 };
                    let ci = match &iv {
                        Op::C(c) => match &c.1 {
                            Const::Int(x) => Some(sext(*x, iw)),
                            Const::Zero | Const::Null | Const::Undef => Some(0),
                            _ => None,
                        },
                        _ => None,
                    };
                    let (scale, next) = match &cur {
                        None => (t.alloc_size() as i64, t.clone()),
                        Some(c) => match c {
                            Ty::Struct(..) => {
                                let k = match ci {
                                    Some(k) => k as usize,
                                    None => return self.err("struct gep index"),
                                };
                                off += c.field_offset(k) as i64;
                                cur = Some(c.elem(k).clone());
                                continue;
                            }
                            Ty::Array(_, e) | Ty::Vector(_, e) => (e.alloc_size() as i64, (**e).clone()),
                            _ => return self.err("gep into scalar"),
                        },
                    };
                    match ci {
                        Some(k) => off += k * scale,
                        None => idx.push((iv, iw, scale)),
                    }
                    cur = Some(next);
                }
                Inst::Gep { d, base, off, idx }
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                let (mut nuw, mut nsw, mut disjoint) = (false, false, false);
                loop {
                    if self.kw("nuw") {
                        nuw = true
                    } else if self.kw("nsw") {
                        nsw = true
                    } else if self.kw("disjoint") {
                        disjoint = true
                    } else if self.kw("exact") {
                    } else {
                        break;
                    }
                }
                let (t, a) = self.tyval(f)?;
                self.exp(",")?;
                let bb = self.val(&t, f)?;
                let (wd, lanes) = match &t {
                    Ty::Int(w) => (*w, 0),
                    Ty::Ptr => (64, 0),
                    Ty::Vector(n, e) => (if let Ty::Int(w) = **e { w } else { 64 }, *n as u32),
                    _ => return self.err("bin type"),
                };
                let op = match w {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem,
                    "srem" => BinOp::SRem,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    "ashr" => BinOp::AShr,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    _ => BinOp::Xor,
                };
                Inst::Bin { d, op, w: wd, a, b: bb, nuw, nsw, disjoint, lanes }
            }
            "icmp" => {
                self.kw("samesign");
                let p = self.word();
                let pr = match p {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => return self.err("icmp pred"),
                };
                let (t, a) = self.tyval(f)?;
                self.exp(",")?;
                let bb = self.val(&t, f)?;
                let (wd, lanes) = match &t {
                    Ty::Int(w) => (*w, 0),
                    Ty::Ptr => (64, 0),
                    Ty::Vector(n, e) => (if let Ty::Int(w) = **e { w } else { 64 }, *n as u32),
                    _ => return self.err("icmp type"),
                };
                Inst::Icmp { d, p: pr, w: wd, a, b: bb, lanes }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                while self.kw("nuw") || self.kw("nsw") || self.kw("nneg") {}
                let (from, a) = self.tyval(f)?;
                if !self.kw("to") {
                    return self.err("to");
                }
                let to = self.ty()?;
                let op = match w {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "ptrtoint" | "ptrtoaddr" => CastOp::PtrToInt,
                    "inttoptr" => CastOp::IntToPtr,
                    _ => CastOp::BitCast,
                };
                Inst::Cast { d, op, from, to, a }
            }
            "select" => {
                self.attrs();
                let (_, c) = self.tyval(f)?;
                self.exp(",")?;
                let (ty, a) = self.tyval(f)?;
                self.exp(",")?;
                let (_, bb) = self.tyval(f)?;
                Inst::Select { d, ty, c, a, b: bb }
            }
            "freeze" => {
                let (_, a) = self.tyval(f)?;
                Inst::Copy { d, a }
            }
            "extractvalue" => {
                let (_, a) = self.tyval(f)?;
                let mut idx = vec![];
                while self.lit(",") {
                    self.ws();
                    if self.pk() == b'!' {
                        break;
                    }
                    idx.push(self.uint()? as u32);
                }
                Inst::ExtractValue { d, a, idx }
            }
            "insertvalue" => {
                let (ty, a) = self.tyval(f)?;
                self.exp(",")?;
                let (_, v) = self.tyval(f)?;
                let mut idx = vec![];
                while self.lit(",") {
                    self.ws();
                    if self.pk() == b'!' {
                        break;
                    }
                    idx.push(self.uint()? as u32);
                }
                Inst::InsertValue { d, a, v, idx, ty }
            }
            "extractelement" => {
                let (_, a) = self.tyval(f)?;
                self.exp(",")?;
                let (_, i) = self.tyval(f)?;
                Inst::ExtractElt { d, a, i }
            }
            "insertelement" => {
                let (t, a) = self.tyval(f)?;
                self.exp(",")?;
                let (_, v) = self.tyval(f)?;
                self.exp(",")?;
                let (_, i) = self.tyval(f)?;
                Inst::InsertElt { d, a, v, i, n: t.count() }
            }
            "shufflevector" => {
                let (t, a) = self.tyval(f)?;
                self.exp(",")?;
                let (_, bb) = self.tyval(f)?;
                self.exp(",")?;
                let (_, mask) = self.tyval(f)?;
                Inst::Shuffle { d, a, b: bb, mask, n: t.count() }
            }
            "atomicrmw" => {
                self.kw("volatile");
                let op = self.word().to_string();
                let (_, p) = self.tyval(f)?;
                self.exp(",")?;
                let (ty, v) = self.tyval(f)?;
                Inst::AtomicRmw { d, op, ty, p, v }
            }
            "cmpxchg" => {
                self.kw("weak");
                self.kw("volatile");
                let (_, p) = self.tyval(f)?;
                self.exp(",")?;
                let (ty, c) = self.tyval(f)?;
                self.exp(",")?;
                let (_, n) = self.tyval(f)?;
                Inst::CmpXchg { d, ty, p, c, n }
            }
            "fence" => Inst::Nop,
            "br" => {
                if self.peek_word() == "label" {
                    let l = self.label_ref(f)?;
                    Inst::Br(l)
                } else {
                    let (_, c) = self.tyval(f)?;
                    self.exp(",")?;
                    let t = self.label_ref(f)?;
                    self.exp(",")?;
                    let e = self.label_ref(f)?;
                    Inst::CondBr { c, t, f: e }
                }
            }
            "switch" => {
                let (t, v) = self.tyval(f)?;
                let wd = if let Ty::Int(w) = t { w } else { return self.err("switch type") };
                self.exp(",")?;
                let def = self.label_ref(f)?;
                self.exp("[")?;
                let mut cases = vec![];
                loop {
                    self.wsn();
                    if self.pk() == b']' {
                        self.i += 1;
                        break;
                    }
                    let ct = self.ty()?;
                    let c = match self.konst(&ct)? {
                        Const::Int(x) => x,
                        _ => return self.err("switch case"),
                    };
                    self.exp(",")?;
                    let l = self.label_ref(f)?;
                    cases.push((c, l));
                }
                Inst::Switch { w: wd, v, cases, def }
            }
            "ret" => {
                if self.kw("void") {
                    Inst::Ret(None)
                } else {
                    let (_, v) = self.tyval(f)?;
                    Inst::Ret(Some(v))
                }
            }
            "unreachable" => Inst::Unreachable,
            "tail" | "musttail" | "notail" => {
                self.kw("call");
                self.call(f, d, false)?
            }
            "call" => self.call(f, d, false)?,
            "invoke" => self.call(f, d, true)?,
            "landingpad" => {
                // clauses may follow on separate lines
                self.eol();
                loop {
                    let sv = self.i;
                    self.wsn();
                    let wd = self.peek_word();
                    if wd == "cleanup" || wd == "catch" || wd == "filter" {
                        self.eol();
                    } else {
                        self.i = sv;
                        break;
                    }
                }
                Inst::Unsupported("landingpad".into())
            }
            "resume" => Inst::Unsupported("resume".into()),
            _ => {
                self.i = st;
                let e = self.s[self.i..].iter().position(|c| *c == b'\n').unwrap() + self.i;
                let l = String::from_utf8_lossy(&self.s[st..e]).to_string();
                Inst::Unsupported(l)
            }
        };
        blocks[b as usize].insts.push(ins);
        self.eol();
        Ok(())
    }
    fn call(&mut self, f: &mut FnCtx, d: u32, invoke: bool) -> R<Inst> {
        self.attrs();
        if self.kw("addrspace") {
            self.skip_parens();
        }
        let ret = self.ty()?;
        self.ws();
        if self.pk() == b'(' {
            self.skip_parens(); // full function type
        }
        self.ws();
        let mut name = String::new();
        let callee = match self.pk() {
            b'@' => {
                self.i += 1;
                let n = self.name()?;
                name = n.clone();
                Callee::Direct(n)
            }
            b'%' => {
                self.i += 1;
                let n = self.name()?;
                Callee::Ind(Op::R(f.reg(&n)))
            }
            _ => {
                if self.kw("asm") {
                    let e = self.s[self.i..].iter().position(|c| *c == b'\n').unwrap() + self.i;
                    let l = String::from_utf8_lossy(&self.s[self.i..e]).to_string();
                    // empty asm (black_box) is a no-op
                    if l.trim_start().starts_with("sideeffect \"\"") || l.trim_start().starts_with("\"\"") {
                        return Ok(Inst::Nop);
                    }
                    return Ok(Inst::Unsupported(format!("asm {}", l)));
                }
                let c = self.konst(&Ty::Ptr)?;
                Callee::Ind(Op::C(Box::new((Ty::Ptr, c))))
            }
        };
        self.exp("(")?;
        let mut args = vec![];
        if !self.lit(")") {
            loop {
                let t = self.ty()?;
                if t == Ty::Other {
                    // metadata argument: skip to , or ) at depth 0
                    let mut dep = 0;
                    loop {
                        match self.pk() {
                            b'(' => dep += 1,
                            b')' if dep == 0 => break,
                            b')' => dep -= 1,
                            b',' if dep == 0 => break,
                            _ => {}
                        }
                        self.i += 1;
                    }
                } else {
                    self.attrs();
                    let v = self.val(&t, f)?;
                    args.push(v);
                }
                if self.lit(",") {
                    continue;
                }
                self.exp(")")?;
                break;
            }
        }
        let mut normal = None;
        if invoke {
            // fn attrs / bundles up to "to label"
            loop {
                self.wsn();
                if self.kw("to") {
                    break;
                }
                if self.pk() == b'(' || self.pk() == b'[' {
                    if self.pk() == b'(' {
                        self.skip_parens()
                    } else {
                        while self.pk() != b']' {
                            self.i += 1
                        }
                        self.i += 1
                    }
                    continue;
                }
                self.i += 1;
            }
            normal = Some(self.label_ref(f)?);
            self.wsn();
            if !self.kw("unwind") {
                return self.err("unwind");
            }
            let _ = self.label_ref(f)?;
        }
        Ok(Inst::Call { d, callee, args, ret, normal, name })
    }
}

pub fn sext(x: u128, w: u32) -> i64 {
    if w >= 128 {
        x as i128 as i64
    } else {
        let s = 128 - w;
        (((x << s) as i128) >> s) as i64
    }
}
