//! Executable GraphQL documents: syntax tree, parser, printer. Independent of the code under test.
use std::collections::BTreeMap;
use std::fmt::Write;

/// JSON with ordered objects.
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Float(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(o) => o.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(a) => a,
            _ => &[],
        }
    }
    pub fn is_null(&self) -> bool {
        matches!(self, J::Null)
    }
    pub fn s(s: impl Into<String>) -> J {
        J::Str(s.into())
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
    fn write(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => write!(out, "{b}").unwrap(),
            J::Int(i) => write!(out, "{i}").unwrap(),
            J::Float(f) => {
                if f.fract() == 0.0 && f.abs() < 1e15 {
                    write!(out, "{f:.1}").unwrap()
                } else {
                    write!(out, "{f}").unwrap()
                }
            }
            J::Str(s) => quote(s, out),
            J::Arr(a) => {
                out.push('[');
                for (i, v) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    v.write(out);
                }
                out.push(']');
            }
            J::Obj(o) => {
                out.push('{');
                for (i, (k, v)) in o.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    quote(k, out);
                    out.push(':');
                    v.write(out);
                }
                out.push('}');
            }
        }
    }
    /// Same data, keys sorted.
    pub fn sorted(&self) -> J {
        match self {
            J::Arr(a) => J::Arr(a.iter().map(J::sorted).collect()),
            J::Obj(o) => {
                let m: BTreeMap<_, _> = o.iter().map(|(k, v)| (k.clone(), v.sorted())).collect();
                J::Obj(m.into_iter().collect())
            }
            o => o.clone(),
        }
    }
    pub fn parse(bytes: &[u8]) -> Result<J, String> {
        let mut p = Json { b: bytes, i: 0 };
        let v = p.value(0)?;
        p.ws();
        if p.i != bytes.len() {
            return Err(format!("trailing bytes at {}", p.i));
        }
        Ok(v)
    }
}

fn quote(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => write!(out, "\\u{:04x}", c as u32).unwrap(),
            c => out.push(c),
        }
    }
    out.push('"');
}

struct Json<'a> {
    b: &'a [u8],
    i: usize,
}

impl Json<'_> {
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\n' | b'\r' | b'\t') {
            self.i += 1;
        }
    }
    fn lit(&mut self, s: &str, v: J) -> Result<J, String> {
        if self.b[self.i..].starts_with(s.as_bytes()) {
            self.i += s.len();
            Ok(v)
        } else {
            Err(format!("bad literal at {}", self.i))
        }
    }
    fn string(&mut self) -> Result<String, String> {
        let start = self.i;
        self.i += 1;
        while self.i < self.b.len() && self.b[self.i] != b'"' {
            self.i += if self.b[self.i] == b'\\' { 2 } else { 1 };
        }
        self.i += 1;
        let raw = self.b.get(start..self.i).ok_or("unterminated string")?;
        serde_json::from_slice(raw).map_err(|e| format!("bad string at {start}: {e}"))
    }
    fn value(&mut self, depth: usize) -> Result<J, String> {
        if depth > 200 {
            return Err("too deep".into());
        }
        self.ws();
        match self.b.get(self.i) {
            None => Err("unexpected end".into()),
            Some(b'n') => self.lit("null", J::Null),
            Some(b't') => self.lit("true", J::Bool(true)),
            Some(b'f') => self.lit("false", J::Bool(false)),
            Some(b'"') => self.string().map(J::Str),
            Some(b'[') => {
                self.i += 1;
                let mut a = Vec::new();
                loop {
                    self.ws();
                    if self.b.get(self.i) == Some(&b']') && a.is_empty() {
                        self.i += 1;
                        return Ok(J::Arr(a));
                    }
                    a.push(self.value(depth + 1)?);
                    self.ws();
                    match self.b.get(self.i) {
                        Some(b',') => self.i += 1,
                        Some(b']') => {
                            self.i += 1;
                            return Ok(J::Arr(a));
                        }
                        _ => return Err(format!("bad array at {}", self.i)),
                    }
                }
            }
            Some(b'{') => {
                self.i += 1;
                let mut o: Vec<(String, J)> = Vec::new();
                loop {
                    self.ws();
                    match self.b.get(self.i) {
                        Some(b'}') if o.is_empty() => {
                            self.i += 1;
                            return Ok(J::Obj(o));
                        }
                        Some(b'"') => {}
                        _ => return Err(format!("bad object at {}", self.i)),
                    }
                    let k = self.string()?;
                    self.ws();
                    if self.b.get(self.i) != Some(&b':') {
                        return Err(format!("missing colon at {}", self.i));
                    }
                    self.i += 1;
                    let v = self.value(depth + 1)?;
                    if o.iter().any(|(n, _)| *n == k) {
                        return Err(format!("key {k} twice in an object"));
                    }
                    o.push((k, v));
                    self.ws();
                    match self.b.get(self.i) {
                        Some(b',') => self.i += 1,
                        Some(b'}') => {
                            self.i += 1;
                            return Ok(J::Obj(o));
                        }
                        _ => return Err(format!("bad object at {}", self.i)),
                    }
                }
            }
            Some(_) => {
                let start = self.i;
                while self.i < self.b.len() && matches!(self.b[self.i], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') {
                    self.i += 1;
                }
                let t = std::str::from_utf8(&self.b[start..self.i]).unwrap();
                if let Ok(i) = t.parse::<i64>() {
                    return Ok(J::Int(i));
                }
                t.parse::<f64>().map(J::Float).map_err(|_| format!("bad number at {start}"))
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Var(String),
    Null,
    Bool(bool),
    Int(i64),
    Float(f64),
    Str(String),
    Enum(String),
    List(Vec<Val>),
    Obj(Vec<(String, Val)>),
}

#[derive(Clone, Debug)]
pub struct Dir {
    pub name: String,
    pub args: Vec<(String, Val)>,
}

#[derive(Clone, Debug)]
pub enum Sel {
    Field { alias: Option<String>, name: String, args: Vec<(String, Val)>, dirs: Vec<Dir>, sub: Vec<Sel> },
    Inline { on: Option<String>, dirs: Vec<Dir>, sub: Vec<Sel> },
    Spread { name: String, dirs: Vec<Dir> },
}

#[derive(Clone, Debug)]
pub struct VarDef {
    pub name: String,
    pub ty: String,
    pub default: Option<Val>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Query,
    Mutation,
    Subscription,
}

impl Kind {
    pub fn root(self) -> &'static str {
        match self {
            Kind::Query => "Query",
            Kind::Mutation => "Mutation",
            Kind::Subscription => "Subscription",
        }
    }
}

#[derive(Clone, Debug)]
pub struct Op {
    pub kind: Kind,
    pub name: Option<String>,
    pub vars: Vec<VarDef>,
    pub sel: Vec<Sel>,
    pub frags: BTreeMap<String, (String, Vec<Sel>)>,
}

impl Op {
    pub fn print(&self) -> String {
        let mut s = String::new();
        s.push_str(match self.kind {
            Kind::Query => "query",
            Kind::Mutation => "mutation",
            Kind::Subscription => "subscription",
        });
        if let Some(n) = &self.name {
            write!(s, " {n}").unwrap();
        }
        if !self.vars.is_empty() {
            s.push('(');
            for (i, v) in self.vars.iter().enumerate() {
                if i > 0 {
                    s.push_str(", ");
                }
                write!(s, "${}: {}", v.name, v.ty).unwrap();
                if let Some(d) = &v.default {
                    s.push_str(" = ");
                    print_val(d, &mut s);
                }
            }
            s.push(')');
        }
        print_sel(&self.sel, &mut s);
        for (n, (on, sel)) in &self.frags {
            write!(s, " fragment {n} on {on}").unwrap();
            print_sel(sel, &mut s);
        }
        s
    }
}

fn print_args(args: &[(String, Val)], s: &mut String) {
    if args.is_empty() {
        return;
    }
    s.push('(');
    for (i, (n, v)) in args.iter().enumerate() {
        if i > 0 {
            s.push_str(", ");
        }
        write!(s, "{n}: ").unwrap();
        print_val(v, s);
    }
    s.push(')');
}

fn print_dirs(dirs: &[Dir], s: &mut String) {
    for d in dirs {
        write!(s, " @{}", d.name).unwrap();
        print_args(&d.args, s);
    }
}

fn print_sel(sel: &[Sel], s: &mut String) {
    if sel.is_empty() {
        return;
    }
    s.push_str(" {");
    for x in sel {
        s.push(' ');
        match x {
            Sel::Field { alias, name, args, dirs, sub } => {
                if let Some(a) = alias {
                    write!(s, "{a}: ").unwrap();
                }
                s.push_str(name);
                print_args(args, s);
                print_dirs(dirs, s);
                print_sel(sub, s);
            }
            Sel::Inline { on, dirs, sub } => {
                s.push_str("...");
                if let Some(on) = on {
                    write!(s, " on {on}").unwrap();
                }
                print_dirs(dirs, s);
                print_sel(sub, s);
            }
            Sel::Spread { name, dirs } => {
                write!(s, "...{name}").unwrap();
                print_dirs(dirs, s);
            }
        }
    }
    s.push_str(" }");
}

pub fn print_val(v: &Val, s: &mut String) {
    match v {
        Val::Var(n) => write!(s, "${n}").unwrap(),
        Val::Null => s.push_str("null"),
        Val::Bool(b) => write!(s, "{b}").unwrap(),
        Val::Int(i) => write!(s, "{i}").unwrap(),
        Val::Float(f) => write!(s, "{f:?}").unwrap(),
        Val::Str(x) => quote(x, s),
        Val::Enum(e) => s.push_str(e),
        Val::List(l) => {
            s.push('[');
            for (i, x) in l.iter().enumerate() {
                if i > 0 {
                    s.push_str(", ");
                }
                print_val(x, s);
            }
            s.push(']');
        }
        Val::Obj(o) => {
            s.push('{');
            for (i, (k, x)) in o.iter().enumerate() {
                if i > 0 {
                    s.push_str(", ");
                }
                write!(s, "{k}: ").unwrap();
                print_val(x, s);
            }
            s.push('}');
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    P(char),
    Dots,
    Name(String),
    Int(i64),
    Float(f64),
    Str(String),
}

fn lex(src: &str) -> Result<Vec<Tok>, String> {
    let b = src.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let c = b[i] as char;
        match c {
            ' ' | '\n' | '\r' | '\t' | ',' => i += 1,
            '#' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            '.' if src[i..].starts_with("...") => {
                out.push(Tok::Dots);
                i += 3;
            }
            '!' | '$' | '(' | ')' | ':' | '=' | '@' | '[' | ']' | '{' | '}' | '|' | '&' => {
                out.push(Tok::P(c));
                i += 1;
            }
            '"' => {
                if src[i..].starts_with("\"\"\"") {
                    let end = src[i + 3..].find("\"\"\"").ok_or("unterminated block string")?;
                    out.push(Tok::Str(src[i + 3..i + 3 + end].trim().to_string()));
                    i += end + 6;
                    continue;
                }
                let start = i;
                i += 1;
                while i < b.len() && b[i] != b'"' {
                    i += if b[i] == b'\\' { 2 } else { 1 };
                }
                i += 1;
                let raw = src.get(start..i).ok_or("unterminated string")?;
                out.push(Tok::Str(serde_json::from_str(raw).map_err(|e| format!("string {raw}: {e}"))?));
            }
            'a'..='z' | 'A'..='Z' | '_' => {
                let start = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                    i += 1;
                }
                out.push(Tok::Name(src[start..i].to_string()));
            }
            '0'..='9' | '-' => {
                let start = i;
                while i < b.len() && matches!(b[i], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') {
                    i += 1;
                }
                let t = &src[start..i];
                match t.parse::<i64>() {
                    Ok(v) => out.push(Tok::Int(v)),
                    Err(_) => out.push(Tok::Float(t.parse().map_err(|_| format!("number {t}"))?)),
                }
            }
            _ => return Err(format!("unexpected character {c:?}")),
        }
    }
    Ok(out)
}

struct Parser {
    t: Vec<Tok>,
    i: usize,
}

type R<T> = Result<T, String>;

impl Parser {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn is(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn eat(&mut self, c: char) -> bool {
        let y = self.is(c);
        if y {
            self.i += 1;
        }
        y
    }
    fn want(&mut self, c: char) -> R<()> {
        if self.eat(c) { Ok(()) } else { Err(format!("expected {c:?}, found {:?}", self.peek())) }
    }
    fn name(&mut self) -> R<String> {
        match self.peek() {
            Some(Tok::Name(n)) => {
                let n = n.clone();
                self.i += 1;
                Ok(n)
            }
            o => Err(format!("expected a name, found {o:?}")),
        }
    }
    fn ty(&mut self) -> R<String> {
        let mut s = if self.eat('[') {
            let inner = self.ty()?;
            self.want(']')?;
            format!("[{inner}]")
        } else {
            self.name()?
        };
        if self.eat('!') {
            s.push('!');
        }
        Ok(s)
    }
    fn val(&mut self) -> R<Val> {
        let t = self.peek().cloned().ok_or("unexpected end")?;
        self.i += 1;
        Ok(match t {
            Tok::P('$') => Val::Var(self.name()?),
            Tok::Int(i) => Val::Int(i),
            Tok::Float(f) => Val::Float(f),
            Tok::Str(s) => Val::Str(s),
            Tok::Name(n) => match n.as_str() {
                "null" => Val::Null,
                "true" => Val::Bool(true),
                "false" => Val::Bool(false),
                _ => Val::Enum(n),
            },
            Tok::P('[') => {
                let mut l = Vec::new();
                while !self.eat(']') {
                    l.push(self.val()?);
                }
                Val::List(l)
            }
            Tok::P('{') => {
                let mut o = Vec::new();
                while !self.eat('}') {
                    let n = self.name()?;
                    self.want(':')?;
                    o.push((n, self.val()?));
                }
                Val::Obj(o)
            }
            o => return Err(format!("unexpected {o:?} in a value")),
        })
    }
    fn args(&mut self) -> R<Vec<(String, Val)>> {
        let mut a = Vec::new();
        if self.eat('(') {
            while !self.eat(')') {
                let n = self.name()?;
                self.want(':')?;
                a.push((n, self.val()?));
            }
        }
        Ok(a)
    }
    fn dirs(&mut self) -> R<Vec<Dir>> {
        let mut d = Vec::new();
        while self.eat('@') {
            let name = self.name()?;
            d.push(Dir { name, args: self.args()? });
        }
        Ok(d)
    }
    fn sels(&mut self) -> R<Vec<Sel>> {
        self.want('{')?;
        let mut out = Vec::new();
        while !self.eat('}') {
            if self.peek() == Some(&Tok::Dots) {
                self.i += 1;
                match self.peek() {
                    Some(Tok::Name(n)) if n != "on" => {
                        let name = self.name()?;
                        out.push(Sel::Spread { name, dirs: self.dirs()? });
                    }
                    Some(Tok::Name(_)) => {
                        self.i += 1;
                        let on = Some(self.name()?);
                        let dirs = self.dirs()?;
                        out.push(Sel::Inline { on, dirs, sub: self.sels()? });
                    }
                    _ => {
                        let dirs = self.dirs()?;
                        out.push(Sel::Inline { on: None, dirs, sub: self.sels()? });
                    }
                }
                continue;
            }
            let mut name = self.name()?;
            let mut alias = None;
            if self.eat(':') {
                alias = Some(std::mem::replace(&mut name, self.name()?));
            }
            let args = self.args()?;
            let dirs = self.dirs()?;
            let sub = if self.is('{') { self.sels()? } else { Vec::new() };
            out.push(Sel::Field { alias, name, args, dirs, sub });
        }
        if out.is_empty() {
            return Err("empty selection set".into());
        }
        Ok(out)
    }
}

pub fn parse(src: &str) -> R<Op> {
    let mut p = Parser { t: lex(src)?, i: 0 };
    let mut op: Option<Op> = None;
    let mut frags = BTreeMap::new();
    while let Some(t) = p.peek().cloned() {
        match t {
            Tok::P('{') => {
                let sel = p.sels()?;
                op = Some(Op { kind: Kind::Query, name: None, vars: vec![], sel, frags: BTreeMap::new() });
            }
            Tok::Name(n) if n == "fragment" => {
                p.i += 1;
                let name = p.name()?;
                if p.name()? != "on" {
                    return Err("fragment without type condition".into());
                }
                let on = p.name()?;
                p.dirs()?;
                let sel = p.sels()?;
                frags.insert(name, (on, sel));
            }
            Tok::Name(n) => {
                p.i += 1;
                let kind = match n.as_str() {
                    "query" => Kind::Query,
                    "mutation" => Kind::Mutation,
                    "subscription" => Kind::Subscription,
                    o => return Err(format!("unexpected {o}")),
                };
                let name = matches!(p.peek(), Some(Tok::Name(_))).then(|| p.name()).transpose()?;
                let mut vars = Vec::new();
                if p.eat('(') {
                    while !p.eat(')') {
                        p.want('$')?;
                        let name = p.name()?;
                        p.want(':')?;
                        let ty = p.ty()?;
                        let default = p.eat('=').then(|| p.val()).transpose()?;
                        p.dirs()?;
                        vars.push(VarDef { name, ty, default });
                    }
                }
                p.dirs()?;
                if op.is_some() {
                    return Err("several operations".into());
                }
                op = Some(Op { kind, name, vars, sel: p.sels()?, frags: BTreeMap::new() });
            }
            o => return Err(format!("unexpected {o:?}")),
        }
    }
    let mut op = op.ok_or("no operation")?;
    op.frags = frags;
    Ok(op)
}
