//! Executable-document parser and printer with graphql-parser's AST shape.
use std::{collections::BTreeMap, fmt};

#[derive(Debug)]
pub struct ParseError(String);
impl fmt::Display for ParseError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "query parse error: {}", self.0)
    }
}
impl std::error::Error for ParseError {}

pub trait Text<'a>: Copy + AsRef<str> + Ord + From<&'a str> + 'a {
    type Value: Copy + AsRef<str> + Ord + From<&'a str> + fmt::Debug;
}
impl<'a> Text<'a> for &'a str {
    type Value = &'a str;
}

pub mod schema {
    pub use super::query::{Directive, Value};
}
pub mod query {
    use super::*;
    #[derive(Debug, Clone, PartialEq)]
    pub struct Number(pub i64);
    impl From<i32> for Number {
        fn from(v: i32) -> Self {
            Number(v as i64)
        }
    }
    #[derive(Debug, Clone, PartialEq)]
    pub enum Value<'a, T: Text<'a>> {
        Variable(T),
        Int(Number),
        Float(f64),
        String(String),
        Boolean(bool),
        Null,
        Enum(T::Value),
        List(Vec<Value<'a, T>>),
        Object(BTreeMap<T, Value<'a, T>>),
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct Directive<'a, T: Text<'a>> {
        pub name: T,
        pub arguments: Vec<(T, Value<'a, T>)>,
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct Document<'a, T: Text<'a>> {
        pub definitions: Vec<Definition<'a, T>>,
    }
    #[derive(Debug, Clone, PartialEq)]
    pub enum Definition<'a, T: Text<'a>> {
        Operation(OperationDefinition<'a, T>),
        Fragment(FragmentDefinition<'a, T>),
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct FragmentDefinition<'a, T: Text<'a>> {
        pub name: T,
        pub type_condition: TypeCondition<'a, T>,
        pub directives: Vec<Directive<'a, T>>,
        pub selection_set: SelectionSet<'a, T>,
    }
    #[derive(Debug, Clone, PartialEq)]
    pub enum OperationDefinition<'a, T: Text<'a>> {
        SelectionSet(SelectionSet<'a, T>),
        Query(Operation<'a, T>),
        Mutation(Operation<'a, T>),
        Subscription(Operation<'a, T>),
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct Operation<'a, T: Text<'a>> {
        pub name: Option<T>,
        pub variable_definitions: Vec<VariableDefinition<'a, T>>,
        pub directives: Vec<Directive<'a, T>>,
        pub selection_set: SelectionSet<'a, T>,
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct VariableDefinition<'a, T: Text<'a>> {
        pub name: T,
        pub var_type: String,
        pub default_value: Option<Value<'a, T>>,
        pub directives: Vec<Directive<'a, T>>,
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct SelectionSet<'a, T: Text<'a>> {
        pub items: Vec<Selection<'a, T>>,
    }
    #[derive(Debug, Clone, PartialEq)]
    pub enum Selection<'a, T: Text<'a>> {
        Field(Field<'a, T>),
        FragmentSpread(FragmentSpread<'a, T>),
        InlineFragment(InlineFragment<'a, T>),
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct Field<'a, T: Text<'a>> {
        pub alias: Option<T>,
        pub name: T,
        pub arguments: Vec<(T, Value<'a, T>)>,
        pub directives: Vec<Directive<'a, T>>,
        pub selection_set: SelectionSet<'a, T>,
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct FragmentSpread<'a, T: Text<'a>> {
        pub fragment_name: T,
        pub directives: Vec<Directive<'a, T>>,
    }
    #[derive(Debug, Clone, PartialEq)]
    pub enum TypeCondition<'a, T: Text<'a>> {
        On(T::Value),
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct InlineFragment<'a, T: Text<'a>> {
        pub type_condition: Option<TypeCondition<'a, T>>,
        pub directives: Vec<Directive<'a, T>>,
        pub selection_set: SelectionSet<'a, T>,
    }
}
use query::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Tok<'a> {
    Punct(&'a str),
    Name(&'a str),
    Int(&'a str),
    Float(&'a str),
    Str(&'a str, bool),
}

fn lex(s: &str) -> Result<Vec<Tok<'_>>, ParseError> {
    let b = s.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' | b',' => i += 1,
            0xEF if b[i..].starts_with(&[0xEF, 0xBB, 0xBF]) => i += 3,
            b'#' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1
                }
            }
            b'.' if b[i..].starts_with(b"...") => {
                out.push(Tok::Punct("..."));
                i += 3
            }
            b'{' | b'}' | b'(' | b')' | b'[' | b']' | b':' | b'=' | b'!' | b'$' | b'@' | b'|' | b'&' => {
                out.push(Tok::Punct(&s[i..i + 1]));
                i += 1
            }
            b'"' if b[i..].starts_with(b"\"\"\"") => {
                let st = i + 3;
                let mut j = st;
                loop {
                    if j >= b.len() {
                        return Err(ParseError("unterminated block string".into()));
                    }
                    if b[j..].starts_with(b"\\\"\"\"") {
                        j += 4
                    } else if b[j..].starts_with(b"\"\"\"") {
                        break;
                    } else {
                        j += 1
                    }
                }
                out.push(Tok::Str(&s[st..j], true));
                i = j + 3
            }
            b'"' => {
                let st = i + 1;
                let mut j = st;
                while j < b.len() && b[j] != b'"' {
                    j += if b[j] == b'\\' { 2 } else { 1 }
                }
                if j >= b.len() {
                    return Err(ParseError("unterminated string".into()));
                }
                out.push(Tok::Str(&s[st..j], false));
                i = j + 1
            }
            b'-' | b'0'..=b'9' => {
                let st = i;
                i += 1;
                while i < b.len() && (b[i].is_ascii_digit() || b".eE+-".contains(&b[i])) {
                    i += 1
                }
                let t = &s[st..i];
                out.push(if t.bytes().any(|c| b".eE".contains(&c)) { Tok::Float(t) } else { Tok::Int(t) });
            }
            b'_' | b'a'..=b'z' | b'A'..=b'Z' => {
                let st = i;
                while i < b.len() && (b[i] == b'_' || b[i].is_ascii_alphanumeric()) {
                    i += 1
                }
                out.push(Tok::Name(&s[st..i]));
            }
            _ => return Err(ParseError(format!("unexpected character at {i}"))),
        }
    }
    Ok(out)
}

struct P<'a> {
    t: Vec<Tok<'a>>,
    i: usize,
    depth: usize,
}
type R<T> = Result<T, ParseError>;
impl<'a> P<'a> {
    fn peek(&self) -> Option<Tok<'a>> {
        self.t.get(self.i).copied()
    }
    fn is(&self, p: &str) -> bool {
        matches!(self.peek(), Some(Tok::Punct(x)) if x == p)
    }
    fn eat(&mut self, p: &str) -> bool {
        let r = self.is(p);
        self.i += r as usize;
        r
    }
    fn expect(&mut self, p: &str) -> R<()> {
        if self.eat(p) {
            Ok(())
        } else {
            Err(ParseError(format!("expected {p}, found {:?}", self.peek())))
        }
    }
    fn raw_name(&mut self) -> R<&'a str> {
        self.name::<&'a str>()
    }
    fn name<T: Text<'a>>(&mut self) -> R<T> {
        match self.peek() {
            Some(Tok::Name(n)) => {
                self.i += 1;
                Ok(T::from(n))
            }
            t => Err(ParseError(format!("expected name, found {t:?}"))),
        }
    }
    fn value<T: Text<'a>>(&mut self) -> R<Value<'a, T>> {
        let t = self.peek();
        self.i += 1;
        Ok(match t {
            Some(Tok::Punct("$")) => Value::Variable(self.name()?),
            Some(Tok::Int(n)) => Value::Int(Number(n.parse().map_err(|_| ParseError("bad int".into()))?)),
            Some(Tok::Float(n)) => Value::Float(n.parse().map_err(|_| ParseError("bad float".into()))?),
            Some(Tok::Str(s, _)) => Value::String(s.into()),
            Some(Tok::Name("true")) => Value::Boolean(true),
            Some(Tok::Name("false")) => Value::Boolean(false),
            Some(Tok::Name("null")) => Value::Null,
            Some(Tok::Name(n)) => Value::Enum(T::Value::from(n)),
            Some(Tok::Punct("[")) => {
                let mut v = Vec::new();
                while !self.eat("]") {
                    v.push(self.value()?)
                }
                Value::List(v)
            }
            Some(Tok::Punct("{")) => {
                let mut m = BTreeMap::new();
                while !self.eat("}") {
                    let k = self.name()?;
                    self.expect(":")?;
                    m.insert(k, self.value()?);
                }
                Value::Object(m)
            }
            t => return Err(ParseError(format!("expected value, found {t:?}"))),
        })
    }
    fn args<T: Text<'a>>(&mut self) -> R<Vec<(T, Value<'a, T>)>> {
        let mut v = Vec::new();
        if self.eat("(") {
            while !self.eat(")") {
                let k = self.name()?;
                self.expect(":")?;
                v.push((k, self.value()?));
            }
        }
        Ok(v)
    }
    fn directives<T: Text<'a>>(&mut self) -> R<Vec<Directive<'a, T>>> {
        let mut v = Vec::new();
        while self.eat("@") {
            v.push(Directive { name: self.name()?, arguments: self.args()? });
        }
        Ok(v)
    }
    fn selection_set<T: Text<'a>>(&mut self) -> R<SelectionSet<'a, T>> {
        self.depth += 1;
        if self.depth > 200 {
            return Err(ParseError("recursion limit".into()));
        }
        self.expect("{")?;
        let mut items = Vec::new();
        while !self.eat("}") {
            items.push(if self.eat("...") {
                match self.peek() {
                    Some(Tok::Name(n)) if n != "on" => {
                        Selection::FragmentSpread(FragmentSpread { fragment_name: self.name()?, directives: self.directives()? })
                    }
                    _ => {
                        let type_condition = if matches!(self.peek(), Some(Tok::Name("on"))) {
                            self.i += 1;
                            Some(TypeCondition::On(T::Value::from(self.raw_name()?)))
                        } else {
                            None
                        };
                        Selection::InlineFragment(InlineFragment {
                            type_condition,
                            directives: self.directives()?,
                            selection_set: self.selection_set()?,
                        })
                    }
                }
            } else {
                let mut name = self.name()?;
                let mut alias = None;
                if self.eat(":") {
                    alias = Some(name);
                    name = self.name()?;
                }
                Selection::Field(Field {
                    alias,
                    name,
                    arguments: self.args()?,
                    directives: self.directives()?,
                    selection_set: if self.is("{") { self.selection_set()? } else { SelectionSet { items: Vec::new() } },
                })
            });
        }
        self.depth -= 1;
        Ok(SelectionSet { items })
    }
    fn ty(&mut self) -> R<String> {
        let mut s = if self.eat("[") {
            let t = self.ty()?;
            self.expect("]")?;
            format!("[{t}]")
        } else {
            self.name::<&'a str>()?.to_string()
        };
        if self.eat("!") {
            s.push('!')
        }
        Ok(s)
    }
    fn operation<T: Text<'a>>(&mut self) -> R<Operation<'a, T>> {
        let name = if matches!(self.peek(), Some(Tok::Name(_))) { Some(self.name()?) } else { None };
        let mut variable_definitions = Vec::new();
        if self.eat("(") {
            while !self.eat(")") {
                self.expect("$")?;
                let name = self.name()?;
                self.expect(":")?;
                let var_type = self.ty()?;
                let default_value = if self.eat("=") { Some(self.value()?) } else { None };
                variable_definitions.push(VariableDefinition {
                    name,
                    var_type,
                    default_value,
                    directives: self.directives()?,
                });
            }
        }
        Ok(Operation { name, variable_definitions, directives: self.directives()?, selection_set: self.selection_set()? })
    }
}

pub fn parse_query<'a, T: Text<'a>>(s: &'a str) -> Result<Document<'a, T>, ParseError> {
    let mut p = P { t: lex(s)?, i: 0, depth: 0 };
    let mut definitions = Vec::new();
    while let Some(t) = p.peek() {
        definitions.push(match t {
            Tok::Punct("{") => Definition::Operation(OperationDefinition::SelectionSet(p.selection_set()?)),
            Tok::Name(k @ ("query" | "mutation" | "subscription")) => {
                p.i += 1;
                let op = p.operation()?;
                Definition::Operation(match k {
                    "query" => OperationDefinition::Query(op),
                    "mutation" => OperationDefinition::Mutation(op),
                    _ => OperationDefinition::Subscription(op),
                })
            }
            Tok::Name("fragment") => {
                p.i += 1;
                let name = p.name()?;
                if p.name::<&str>()? != "on" {
                    return Err(ParseError("expected on".into()));
                }
                Definition::Fragment(FragmentDefinition {
                    name,
                    type_condition: TypeCondition::On(<T::Value>::from(p.raw_name()?)),
                    directives: p.directives()?,
                    selection_set: p.selection_set()?,
                })
            }
            t => return Err(ParseError(format!("unexpected {t:?}"))),
        });
    }
    Ok(Document { definitions })
}

fn w_value<'a, T: Text<'a>>(o: &mut String, v: &Value<'a, T>) {
    match v {
        Value::Variable(n) => {
            o.push('$');
            o.push_str(n.as_ref())
        }
        Value::Int(n) => o.push_str(&n.0.to_string()),
        Value::Float(f) => o.push_str(&f.to_string()),
        Value::String(s) => {
            o.push('"');
            o.push_str(s);
            o.push('"')
        }
        Value::Boolean(b) => o.push_str(if *b { "true" } else { "false" }),
        Value::Null => o.push_str("null"),
        Value::Enum(n) => o.push_str(n.as_ref()),
        Value::List(l) => {
            o.push('[');
            for (i, x) in l.iter().enumerate() {
                if i > 0 {
                    o.push_str(", ")
                }
                w_value(o, x)
            }
            o.push(']')
        }
        Value::Object(m) => {
            o.push('{');
            for (i, (k, x)) in m.iter().enumerate() {
                if i > 0 {
                    o.push_str(", ")
                }
                o.push_str(k.as_ref());
                o.push_str(": ");
                w_value(o, x)
            }
            o.push('}')
        }
    }
}
fn w_args<'a, T: Text<'a>>(o: &mut String, args: &[(T, Value<'a, T>)]) {
    if !args.is_empty() {
        o.push('(');
        for (i, (k, v)) in args.iter().enumerate() {
            if i > 0 {
                o.push_str(", ")
            }
            o.push_str(k.as_ref());
            o.push_str(": ");
            w_value(o, v)
        }
        o.push(')')
    }
}
fn w_dirs<'a, T: Text<'a>>(o: &mut String, d: &[Directive<'a, T>]) {
    for d in d {
        o.push_str(" @");
        o.push_str(d.name.as_ref());
        w_args(o, &d.arguments)
    }
}
fn w_set<'a, T: Text<'a>>(o: &mut String, s: &SelectionSet<'a, T>, ind: usize) {
    o.push_str("{\n");
    for it in &s.items {
        o.push_str(&"  ".repeat(ind + 1));
        match it {
            Selection::Field(f) => {
                if let Some(a) = &f.alias {
                    o.push_str(a.as_ref());
                    o.push_str(": ")
                }
                o.push_str(f.name.as_ref());
                w_args(o, &f.arguments);
                w_dirs(o, &f.directives);
                if !f.selection_set.items.is_empty() {
                    o.push(' ');
                    w_set(o, &f.selection_set, ind + 1)
                }
            }
            Selection::FragmentSpread(f) => {
                o.push_str("...");
                o.push_str(f.fragment_name.as_ref());
                w_dirs(o, &f.directives)
            }
            Selection::InlineFragment(f) => {
                o.push_str("...");
                if let Some(TypeCondition::On(t)) = &f.type_condition {
                    o.push_str(" on ");
                    o.push_str(t.as_ref())
                }
                w_dirs(o, &f.directives);
                o.push(' ');
                w_set(o, &f.selection_set, ind + 1)
            }
        }
        o.push('\n')
    }
    o.push_str(&"  ".repeat(ind));
    o.push('}')
}
impl<'a, T: Text<'a>> fmt::Display for Document<'a, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut o = String::new();
        for (i, d) in self.definitions.iter().enumerate() {
            if i > 0 {
                o.push('\n')
            }
            match d {
                Definition::Operation(OperationDefinition::SelectionSet(s)) => w_set(&mut o, s, 0),
                Definition::Operation(op) => {
                    let (kw, op) = match op {
                        OperationDefinition::Query(q) => ("query", q),
                        OperationDefinition::Mutation(q) => ("mutation", q),
                        OperationDefinition::Subscription(q) => ("subscription", q),
                        OperationDefinition::SelectionSet(_) => unreachable!(),
                    };
                    o.push_str(kw);
                    if let Some(n) = &op.name {
                        o.push(' ');
                        o.push_str(n.as_ref())
                    }
                    if !op.variable_definitions.is_empty() {
                        o.push('(');
                        for (i, v) in op.variable_definitions.iter().enumerate() {
                            if i > 0 {
                                o.push_str(", ")
                            }
                            o.push('$');
                            o.push_str(v.name.as_ref());
                            o.push_str(": ");
                            o.push_str(&v.var_type);
                            if let Some(d) = &v.default_value {
                                o.push_str(" = ");
                                w_value(&mut o, d)
                            }
                        }
                        o.push(')')
                    }
                    w_dirs(&mut o, &op.directives);
                    o.push(' ');
                    w_set(&mut o, &op.selection_set, 0)
                }
                Definition::Fragment(fr) => {
                    o.push_str("fragment ");
                    o.push_str(fr.name.as_ref());
                    if let TypeCondition::On(t) = &fr.type_condition {
                        o.push_str(" on ");
                        o.push_str(t.as_ref())
                    }
                    w_dirs(&mut o, &fr.directives);
                    o.push(' ');
                    w_set(&mut o, &fr.selection_set, 0)
                }
            }
            o.push('\n')
        }
        f.write_str(&o)
    }
}
