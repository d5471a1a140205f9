//! Minimal mustache renderer behind the ramhorns API grafbase uses.
use std::{borrow::Cow, fmt};

pub mod encoding {
    use std::fmt;
    pub trait Encoder {
        type Error;
        fn write_unescaped(&mut self, part: &str) -> Result<(), Self::Error>;
        fn write_escaped(&mut self, part: &str) -> Result<(), Self::Error>;
        fn format_unescaped<D: fmt::Display>(&mut self, display: D) -> Result<(), Self::Error>;
        fn format_escaped<D: fmt::Display>(&mut self, display: D) -> Result<(), Self::Error>;
    }
    impl Encoder for String {
        type Error = std::convert::Infallible;
        fn write_unescaped(&mut self, part: &str) -> Result<(), Self::Error> {
            self.push_str(part);
            Ok(())
        }
        fn write_escaped(&mut self, part: &str) -> Result<(), Self::Error> {
            self.push_str(part);
            Ok(())
        }
        fn format_unescaped<D: fmt::Display>(&mut self, d: D) -> Result<(), Self::Error> {
            self.push_str(&d.to_string());
            Ok(())
        }
        fn format_escaped<D: fmt::Display>(&mut self, d: D) -> Result<(), Self::Error> {
            self.push_str(&d.to_string());
            Ok(())
        }
    }
}
use encoding::Encoder;

#[derive(Debug)]
pub enum Error {
    UnclosedSection(Box<str>),
    UnopenedSection(Box<str>),
    UnclosedTag,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}

#[derive(Debug, Clone)]
enum Node {
    Text(String),
    Escaped(String),
    Unescaped(String),
    Section(String, Vec<Node>),
    Inverse(String, Vec<Node>),
}

pub struct Template<'tpl> {
    nodes: Vec<Node>,
    source: Cow<'tpl, str>,
}

impl<'tpl> Template<'tpl> {
    pub fn new<S: Into<Cow<'tpl, str>>>(source: S) -> Result<Self, Error> {
        let source = source.into();
        let mut stack: Vec<(String, bool, Vec<Node>)> = vec![(String::new(), false, Vec::new())];
        let mut rest: &str = &source;
        while let Some(i) = rest.find("{{") {
            let (text, after) = rest.split_at(i);
            if !text.is_empty() {
                stack.last_mut().unwrap().2.push(Node::Text(text.into()));
            }
            let (open, close) = if after.starts_with("{{{") { (3, "}}}") } else { (2, "}}") };
            let body = &after[open..];
            let j = body.find(close).ok_or(Error::UnclosedTag)?;
            let tag = body[..j].trim();
            rest = &body[j + close.len()..];
            if open == 3 {
                stack.last_mut().unwrap().2.push(Node::Unescaped(tag.into()));
                continue;
            }
            match tag.as_bytes().first() {
                Some(b'&') => stack.last_mut().unwrap().2.push(Node::Unescaped(tag[1..].trim().into())),
                Some(b'!') => {}
                Some(b'#') => stack.push((tag[1..].trim().into(), false, Vec::new())),
                Some(b'^') => stack.push((tag[1..].trim().into(), true, Vec::new())),
                Some(b'/') => {
                    let name = tag[1..].trim();
                    let (open, inv, nodes) = stack.pop().unwrap();
                    if stack.is_empty() || open != name {
                        return Err(Error::UnopenedSection(name.into()));
                    }
                    stack.last_mut().unwrap().2.push(if inv {
                        Node::Inverse(open, nodes)
                    } else {
                        Node::Section(open, nodes)
                    });
                }
                _ => stack.last_mut().unwrap().2.push(Node::Escaped(tag.into())),
            }
        }
        if !rest.is_empty() {
            stack.last_mut().unwrap().2.push(Node::Text(rest.into()));
        }
        if stack.len() > 1 {
            return Err(Error::UnclosedSection(stack.pop().unwrap().0.into()));
        }
        Ok(Self { nodes: stack.pop().unwrap().2, source })
    }
    pub fn source(&self) -> &str {
        &self.source
    }
    pub fn capacity_hint(&self) -> usize {
        self.source.len()
    }
    pub fn render<C: Content>(&self, content: &C) -> String {
        let mut out = String::new();
        let _ = Section { nodes: &self.nodes, contents: () }.with(content).render(&mut out);
        out
    }
}

pub mod traits {
    use super::*;
    pub trait ContentSequence: Copy {
        #[doc(hidden)]
        fn escaped<E: Encoder>(&self, name: &str, e: &mut E) -> Result<bool, E::Error>;
        #[doc(hidden)]
        fn unescaped<E: Encoder>(&self, name: &str, e: &mut E) -> Result<bool, E::Error>;
        #[doc(hidden)]
        fn section<C: ContentSequence, E: Encoder>(
            &self,
            name: &str,
            s: Section<'_, C>,
            e: &mut E,
            depth: usize,
        ) -> Result<bool, E::Error>;
        #[doc(hidden)]
        fn inverse<C: ContentSequence, E: Encoder>(
            &self,
            name: &str,
            s: Section<'_, C>,
            e: &mut E,
            depth: usize,
        ) -> Result<bool, E::Error>;
    }
}
use traits::ContentSequence;

/// The innermost content is looked up; sections keep a type-erased pointer to it only.
#[derive(Clone, Copy)]
pub struct Section<'s, C: Copy> {
    nodes: &'s [Node],
    contents: C,
}

impl ContentSequence for () {
    fn escaped<E: Encoder>(&self, _: &str, _: &mut E) -> Result<bool, E::Error> {
        Ok(false)
    }
    fn unescaped<E: Encoder>(&self, _: &str, _: &mut E) -> Result<bool, E::Error> {
        Ok(false)
    }
    fn section<C: ContentSequence, E: Encoder>(
        &self,
        _: &str,
        _: Section<'_, C>,
        _: &mut E,
        _: usize,
    ) -> Result<bool, E::Error> {
        Ok(false)
    }
    fn inverse<C: ContentSequence, E: Encoder>(
        &self,
        _: &str,
        _: Section<'_, C>,
        _: &mut E,
        _: usize,
    ) -> Result<bool, E::Error> {
        Ok(false)
    }
}
pub struct One<'a, T>(&'a T);
impl<T> Clone for One<'_, T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for One<'_, T> {}
impl<T: Content> ContentSequence for One<'_, T> {
    fn escaped<E: Encoder>(&self, name: &str, e: &mut E) -> Result<bool, E::Error> {
        self.0.render_field_escaped(0, name, e)
    }
    fn unescaped<E: Encoder>(&self, name: &str, e: &mut E) -> Result<bool, E::Error> {
        self.0.render_field_unescaped(0, name, e)
    }
    fn section<C: ContentSequence, E: Encoder>(
        &self,
        name: &str,
        s: Section<'_, C>,
        e: &mut E,
        _: usize,
    ) -> Result<bool, E::Error> {
        // Dropping the outer stack bounds the monomorphisation; grafbase resolves names on the innermost value.
        self.0.render_field_section(0, name, Section { nodes: s.nodes, contents: () }, e)
    }
    fn inverse<C: ContentSequence, E: Encoder>(
        &self,
        name: &str,
        s: Section<'_, C>,
        e: &mut E,
        _: usize,
    ) -> Result<bool, E::Error> {
        self.0.render_field_inverse(0, name, Section { nodes: s.nodes, contents: () }, e)
    }
}

impl<'s, C: ContentSequence> Section<'s, C> {
    pub fn with<'a, X: Content>(self, content: &'a X) -> Section<'s, One<'a, X>> {
        Section { nodes: self.nodes, contents: One(content) }
    }
    pub fn render<E: Encoder>(&self, e: &mut E) -> Result<(), E::Error> {
        for n in self.nodes {
            match n {
                Node::Text(t) => e.write_unescaped(t)?,
                Node::Escaped(n) => {
                    self.contents.escaped(n, e)?;
                }
                Node::Unescaped(n) => {
                    self.contents.unescaped(n, e)?;
                }
                Node::Section(n, nodes) => {
                    self.contents.section(n, Section { nodes, contents: () }, e, 0)?;
                }
                Node::Inverse(n, nodes) => {
                    self.contents.inverse(n, Section { nodes, contents: () }, e, 0)?;
                }
            }
        }
        Ok(())
    }
}

pub fn render_indexed_content_section<T, C, E>(
    items: impl Iterator<Item = T>,
    section: Section<'_, C>,
    encoder: &mut E,
) -> Result<(), E::Error>
where
    T: Content,
    C: ContentSequence,
    E: Encoder,
{
    for item in items {
        section.with(&item).render(encoder)?;
    }
    Ok(())
}

pub trait Content {
    fn is_truthy(&self) -> bool {
        true
    }
    fn capacity_hint(&self, _tpl: &Template<'_>) -> usize {
        0
    }
    fn render_escaped<E: Encoder>(&self, _e: &mut E) -> Result<(), E::Error> {
        Ok(())
    }
    fn render_unescaped<E: Encoder>(&self, e: &mut E) -> Result<(), E::Error> {
        self.render_escaped(e)
    }
    fn render_section<C: ContentSequence, E: Encoder>(&self, s: Section<'_, C>, e: &mut E) -> Result<(), E::Error> {
        s.render(e)
    }
    fn render_inverse<C: ContentSequence, E: Encoder>(&self, _s: Section<'_, C>, _e: &mut E) -> Result<(), E::Error> {
        Ok(())
    }
    fn render_field_escaped<E: Encoder>(&self, _h: u64, _n: &str, _e: &mut E) -> Result<bool, E::Error> {
        Ok(false)
    }
    fn render_field_unescaped<E: Encoder>(&self, _h: u64, _n: &str, _e: &mut E) -> Result<bool, E::Error> {
        Ok(false)
    }
    fn render_field_section<C: ContentSequence, E: Encoder>(
        &self,
        _h: u64,
        _n: &str,
        _s: Section<'_, C>,
        _e: &mut E,
    ) -> Result<bool, E::Error> {
        Ok(false)
    }
    fn render_field_inverse<C: ContentSequence, E: Encoder>(
        &self,
        _h: u64,
        _n: &str,
        _s: Section<'_, C>,
        _e: &mut E,
    ) -> Result<bool, E::Error> {
        Ok(false)
    }
}
