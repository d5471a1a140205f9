//! Media types as used by content negotiation.
#[derive(Debug, Clone, Copy)]
pub struct Name<'a>(&'a str);
impl<'a> Name<'a> {
    pub const fn new_unchecked(s: &'a str) -> Self {
        Name(s)
    }
    pub fn as_str(&self) -> &'a str {
        self.0
    }
}
impl PartialEq for Name<'_> {
    fn eq(&self, o: &Name<'_>) -> bool {
        self.0.eq_ignore_ascii_case(o.0)
    }
}
impl PartialEq<str> for Name<'_> {
    fn eq(&self, o: &str) -> bool {
        self.0.eq_ignore_ascii_case(o)
    }
}
impl PartialEq<&str> for Name<'_> {
    fn eq(&self, o: &&str) -> bool {
        self.0.eq_ignore_ascii_case(o)
    }
}
#[derive(Debug, Clone, Copy)]
pub struct Value<'a>(&'a str);
impl<'a> Value<'a> {
    pub fn as_str(&self) -> &'a str {
        self.0
    }
}
#[derive(Debug, Clone)]
pub enum Params<'a> {
    Static(&'a [(Name<'a>, Value<'a>)]),
    Owned(Vec<(Name<'a>, Value<'a>)>),
}
impl<'a> Params<'a> {
    pub fn iter(&self) -> impl Iterator<Item = (Name<'a>, Value<'a>)> + '_ {
        match self {
            Params::Static(s) => s.iter().copied(),
            Params::Owned(s) => s.iter().copied(),
        }
    }
}
#[derive(Debug, Clone)]
pub struct MediaType<'a> {
    pub ty: Name<'a>,
    pub subty: Name<'a>,
    pub suffix: Option<Name<'a>>,
    pub params: Params<'a>,
}
impl<'a> MediaType<'a> {
    pub const fn new(ty: Name<'a>, subty: Name<'a>) -> Self {
        Self { ty, subty, suffix: None, params: Params::Static(&[]) }
    }
    pub const fn from_parts(
        ty: Name<'a>,
        subty: Name<'a>,
        suffix: Option<Name<'a>>,
        params: &'a [(Name<'a>, Value<'a>)],
    ) -> Self {
        Self { ty, subty, suffix, params: Params::Static(params) }
    }
    pub fn essence(&self) -> MediaType<'a> {
        Self { ty: self.ty, subty: self.subty, suffix: self.suffix, params: Params::Static(&[]) }
    }
    pub fn parse(s: &'a str) -> Result<Self, ()> {
        let mut it = s.split(';');
        let ess = it.next().ok_or(())?.trim();
        let (ty, sub) = ess.split_once('/').ok_or(())?;
        let ok = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_alphanumeric() || b"!#$&-^_.+*".contains(&b));
        if !ok(ty) || !ok(sub) {
            return Err(());
        }
        let (subty, suffix) = match sub.rsplit_once('+') {
            Some((a, b)) if !a.is_empty() => (a, Some(Name(b))),
            _ => (sub, None),
        };
        let mut params = Vec::new();
        for p in it {
            let (k, v) = p.trim().split_once('=').ok_or(())?;
            params.push((Name(k.trim()), Value(v.trim())));
        }
        Ok(Self { ty: Name(ty), subty: Name(subty), suffix, params: Params::Owned(params) })
    }
}
impl PartialEq for MediaType<'_> {
    fn eq(&self, o: &MediaType<'_>) -> bool {
        self.ty == o.ty && self.subty == o.subty && self.suffix == o.suffix
    }
}
pub struct MediaTypeList<'a>(std::str::Split<'a, char>);
impl<'a> MediaTypeList<'a> {
    pub fn new(s: &'a str) -> Self {
        Self(s.split(','))
    }
}
impl<'a> Iterator for MediaTypeList<'a> {
    type Item = Result<MediaType<'a>, ()>;
    fn next(&mut self) -> Option<Self::Item> {
        self.0.next().map(MediaType::parse)
    }
}
pub mod names {
    use super::Name;
    pub const _STAR: Name<'static> = Name("*");
    pub const APPLICATION: Name<'static> = Name("application");
    pub const MULTIPART: Name<'static> = Name("multipart");
    pub const MIXED: Name<'static> = Name("mixed");
    pub const TEXT: Name<'static> = Name("text");
    pub const EVENT_STREAM: Name<'static> = Name("event-stream");
    pub const JSON: Name<'static> = Name("json");
}
impl std::fmt::Display for MediaType<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}/{}", self.ty.0, self.subty.0)?;
        if let Some(s) = self.suffix {
            write!(f, "+{}", s.0)?;
        }
        for (k, v) in self.params.iter() {
            write!(f, "; {}={}", k.0, v.0)?;
        }
        Ok(())
    }
}
