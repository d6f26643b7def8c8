//! Values, as decoded by the oracle and as printed by the crate.

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Val {
    Int(i128),
    Struct(String, Vec<(String, Val)>),
    Tuple(String, Vec<Val>),
    List(Vec<Val>),
}

pub fn none() -> Val { Val::Tuple("None".into(), vec![]) }
pub fn some(v: Val) -> Val { Val::Tuple("Some".into(), vec![v]) }

impl Val {
    pub fn show(&self) -> String {
        match self {
            Val::Int(i) => i.to_string(),
            Val::Struct(n, f) => format!("{n} {{ {} }}", f.iter().map(|(k, v)| format!("{k}: {}", v.show())).collect::<Vec<_>>().join(", ")),
            Val::Tuple(n, f) if f.is_empty() => n.clone(),
            Val::Tuple(n, f) => format!("{n}({})", f.iter().map(Val::show).collect::<Vec<_>>().join(", ")),
            Val::List(f) => format!("[{}]", f.iter().map(Val::show).collect::<Vec<_>>().join(", ")),
        }
    }
    /// Where the first difference is.
    pub fn difference(&self, other: &Val) -> Option<String> {
        match (self, other) {
            (Val::Struct(a, f), Val::Struct(b, g)) if a == b && f.len() == g.len() => {
                for ((k, v), (l, w)) in f.iter().zip(g) {
                    if k != l { return Some(format!(".{k} against .{l}")); }
                    if let Some(d) = v.difference(w) { return Some(format!(".{k}{d}")); }
                }
                None
            }
            (Val::Tuple(a, f), Val::Tuple(b, g)) if a == b && f.len() == g.len() => {
                f.iter().zip(g).enumerate().find_map(|(i, (v, w))| v.difference(w).map(|d| format!(".{i}{d}")))
            }
            (Val::List(f), Val::List(g)) if f.len() == g.len() => {
                f.iter().zip(g).enumerate().find_map(|(i, (v, w))| v.difference(w).map(|d| format!("[{i}]{d}")))
            }
            (a, b) if a == b => None,
            (a, b) => { let cut = |s: String| s.chars().take(200).collect::<String>(); Some(format!(": {} instead of {}", cut(b.show()), cut(a.show()))) }
        }
    }
    fn canonical(self) -> Val {
        match self {
            Val::Struct(n, mut f) => { f.sort_by(|a, b| a.0.cmp(&b.0)); Val::Struct(n, f) }
            v => v,
        }
    }
    pub fn structure(n: &str, f: Vec<(String, Val)>) -> Val { Val::Struct(n.into(), f).canonical() }
}

/// Parses what {:?} prints.
pub fn parse(s: &str) -> Option<Val> {
    let mut p = P { s: s.as_bytes(), i: 0 };
    let v = p.value()?;
    p.blank();
    if p.i == p.s.len() { Some(v) } else { None }
}
struct P<'a> { s: &'a [u8], i: usize }
impl P<'_> {
    fn blank(&mut self) { while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() { self.i += 1; } }
    fn eat(&mut self, c: u8) -> bool { self.blank(); if self.i < self.s.len() && self.s[self.i] == c { self.i += 1; true } else { false } }
    fn list(&mut self, end: u8) -> Option<Vec<Val>> {
        let mut out = vec![];
        loop {
            if self.eat(end) { return Some(out); }
            out.push(self.value()?);
            if !self.eat(b',') { return if self.eat(end) { Some(out) } else { None }; }
        }
    }
    fn word(&mut self) -> String {
        let a = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_' || self.s[self.i] == b'#') { self.i += 1; }
        String::from_utf8_lossy(&self.s[a..self.i]).trim_start_matches("r#").to_string()
    }
    fn value(&mut self) -> Option<Val> {
        self.blank();
        let c = *self.s.get(self.i)?;
        if c == b'[' { self.i += 1; return Some(Val::List(self.list(b']')?)); }
        if c == b'(' { self.i += 1; return Some(Val::Tuple(String::new(), self.list(b')')?)); }
        if c == b'-' || c.is_ascii_digit() {
            let neg = c == b'-';
            if neg { self.i += 1; }
            let w = self.word();
            let n = if let Some(x) = w.strip_prefix("0b") { i128::from_str_radix(x, 2).ok()? } else if let Some(x) = w.strip_prefix("0x") { i128::from_str_radix(x, 16).ok()? } else { w.parse().ok()? };
            return Some(Val::Int(if neg { -n } else { n }));
        }
        if self.s[self.i..].starts_with(b"Tag(") {
            let t = &self.s[self.i + 4..];
            if t.len() > 4 && t[4] == b')' {
                self.i += 9;
                return Some(Val::Int(u32::from_be_bytes([t[0], t[1], t[2], t[3]]) as i128));
            }
            if t.len() > 10 && t[10] == b')' {
                self.i += 15;
                return Some(Val::Int(i128::from_str_radix(std::str::from_utf8(&t[2..10]).ok()?, 16).ok()?));
            }
            return None;
        }
        let w = self.word();
        if w.is_empty() { return None; }
        if w == "true" || w == "false" { return Some(Val::Int((w == "true") as i128)); }
        if self.eat(b'(') { return Some(Val::Tuple(w, self.list(b')')?)); }
        if self.eat(b'{') {
            let mut f = vec![];
            loop {
                if self.eat(b'}') { break; }
                self.blank();
                let k = self.word();
                if !self.eat(b':') { return None; }
                f.push((k, self.value()?));
                if !self.eat(b',') { if self.eat(b'}') { break; } else { return None; } }
            }
            return Some(Val::structure(&w, f));
        }
        Some(Val::Tuple(w, vec![]))
    }
}
