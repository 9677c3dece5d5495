//! A small strict XML 1.0 (non-validating, namespace checking) parser.
#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    El(El),
    Text(String),
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct El {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<Node>,
}
impl El {
    pub fn a(&self, n: &str) -> Option<&str> {
        self.attrs.iter().find(|x| x.0 == n).map(|x| x.1.as_str())
    }
    pub fn au(&self, n: &str) -> Option<u64> {
        self.a(n).and_then(|v| v.parse().ok())
    }
    pub fn els(&self) -> impl Iterator<Item = &El> {
        self.kids.iter().filter_map(|k| match k {
            Node::El(e) => Some(e),
            _ => None,
        })
    }
    pub fn named<'a>(&'a self, n: &'a str) -> impl Iterator<Item = &'a El> {
        self.els().filter(move |e| e.name == n)
    }
    pub fn first(&self, n: &str) -> Option<&El> {
        self.els().find(|e| e.name == n)
    }
    pub fn path(&self, p: &str) -> Option<&El> {
        let mut e = self;
        for s in p.split('/') {
            e = e.first(s)?;
        }
        Some(e)
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for k in &self.kids {
            if let Node::Text(t) = k {
                s.push_str(t);
            }
        }
        s
    }
    pub fn deep_text(&self) -> String {
        let mut s = String::new();
        for k in &self.kids {
            match k {
                Node::Text(t) => s.push_str(t),
                Node::El(e) => s.push_str(&e.deep_text()),
            }
        }
        s
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a El)) {
        f(self);
        for e in self.els() {
            e.walk(f);
        }
    }
    pub fn find_all<'a>(&'a self, n: &str) -> Vec<&'a El> {
        let mut v = vec![];
        self.walk(&mut |e| {
            if e.name == n {
                v.push(e)
            }
        });
        v
    }
    /// Canonical text used for comparison and messages.
    pub fn canon(&self) -> String {
        let mut s = String::new();
        self.canon_to(&mut s);
        s
    }
    fn canon_to(&self, s: &mut String) {
        s.push('<');
        s.push_str(&self.name);
        for (k, v) in &self.attrs {
            s.push_str(&format!(" {}={:?}", k, v));
        }
        s.push('>');
        for k in &self.kids {
            match k {
                Node::El(e) => e.canon_to(s),
                Node::Text(t) => s.push_str(&format!("{:?}", t)),
            }
        }
        s.push_str("</>");
    }
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}
fn legal(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
}
pub fn parse(data: &[u8]) -> Result<El, String> {
    let txt = std::str::from_utf8(data).map_err(|e| format!("not UTF-8: {e}"))?;
    if let Some(c) = txt.chars().find(|c| !legal(*c)) {
        return Err(format!("illegal XML character U+{:04X}", c as u32));
    }
    let mut p = P { s: data, i: 0 };
    if p.s.starts_with(b"<?xml") {
        match txt.find("?>") {
            Some(e) => p.i = e + 2,
            None => return Err("unterminated XML declaration".into()),
        }
        if !txt[..p.i].contains("version=\"1.0\"") {
            return Err("bad XML declaration".into());
        }
    }
    p.ws();
    let mut ns: Vec<Vec<String>> = vec![];
    let root = p.element(&mut ns, 0)?;
    p.ws();
    if p.i != p.s.len() {
        return Err(format!("content after the root element at byte {}", p.i));
    }
    Ok(root)
}
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t' | b'\r' | b'\n') {
            self.i += 1;
        }
    }
    fn name(&mut self) -> Result<String, String> {
        let st = self.i;
        while self.i < self.s.len() {
            let b = self.s[self.i];
            if b.is_ascii_alphanumeric() || matches!(b, b'_' | b':' | b'-' | b'.') || b >= 0x80 {
                self.i += 1;
            } else {
                break;
            }
        }
        if st == self.i || self.s[st].is_ascii_digit() || matches!(self.s[st], b'-' | b'.') {
            return Err(format!("bad name at byte {st}: {}", self.ctx(st)));
        }
        Ok(String::from_utf8_lossy(&self.s[st..self.i]).into_owned())
    }
    fn ctx(&self, i: usize) -> String {
        let a = i.saturating_sub(60);
        let b = (i + 40).min(self.s.len());
        String::from_utf8_lossy(&self.s[a..b]).into_owned()
    }
    fn entity(&mut self, out: &mut Vec<u8>) -> Result<(), String> {
        let st = self.i;
        let end = self.s[st..].iter().take(12).position(|b| *b == b';');
        let Some(end) = end else {
            return Err(format!("bare '&' at byte {st}: {}", self.ctx(st)));
        };
        let e = std::str::from_utf8(&self.s[st + 1..st + end]).map_err(|_| "bad entity")?;
        self.i = st + end + 1;
        let c = match e {
            "amp" => '&',
            "lt" => '<',
            "gt" => '>',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let n = if let Some(h) = e.strip_prefix("#x") {
                    u32::from_str_radix(h, 16).ok()
                } else if let Some(d) = e.strip_prefix('#') {
                    d.parse().ok()
                } else {
                    None
                };
                match n.and_then(char::from_u32).filter(|c| legal(*c)) {
                    Some(c) => c,
                    None => return Err(format!("bad entity &{e}; at byte {st}")),
                }
            }
        };
        let mut b = [0; 4];
        out.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
        Ok(())
    }
    fn element(&mut self, ns: &mut Vec<Vec<String>>, depth: usize) -> Result<El, String> {
        if depth > 200 {
            return Err("nesting too deep".into());
        }
        if self.i >= self.s.len() || self.s[self.i] != b'<' {
            return Err(format!("expected '<' at byte {}: {}", self.i, self.ctx(self.i)));
        }
        self.i += 1;
        let name = self.name()?;
        let mut el = El { name, attrs: vec![], kids: vec![] };
        let empty;
        loop {
            let before = self.i;
            self.ws();
            if self.i >= self.s.len() {
                return Err("unterminated start tag".into());
            }
            match self.s[self.i] {
                b'>' => {
                    self.i += 1;
                    empty = false;
                    break;
                }
                b'/' => {
                    if self.s.get(self.i + 1) != Some(&b'>') {
                        return Err(format!("bad '/' in tag: {}", self.ctx(self.i)));
                    }
                    self.i += 2;
                    empty = true;
                    break;
                }
                _ => {}
            }
            if before == self.i {
                return Err(format!("missing space before attribute: {}", self.ctx(self.i)));
            }
            let an = self.name()?;
            if self.s.get(self.i) != Some(&b'=') {
                return Err(format!("attribute without '=': {}", self.ctx(self.i)));
            }
            self.i += 1;
            let q = *self.s.get(self.i).unwrap_or(&0);
            if q != b'"' && q != b'\'' {
                return Err(format!("unquoted attribute: {}", self.ctx(self.i)));
            }
            self.i += 1;
            let mut out = vec![];
            loop {
                let Some(&b) = self.s.get(self.i) else {
                    return Err("unterminated attribute".into());
                };
                if b == q {
                    self.i += 1;
                    break;
                }
                match b {
                    b'<' => return Err(format!("'<' in attribute value: {}", self.ctx(self.i))),
                    b'&' => self.entity(&mut out)?,
                    b'\t' | b'\n' => {
                        out.push(b' ');
                        self.i += 1;
                    }
                    b'\r' => {
                        out.push(b' ');
                        self.i += 1;
                        if self.s.get(self.i) == Some(&b'\n') {
                            self.i += 1;
                        }
                    }
                    _ => {
                        out.push(b);
                        self.i += 1;
                    }
                }
            }
            if el.attrs.iter().any(|x| x.0 == an) {
                return Err(format!("duplicate attribute {an} in <{}>", el.name));
            }
            el.attrs.push((an, String::from_utf8_lossy(&out).into_owned()));
        }
        // Namespaces.
        let mut decl = vec![];
        for (k, v) in &el.attrs {
            if let Some(p) = k.strip_prefix("xmlns:") {
                if v.is_empty() {
                    return Err(format!("empty namespace for prefix {p}"));
                }
                decl.push(p.to_string());
            }
        }
        ns.push(decl);
        let known = |n: &str, ns: &Vec<Vec<String>>| -> bool {
            match n.split_once(':') {
                None => true,
                Some(("xml", _)) | Some(("xmlns", _)) => true,
                Some((p, r)) => !r.contains(':') && ns.iter().any(|d| d.iter().any(|x| x == p)),
            }
        };
        if !known(&el.name, ns) {
            return Err(format!("undeclared namespace prefix in <{}>", el.name));
        }
        for (k, _) in &el.attrs {
            if !known(k, ns) {
                return Err(format!("undeclared namespace prefix in attribute {k} of <{}>", el.name));
            }
        }
        if !empty {
            let mut txt: Vec<u8> = vec![];
            loop {
                let Some(&b) = self.s.get(self.i) else {
                    return Err(format!("unterminated element <{}>", el.name));
                };
                match b {
                    b'<' => {
                        if self.s[self.i..].starts_with(b"<!--") {
                            let rest = &self.s[self.i + 4..];
                            let e = rest.windows(3).position(|w| w == b"-->").ok_or("unterminated comment")?;
                            self.i += 4 + e + 3;
                            continue;
                        }
                        if !txt.is_empty() {
                            el.kids.push(Node::Text(String::from_utf8_lossy(&txt).into_owned()));
                            txt.clear();
                        }
                        if self.s.get(self.i + 1) == Some(&b'/') {
                            self.i += 2;
                            let n = self.name()?;
                            self.ws();
                            if self.s.get(self.i) != Some(&b'>') {
                                return Err(format!("bad end tag: {}", self.ctx(self.i)));
                            }
                            self.i += 1;
                            if n != el.name {
                                return Err(format!("mismatched end tag </{n}> for <{}>: {}", el.name, self.ctx(self.i)));
                            }
                            break;
                        }
                        let k = self.element(ns, depth + 1)?;
                        el.kids.push(Node::El(k));
                    }
                    b'&' => self.entity(&mut txt)?,
                    b'\r' => {
                        txt.push(b'\n');
                        self.i += 1;
                        if self.s.get(self.i) == Some(&b'\n') {
                            self.i += 1;
                        }
                    }
                    b']' if self.s[self.i..].starts_with(b"]]>") => {
                        return Err("']]>' in character data".into());
                    }
                    _ => {
                        txt.push(b);
                        self.i += 1;
                    }
                }
            }
        }
        ns.pop();
        Ok(el)
    }
}

/// Decode the ST_Xstring `_xHHHH_` escapes.
pub fn unescape_x(s: &str) -> String {
    if !s.contains("_x") {
        return s.to_string();
    }
    let b = s.as_bytes();
    let mut out: Vec<u16> = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'_' && i + 7 <= b.len() && b[i + 1] == b'x' && b[i + 6] == b'_' && b[i + 2..i + 6].iter().all(|c| c.is_ascii_hexdigit()) {
            out.push(u16::from_str_radix(&s[i + 2..i + 6], 16).unwrap());
            i += 7;
        } else {
            let c = s[i..].chars().next().unwrap();
            let mut buf = [0; 2];
            out.extend_from_slice(c.encode_utf16(&mut buf));
            i += c.len_utf8();
        }
    }
    String::from_utf16_lossy(&out)
}
/// Decode the escapes of control characters only.
pub fn loose(s: &str) -> String {
    let mut o = String::new();
    let mut r = s;
    while let Some(i) = r.find("_x") {
        o.push_str(&r[..i]);
        let t = &r[i..];
        let c = t.get(2..6).filter(|h| t.as_bytes().get(6) == Some(&b'_') && h.bytes().all(|b| b.is_ascii_hexdigit())).and_then(|h| u32::from_str_radix(h, 16).ok());
        match c {
            Some(c) if c < 32 || c == 0xfffe || c == 0xffff => {
                o.push(char::from_u32(c).unwrap());
                r = &t[7..];
            }
            _ => {
                o.push_str("_x");
                r = &t[2..];
            }
        }
    }
    o.push_str(r);
    o
}
