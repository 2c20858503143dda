//! A small strict XML 1.0 parser (the subset KDBX uses: no DTD), following the specification's
//! rules for line ends, attribute normalisation, references and allowed characters.

#[derive(Clone, Debug, PartialEq)]
pub struct Elem {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub nodes: Vec<Node>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Elem(Elem),
    Text(String),
}

impl Elem {
    pub fn new(name: &str) -> Elem {
        Elem { name: name.into(), attrs: vec![], nodes: vec![] }
    }
    pub fn text(name: &str, t: &str) -> Elem {
        Elem { name: name.into(), attrs: vec![], nodes: vec![Node::Text(t.into())] }
    }
    pub fn attr(&self, n: &str) -> Option<&str> {
        self.attrs.iter().find(|a| a.0 == n).map(|a| a.1.as_str())
    }
    pub fn children(&self) -> impl Iterator<Item = &Elem> {
        self.nodes.iter().filter_map(|n| match n {
            Node::Elem(e) => Some(e),
            _ => None,
        })
    }
    pub fn child(&self, n: &str) -> Option<&Elem> {
        self.children().find(|e| e.name == n)
    }
    /// Character content of an element that must not have element children.
    pub fn leaf(&self) -> Result<String, String> {
        let mut s = String::new();
        for n in &self.nodes {
            match n {
                Node::Text(t) => s.push_str(t),
                Node::Elem(e) => return Err(format!("element <{}> inside <{}>", e.name, self.name)),
            }
        }
        Ok(s)
    }
}

pub fn is_xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..='\u{10ffff}')
}

struct P {
    s: Vec<char>,
    i: usize,
}

type R<T> = Result<T, String>;

/// Parses a complete document; the bytes must be UTF-8.
pub fn parse(bytes: &[u8]) -> R<Elem> {
    let text = std::str::from_utf8(bytes).map_err(|e| format!("document not UTF-8: {}", e))?;
    let text = text.strip_prefix('\u{feff}').unwrap_or(text);
    // 2.11 line ends
    let text = text.replace("\r\n", "\n").replace('\r', "\n");
    if let Some(c) = text.chars().find(|&c| !is_xml_char(c)) {
        return Err(format!("illegal character U+{:04X}", c as u32));
    }
    let mut p = P { s: text.chars().collect(), i: 0 };
    if p.looking("<?xml") {
        p.skip_until("?>")?;
    }
    p.misc()?;
    let e = p.elem(0)?;
    p.misc()?;
    if p.i != p.s.len() {
        return Err("content after the document element".into());
    }
    Ok(e)
}

impl P {
    fn looking(&self, w: &str) -> bool {
        let mut i = self.i;
        for c in w.chars() {
            if self.s.get(i) != Some(&c) {
                return false;
            }
            i += 1;
        }
        true
    }
    fn skip_until(&mut self, w: &str) -> R<String> {
        let st = self.i;
        while self.i < self.s.len() {
            if self.looking(w) {
                let r = self.s[st..self.i].iter().collect();
                self.i += w.chars().count();
                return Ok(r);
            }
            self.i += 1;
        }
        Err(format!("missing {}", w))
    }
    fn ws(&mut self) -> bool {
        let st = self.i;
        while self.i < self.s.len() && matches!(self.s[self.i], ' ' | '\t' | '\n' | '\r') {
            self.i += 1;
        }
        self.i > st
    }
    fn misc(&mut self) -> R<()> {
        loop {
            self.ws();
            if self.looking("<!--") {
                self.i += 4;
                self.skip_until("-->")?;
            } else if self.looking("<?") {
                self.skip_until("?>")?;
            } else {
                return Ok(());
            }
        }
    }
    fn name(&mut self) -> R<String> {
        let st = self.i;
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c.is_alphabetic() || c == '_' || c == ':' || (self.i > st && (c.is_numeric() || c == '-' || c == '.')) {
                self.i += 1;
            } else {
                break;
            }
        }
        if self.i == st {
            return Err(format!("name expected at {}", st));
        }
        Ok(self.s[st..self.i].iter().collect())
    }
    fn expect(&mut self, w: &str) -> R<()> {
        if self.looking(w) {
            self.i += w.chars().count();
            Ok(())
        } else {
            Err(format!("{:?} expected at {}", w, self.i))
        }
    }
    fn reference(&mut self) -> R<char> {
        self.expect("&")?;
        let r = self.skip_until(";")?;
        let c = match r.as_str() {
            "lt" => '<',
            "gt" => '>',
            "amp" => '&',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let n = if let Some(h) = r.strip_prefix("#x") {
                    u32::from_str_radix(h, 16).ok()
                } else if let Some(d) = r.strip_prefix('#') {
                    d.parse().ok()
                } else {
                    None
                };
                n.and_then(char::from_u32).filter(|&c| is_xml_char(c)).ok_or_else(|| format!("bad reference &{};", r))?
            }
        };
        Ok(c)
    }
    fn elem(&mut self, depth: usize) -> R<Elem> {
        if depth > 2000 {
            return Err("too deep".into());
        }
        self.expect("<")?;
        let mut e = Elem::new(&self.name()?);
        loop {
            let had_ws = self.ws();
            if self.looking("/>") {
                self.i += 2;
                return Ok(e);
            }
            if self.looking(">") {
                self.i += 1;
                break;
            }
            if !had_ws {
                return Err(format!("malformed tag <{}", e.name));
            }
            let an = self.name()?;
            self.ws();
            self.expect("=")?;
            self.ws();
            let q = *self.s.get(self.i).ok_or("eof")?;
            if q != '"' && q != '\'' {
                return Err("attribute quote".into());
            }
            self.i += 1;
            let mut v = String::new();
            loop {
                let c = *self.s.get(self.i).ok_or("eof in attribute")?;
                if c == q {
                    self.i += 1;
                    break;
                }
                match c {
                    '<' => return Err("< in attribute".into()),
                    '&' => v.push(self.reference()?),
                    '\t' | '\n' | '\r' => {
                        v.push(' ');
                        self.i += 1;
                    }
                    _ => {
                        v.push(c);
                        self.i += 1;
                    }
                }
            }
            if e.attrs.iter().any(|a| a.0 == an) {
                return Err(format!("duplicate attribute {}", an));
            }
            e.attrs.push((an, v));
        }
        let mut text = String::new();
        loop {
            let c = *self.s.get(self.i).ok_or_else(|| format!("end of document inside <{}>", e.name))?;
            if c == '<' {
                if self.looking("<!--") {
                    self.i += 4;
                    let body = self.skip_until("-->")?;
                    if body.contains("--") {
                        return Err("-- in comment".into());
                    }
                    continue;
                }
                if self.looking("<![CDATA[") {
                    self.i += 9;
                    text.push_str(&self.skip_until("]]>")?);
                    continue;
                }
                if self.looking("<?") {
                    self.skip_until("?>")?;
                    continue;
                }
                if !text.is_empty() {
                    e.nodes.push(Node::Text(std::mem::take(&mut text)));
                }
                if self.looking("</") {
                    self.i += 2;
                    let n = self.name()?;
                    if n != e.name {
                        return Err(format!("</{}> closes <{}>", n, e.name));
                    }
                    self.ws();
                    self.expect(">")?;
                    return Ok(e);
                }
                e.nodes.push(Node::Elem(self.elem(depth + 1)?));
            } else if c == '&' {
                text.push(self.reference()?);
            } else {
                if self.looking("]]>") {
                    return Err("]]> in text".into());
                }
                text.push(c);
                self.i += 1;
            }
        }
    }
}
