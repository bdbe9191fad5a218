//! Reference model: YAML data as plain trees, a generator of abstract documents, and a
//! renderer that writes an abstract document as text in a chosen layout. Nothing in here
//! calls the code under test except `abs*`, which read its result types.
use yaml_subset::yaml::string::{DoubleQuotedStringEscapedChar, SingleQuotedStringEscapedChar};
use yaml_subset::yaml::*;

/// The data a document denotes
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum V {
    Map(Vec<(String, E)>),
    Seq(Vec<E>),
    /// plain scalar: its text (type is decided by the reader)
    Plain(String),
    /// quoted or block scalar: always a string
    Text(String),
    Alias(String),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct E {
    pub anchor: Option<String>,
    pub v: V,
}

pub fn e(v: V) -> E {
    E { anchor: None, v }
}

impl V {
    /// forget the difference between plain and quoted scalars
    pub fn untyped(&self) -> V {
        let f = |e: &E| E {
            anchor: e.anchor.clone(),
            v: e.v.untyped(),
        };
        match self {
            V::Map(m) => V::Map(m.iter().map(|(k, e)| (k.clone(), f(e))).collect()),
            V::Seq(s) => V::Seq(s.iter().map(f).collect()),
            V::Plain(s) | V::Text(s) => V::Text(s.clone()),
            V::Alias(a) => V::Alias(a.clone()),
        }
    }
    /// scalars as a reader types them: a plain scalar that isn't a number, boolean or null
    /// denotes the same string as a quoted one
    pub fn typed(&self) -> V {
        let f = |e: &E| E {
            anchor: e.anchor.clone(),
            v: e.v.typed(),
        };
        match self {
            V::Map(m) => V::Map(m.iter().map(|(k, e)| (k.clone(), f(e))).collect()),
            V::Seq(s) => V::Seq(s.iter().map(f).collect()),
            V::Plain(s) if !is_typed_plain(s) => V::Text(s.clone()),
            o => o.clone(),
        }
    }
    pub fn nodes(&self) -> usize {
        1 + match self {
            V::Map(m) => m.iter().map(|x| x.1.v.nodes()).sum(),
            V::Seq(m) => m.iter().map(|x| x.v.nodes()).sum(),
            _ => 0,
        }
    }
}

/// Would a YAML 1.2 core-schema-like reader (and this crate) read it as something else than a string?
pub fn is_typed_plain(s: &str) -> bool {
    s.parse::<i128>().is_ok()
        || s.parse::<u128>().is_ok()
        || s.parse::<f64>().is_ok()
        || matches!(s, "" | "~")
        || matches!(s, "null" | "Null" | "NULL")
        || matches!(s, "true" | "false")
}

// ------------------------------------------------------------------ abstraction

pub fn abs(y: &Yaml) -> V {
    match y {
        Yaml::InlineHash(h) => V::Map(h.iter().map(|(k, v)| (k.clone(), e(abs(v)))).collect()),
        Yaml::Hash(h) => V::Map(
            h.iter()
                .filter_map(|d| match d {
                    HashData::Element(el) => Some((el.key.clone(), abs_al(&el.value))),
                    _ => None,
                })
                .collect(),
        ),
        Yaml::InlineArray(a) => V::Seq(a.iter().map(|v| e(abs(v))).collect()),
        Yaml::Array(a) => V::Seq(
            a.iter()
                .filter_map(|d| match d {
                    ArrayData::Element(el) => Some(abs_al(el)),
                    _ => None,
                })
                .collect(),
        ),
        Yaml::UnquotedString(s) => V::Plain(s.clone()),
        Yaml::Anchor(a) => V::Alias(a.clone()),
        other => V::Text(scalar_text(other)),
    }
}

/// The text of a quoted or block scalar. Written from the specification; `Yaml::as_string` is code
/// under test.
pub fn scalar_text(y: &Yaml) -> String {
    fn ending(body: String, lines: usize, chomping: &BlockChomping) -> String {
        // every line, the empty ones at the end included, ends with a line break
        let all = if lines == 0 { body } else { format!("{body}\n") };
        let stripped = all.trim_end_matches('\n');
        match chomping {
            BlockChomping::Keep => all,
            BlockChomping::Strip => stripped.to_string(),
            BlockChomping::Clip if stripped.is_empty() => String::new(),
            BlockChomping::Clip => format!("{stripped}\n"),
        }
    }
    match y {
        Yaml::UnquotedString(s) => s.clone(),
        Yaml::SingleQuotedString(parts) => parts
            .iter()
            .map(|p| match p {
                SingleQuotedStringPart::String(s) => s.clone(),
                SingleQuotedStringPart::EscapedChar(SingleQuotedStringEscapedChar::SingleQuote) => "'".into(),
                SingleQuotedStringPart::BlankLines(n) => "\n".repeat(*n),
                SingleQuotedStringPart::RemovableNewline => String::new(),
            })
            .collect(),
        Yaml::DoubleQuotedString(parts) => parts
            .iter()
            .map(|p| match p {
                DoubleQuotedStringPart::String(s) => s.clone(),
                DoubleQuotedStringPart::EscapedChar(c) => match c {
                    DoubleQuotedStringEscapedChar::Quote => "\"",
                    DoubleQuotedStringEscapedChar::Backslash => "\\",
                    DoubleQuotedStringEscapedChar::Tab => "\t",
                    DoubleQuotedStringEscapedChar::CarriageReturn => "\r",
                    DoubleQuotedStringEscapedChar::Newline | DoubleQuotedStringEscapedChar::RealNewline => "\n",
                }
                .into(),
                DoubleQuotedStringPart::BlankLines(n) => "\n".repeat(*n),
                DoubleQuotedStringPart::RemovableNewline => String::new(),
            })
            .collect(),
        Yaml::LiteralString(lines, c) => ending(lines.join("\n"), lines.len(), c),
        Yaml::FoldedString(lines, c) => {
            // a line break between two lines of text becomes a space, or vanishes if empty lines
            // follow; next to a more indented line it stays
            let text: Vec<usize> = (0..lines.len()).filter(|i| !lines[*i].is_empty()).collect();
            let indented = |i: usize| lines[i].starts_with([' ', '\t']);
            let Some((first, last)) = text.first().zip(text.last()) else {
                return ending("\n".repeat(lines.len().saturating_sub(1)), lines.len(), c);
            };
            let mut body = "\n".repeat(*first) + &lines[*first];
            for w in text.windows(2) {
                let empty = w[1] - w[0] - 1;
                body += &match indented(w[0]) || indented(w[1]) {
                    true => "\n".repeat(empty + 1),
                    false if empty == 0 => " ".into(),
                    false => "\n".repeat(empty),
                };
                body += &lines[w[1]];
            }
            body += &"\n".repeat(lines.len() - 1 - last);
            ending(body, lines.len(), c)
        }
        other => panic!("not a scalar: {other:?}"),
    }
}

/// every scalar of a document
pub fn scalars<'a>(y: &'a Yaml, out: &mut Vec<&'a Yaml>) {
    match y {
        Yaml::InlineHash(h) => h.iter().for_each(|(_, v)| scalars(v, out)),
        Yaml::InlineArray(a) => a.iter().for_each(|v| scalars(v, out)),
        Yaml::Hash(h) => h.iter().for_each(|d| {
            if let HashData::Element(el) = d {
                scalars(&el.value.value, out)
            }
        }),
        Yaml::Array(a) => a.iter().for_each(|d| {
            if let ArrayData::Element(el) = d {
                scalars(&el.value, out)
            }
        }),
        Yaml::Anchor(_) => (),
        s => out.push(s),
    }
}

pub fn abs_al(a: &AliasedYaml) -> E {
    E {
        anchor: a.alias.clone(),
        v: abs(&a.value),
    }
}

pub fn root(d: &Document) -> &Yaml {
    d.items
        .iter()
        .find_map(|i| match i {
            DocumentData::Yaml(y) => Some(y),
            _ => None,
        })
        .expect("document has a value")
}

pub fn abs_doc(d: &Document) -> V {
    abs(root(d))
}

/// Document order stream of data and comments
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Ev {
    Comment(String),
    Key(String),
    Item,
    Anchor(String),
    Open(char),
    Close,
    Scalar(V),
}

pub fn events(d: &Document) -> Vec<Ev> {
    let mut out = Vec::new();
    for c in &d.leading_comments {
        out.push(Ev::Comment(c.clone()));
    }
    for i in &d.items {
        match i {
            DocumentData::Comment(c) => out.push(Ev::Comment(c.clone())),
            DocumentData::Yaml(y) => ev_yaml(y, &mut out),
        }
    }
    out
}

fn ev_al(a: &AliasedYaml, out: &mut Vec<Ev>) {
    if let Some(n) = &a.alias {
        out.push(Ev::Anchor(n.clone()));
    }
    ev_yaml(&a.value, out);
}

pub fn ev_yaml(y: &Yaml, out: &mut Vec<Ev>) {
    match y {
        Yaml::Hash(h) => {
            out.push(Ev::Open('{'));
            for d in h {
                match d {
                    HashData::Comment(c) | HashData::InlineComment(c) => {
                        out.push(Ev::Comment(c.clone()))
                    }
                    HashData::Element(el) => {
                        out.push(Ev::Key(el.key.clone()));
                        ev_al(&el.value, out);
                    }
                }
            }
            out.push(Ev::Close);
        }
        Yaml::InlineHash(h) => {
            out.push(Ev::Open('{'));
            for (k, v) in h {
                out.push(Ev::Key(k.clone()));
                ev_yaml(v, out);
            }
            out.push(Ev::Close);
        }
        Yaml::Array(a) => {
            out.push(Ev::Open('['));
            for d in a {
                match d {
                    ArrayData::Comment(c) | ArrayData::InlineComment(c) => {
                        out.push(Ev::Comment(c.clone()))
                    }
                    ArrayData::Element(el) => {
                        out.push(Ev::Item);
                        ev_al(el, out);
                    }
                }
            }
            out.push(Ev::Close);
        }
        Yaml::InlineArray(a) => {
            out.push(Ev::Open('['));
            for v in a {
                out.push(Ev::Item);
                ev_yaml(v, out);
            }
            out.push(Ev::Close);
        }
        other => out.push(Ev::Scalar(abs(other))),
    }
}

/// Only comments, keys and scalars, with the scalar type forgotten if asked: the position of a
/// comment relative to the data, independent of which container the parser attaches it to.
pub fn comment_positions(evs: &[Ev]) -> Vec<Ev> {
    evs.iter()
        .filter(|e| !matches!(e, Ev::Open(_) | Ev::Close))
        .map(|e| match e {
            Ev::Scalar(v) => Ev::Scalar(v.untyped()),
            o => o.clone(),
        })
        .collect()
}

// ------------------------------------------------------------------ abstract documents

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Chomp {
    Clip,
    Strip,
    Keep,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum G {
    Plain(String),
    /// quote char, raw text between the quotes, value
    Quoted(char, String, String),
    /// folded?, chomping, explicit indentation indicator?, lines relative to the block's indentation
    Block(bool, Chomp, bool, Vec<String>),
    Alias(String),
    BMap(Vec<(String, GE)>),
    BSeq(Vec<GE>),
    FMap(Vec<(String, G)>),
    FSeq(Vec<G>),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct GE {
    pub anchor: Option<String>,
    pub g: G,
}

pub fn ge(g: G) -> GE {
    GE { anchor: None, g }
}

impl G {
    pub fn value(&self) -> V {
        match self {
            G::Plain(s) => V::Plain(s.clone()),
            G::Quoted(_, _, v) => V::Text(v.clone()),
            G::Block(fold, chomp, _, lines) => V::Text(block_value(*fold, chomp, lines)),
            G::Alias(a) => V::Alias(a.clone()),
            G::BMap(m) => V::Map(m.iter().map(|(k, x)| (k.clone(), x.value())).collect()),
            G::BSeq(m) => V::Seq(m.iter().map(|x| x.value()).collect()),
            G::FMap(m) => V::Map(m.iter().map(|(k, x)| (k.clone(), e(x.value()))).collect()),
            G::FSeq(m) => V::Seq(m.iter().map(|x| e(x.value())).collect()),
        }
    }
    pub fn is_block_collection(&self) -> bool {
        matches!(self, G::BMap(_) | G::BSeq(_))
    }
    pub fn has_block_scalar(&self) -> bool {
        match self {
            G::Block(..) => true,
            G::BMap(m) => m.iter().any(|x| x.1.g.has_block_scalar()),
            G::BSeq(m) => m.iter().any(|x| x.g.has_block_scalar()),
            _ => false,
        }
    }
}

impl GE {
    pub fn value(&self) -> E {
        E {
            anchor: self.anchor.clone(),
            v: self.g.value(),
        }
    }
}

/// YAML 1.2 rules for block scalars (section 8.1), on lines relative to the block's indentation.
pub fn block_value(fold: bool, chomp: &Chomp, lines: &[String]) -> String {
    let last = lines
        .iter()
        .rposition(|l| !l.is_empty())
        .map_or(0, |i| i + 1);
    let (body, tail) = lines.split_at(last);
    let mut s = String::new();
    if !fold {
        for (i, l) in body.iter().enumerate() {
            if i > 0 {
                s.push('\n');
            }
            s.push_str(l);
        }
    } else {
        // groups of content lines separated by n >= 0 empty lines
        let mut prev: Option<&String> = None;
        let mut empties = 0;
        for l in body {
            if l.is_empty() {
                empties += 1;
                continue;
            }
            let spaced = |x: &str| x.starts_with(' ') || x.starts_with('\t');
            match prev {
                None => s.push_str(&"\n".repeat(empties)),
                Some(p) => {
                    if spaced(p) || spaced(l) {
                        s.push_str(&"\n".repeat(empties + 1));
                    } else if empties == 0 {
                        s.push(' ');
                    } else {
                        s.push_str(&"\n".repeat(empties));
                    }
                }
            }
            s.push_str(l);
            prev = Some(l);
            empties = 0;
        }
    }
    match chomp {
        Chomp::Strip => {}
        Chomp::Clip => {
            if !body.is_empty() {
                s.push('\n')
            }
        }
        Chomp::Keep => {
            if !body.is_empty() {
                s.push('\n');
            }
            s.push_str(&"\n".repeat(tail.len()));
        }
    }
    s
}

// ------------------------------------------------------------------ layouts

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Layout {
    /// columns a nested block is indented deeper
    pub step: usize,
    /// a sequence in a mapping may be at the mapping's own column
    pub seq_flush: bool,
    /// "- k: v" / "- - v" on one line
    pub compact: bool,
    /// blank lines before every entry
    pub blanks: usize,
    /// the blank lines contain spaces
    pub blank_ws: bool,
    pub colon_sp: usize,
    pub dash_sp: usize,
    pub trailing_ws: bool,
    pub crlf: bool,
    /// 0: [a, b]  1: [ a , b ]  2: one entry per line  3: [a,b]  4: commas at the start of the lines
    /// 5: as 2, with the value of a key on the next line  6: as 4, with the colon on the next line
    pub flow: usize,
    /// inline values on the line after "key:"
    pub next_line: bool,
    pub root_indent: usize,
    pub final_nl: usize,
    /// blank lines after ---
    pub blank_after_marker: usize,
    /// blank lines before ---
    pub blank_before_marker: usize,
}

pub const L0: Layout = Layout {
    step: 2,
    seq_flush: false,
    compact: true,
    blanks: 0,
    blank_ws: false,
    colon_sp: 1,
    dash_sp: 1,
    trailing_ws: false,
    crlf: false,
    flow: 0,
    next_line: false,
    root_indent: 0,
    final_nl: 1,
    blank_after_marker: 0,
    blank_before_marker: 0,
};

pub struct Render<'a> {
    l: &'a Layout,
    out: String,
    slot: usize,
    comment: &'a dyn Fn(usize) -> Option<String>,
    pub evs: Vec<Ev>,
    /// comment slots on their own line that can't be used for the current position
    lead: bool,
}

/// returns (text, expected events, number of comment slots)
pub fn render(
    g: &G,
    l: &Layout,
    comment: &dyn Fn(usize) -> Option<String>,
) -> (String, Vec<Ev>, usize) {
    let mut r = Render {
        l,
        out: String::new(),
        slot: 0,
        comment,
        evs: Vec::new(),
        lead: false,
    };
    for _ in 0..l.blank_before_marker {
        r.blank();
    }
    r.own_line_comment(0);
    r.out.push_str("---");
    r.nl();
    for _ in 0..l.blank_after_marker {
        r.blank();
    }
    if g.is_block_collection() {
        r.block(g, l.root_indent, false);
    } else {
        r.own_line_comment(0);
        let t = r.flow(g, 0);
        r.out.push_str(&t);
        r.nl();
    }
    r.own_line_comment(0);
    while r.out.ends_with('\n') {
        r.out.pop();
        if r.out.ends_with('\r') {
            r.out.pop();
        }
    }
    for _ in 0..l.final_nl {
        r.raw_nl();
    }
    (r.out, r.evs, r.slot)
}

pub fn no_comments(_: usize) -> Option<String> {
    None
}

impl<'a> Render<'a> {
    fn nl(&mut self) {
        if self.l.trailing_ws && !self.out.ends_with('\n') && !self.out.ends_with("---") {
            self.out.push_str("  ");
        }
        self.raw_nl();
    }
    fn raw_nl(&mut self) {
        self.out.push_str(if self.l.crlf { "\r\n" } else { "\n" });
    }
    fn blank(&mut self) {
        if self.l.blank_ws {
            self.out.push_str(" ");
        }
        self.raw_nl();
    }
    fn own_line_comment(&mut self, indent: usize) {
        let n = self.slot;
        self.slot += 1;
        if let Some(text) = (self.comment)(n) {
            // several lines: empty ones are blank lines, the others comments
            for c in text.split('\n') {
                if c.is_empty() && text.contains('\n') {
                    self.blank();
                    continue;
                }
                self.out.push_str(&" ".repeat(indent));
                self.out.push('#');
                self.out.push_str(c);
                self.raw_nl();
                self.evs.push(Ev::Comment(c.to_string()));
            }
        }
    }
    fn inline_comment(&mut self) {
        let n = self.slot;
        self.slot += 1;
        if let Some(c) = (self.comment)(n) {
            let c = c.split('\n').next().unwrap_or_default();
            self.out.push_str(" #");
            self.out.push_str(c);
            self.evs.push(Ev::Comment(c.to_string()));
            self.raw_nl();
        } else {
            self.nl();
        }
    }
    fn block(&mut self, g: &G, indent: usize, first_inline: bool) {
        match g {
            G::BMap(m) => {
                self.evs.push(Ev::Open('{'));
                for (i, (k, v)) in m.iter().enumerate() {
                    self.entry_start(i, indent, first_inline);
                    self.out.push_str(k);
                    self.out.push(':');
                    self.evs.push(Ev::Key(k.clone()));
                    self.value(v, indent, true);
                }
                self.evs.push(Ev::Close);
            }
            G::BSeq(m) => {
                self.evs.push(Ev::Open('['));
                for (i, v) in m.iter().enumerate() {
                    self.entry_start(i, indent, first_inline);
                    self.out.push('-');
                    self.evs.push(Ev::Item);
                    self.value(v, indent, false);
                }
                self.evs.push(Ev::Close);
            }
            _ => unreachable!(),
        }
    }
    fn entry_start(&mut self, i: usize, indent: usize, first_inline: bool) {
        if i == 0 && first_inline {
            return;
        }
        if i > 0 {
            for _ in 0..self.l.blanks {
                self.blank();
            }
        }
        self.own_line_comment(indent);
        self.out.push_str(&" ".repeat(indent));
    }
    fn value(&mut self, v: &GE, indent: usize, in_map: bool) {
        let sp = if in_map { self.l.colon_sp } else { self.l.dash_sp };
        let anchored = if let Some(a) = &v.anchor {
            self.out.push_str(&" ".repeat(sp));
            self.out.push('&');
            self.out.push_str(a);
            self.evs.push(Ev::Anchor(a.clone()));
            true
        } else {
            false
        };
        match &v.g {
            G::BMap(_) | G::BSeq(_) => {
                if !in_map && self.l.compact && !anchored {
                    self.out.push_str(&" ".repeat(sp));
                    self.block(&v.g, indent + 1 + sp, true);
                } else {
                    if anchored || !self.l.trailing_ws {
                        self.nl();
                    } else {
                        self.out.push(' ');
                        self.raw_nl();
                    }
                    let flush = in_map && self.l.seq_flush && matches!(v.g, G::BSeq(_));
                    let d = if flush { 0 } else { self.l.step };
                    self.block(&v.g, indent + d, false);
                }
            }
            G::Block(fold, chomp, indicator, lines) => {
                self.out.push_str(&" ".repeat(sp));
                self.out.push(if *fold { '>' } else { '|' });
                match chomp {
                    Chomp::Clip => {}
                    Chomp::Strip => self.out.push('-'),
                    Chomp::Keep => self.out.push('+'),
                }
                if *indicator {
                    self.out.push_str(&self.l.step.to_string());
                }
                self.nl();
                for line in lines {
                    if !line.is_empty() || self.l.blank_ws {
                        self.out.push_str(&" ".repeat(indent + self.l.step));
                    }
                    self.out.push_str(line);
                    self.raw_nl();
                }
                self.evs.push(Ev::Scalar(v.g.value()));
            }
            _ => {
                let nested = indent + self.l.step;
                if self.l.next_line && in_map && !anchored {
                    self.raw_nl();
                    self.out.push_str(&" ".repeat(nested));
                } else {
                    self.out.push_str(&" ".repeat(sp));
                }
                let t = self.flow(&v.g, nested);
                self.out.push_str(&t);
                self.inline_comment();
            }
        }
    }
    fn flow(&mut self, g: &G, indent: usize) -> String {
        match g {
            G::Plain(s) => {
                self.evs.push(Ev::Scalar(g.value()));
                s.clone()
            }
            G::Quoted(q, raw, _) => {
                self.evs.push(Ev::Scalar(g.value()));
                let raw = raw.replace('\n', if self.l.crlf { "\r\n" } else { "\n" });
                format!("{q}{raw}{q}")
            }
            G::Alias(a) => {
                self.evs.push(Ev::Scalar(g.value()));
                format!("*{a}")
            }
            G::FMap(m) => {
                self.evs.push(Ev::Open('{'));
                let parts: Vec<String> = m
                    .iter()
                    .map(|(k, v)| {
                        self.evs.push(Ev::Key(k.clone()));
                        let nl = if self.l.crlf { "\r\n" } else { "\n" };
                        let pad = " ".repeat(indent + 2);
                        let sep = match self.l.flow {
                            1 => " : ".to_string(),
                            5 => format!(":{nl}{pad}"),
                            6 => format!("{nl}{pad}: "),
                            _ => ": ".to_string(),
                        };
                        format!("{k}{sep}{}", self.flow(v, indent + 2))
                    })
                    .collect();
                self.evs.push(Ev::Close);
                self.flow_join('{', '}', parts, indent)
            }
            G::FSeq(m) => {
                self.evs.push(Ev::Open('['));
                let parts: Vec<String> = m
                    .iter()
                    .map(|v| {
                        self.evs.push(Ev::Item);
                        self.flow(v, indent + 1)
                    })
                    .collect();
                self.evs.push(Ev::Close);
                self.flow_join('[', ']', parts, indent)
            }
            _ => unreachable!("block node in flow"),
        }
    }
    fn flow_join(&self, o: char, c: char, parts: Vec<String>, indent: usize) -> String {
        let nl = if self.l.crlf { "\r\n" } else { "\n" };
        match self.l.flow {
            0 => format!("{o}{}{c}", parts.join(", ")),
            1 => format!("{o} {} {c}", parts.join(" , ")),
            3 => format!("{o}{}{c}", parts.join(",")),
            4 | 6 => {
                let pad = " ".repeat(indent + 1);
                format!("{o}{}{nl}{pad}{c}", parts.join(&format!("{nl}{pad},")))
            }
            _ => {
                let pad = " ".repeat(indent + 1);
                let inner: Vec<String> = parts.iter().map(|p| format!("{nl}{pad}{p}")).collect();
                format!("{o}{}{nl}{pad}{c}", inner.join(","))
            }
        }
    }
}

// ------------------------------------------------------------------ tree enumeration

/// How leaves and containers may be chosen
#[derive(Clone)]
pub struct Shape {
    /// leaf kinds in block context / in flow context
    pub block_leaves: Vec<G>,
    pub flow_leaves: Vec<G>,
    pub max_children: usize,
    pub flow: bool,
}

fn compositions(n: usize, max_parts: usize) -> Vec<Vec<usize>> {
    // ordered ways to write n as a sum of 1..=max_parts positive parts
    let mut out = Vec::new();
    fn go(n: usize, left: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if n == 0 {
            if !cur.is_empty() {
                out.push(cur.clone());
            }
            return;
        }
        if left == 0 {
            return;
        }
        for k in 1..=n {
            cur.push(k);
            go(n - k, left - 1, cur, out);
            cur.pop();
        }
    }
    go(n, max_parts, &mut Vec::new(), &mut out);
    out
}

fn product(lists: &[&Vec<G>]) -> Vec<Vec<G>> {
    let mut out: Vec<Vec<G>> = vec![vec![]];
    for l in lists {
        let mut next = Vec::with_capacity(out.len() * l.len());
        for p in &out {
            for x in l.iter() {
                let mut q = p.clone();
                q.push(x.clone());
                next.push(q);
            }
        }
        out = next;
    }
    out
}

/// all nodes with exactly n nodes, per context: (block, flow)
pub fn nodes_upto(shape: &Shape, n: usize) -> (Vec<Vec<G>>, Vec<Vec<G>>) {
    let mut block: Vec<Vec<G>> = vec![vec![]];
    let mut flow: Vec<Vec<G>> = vec![vec![]];
    for size in 1..=n {
        let mut f = Vec::new();
        let mut b = Vec::new();
        if size == 1 {
            f.extend(shape.flow_leaves.iter().cloned());
            b.extend(shape.block_leaves.iter().cloned());
        } else {
            for comp in compositions(size - 1, shape.max_children) {
                if shape.flow {
                    let lists: Vec<&Vec<G>> = comp.iter().map(|k| &flow[*k]).collect();
                    for ch in product(&lists) {
                        f.push(G::FMap(
                            ch.iter().map(|c| (String::new(), c.clone())).collect(),
                        ));
                        f.push(G::FSeq(ch));
                    }
                }
                let lists: Vec<&Vec<G>> = comp.iter().map(|k| &block[*k]).collect();
                for ch in product(&lists) {
                    b.push(G::BMap(
                        ch.iter()
                            .map(|c| (String::new(), ge(c.clone())))
                            .collect(),
                    ));
                    b.push(G::BSeq(ch.into_iter().map(ge).collect()));
                }
            }
            b.extend(f.iter().cloned());
        }
        block.push(b);
        flow.push(f);
    }
    (block, flow)
}

/// all labelled root collections with at most n nodes, smallest first
pub fn roots(shape: &Shape, n: usize) -> Vec<G> {
    let (block, _) = nodes_upto(shape, n);
    block
        .into_iter()
        .flatten()
        .filter(|g| {
            matches!(g, G::BMap(_) | G::BSeq(_)) || matches!(g, G::FMap(_) | G::FSeq(_))
        })
        .map(|mut g| {
            label(&mut g, &mut 0);
            g
        })
        .collect()
}

/// Gives every key and plain leaf a distinct name, so that mixed up entries are visible
pub fn label(g: &mut G, n: &mut usize) {
    match g {
        G::Plain(s) if s.is_empty() => {
            *n += 1;
            *s = format!("v{n}");
        }
        G::Quoted(_, raw, val) if raw.contains('@') => {
            *n += 1;
            *raw = raw.replace('@', &n.to_string());
            *val = val.replace('@', &n.to_string());
        }
        G::Block(_, _, _, lines) => {
            *n += 1;
            for l in lines.iter_mut() {
                *l = l.replace('@', &n.to_string());
            }
        }
        G::BMap(m) => {
            for (k, v) in m.iter_mut() {
                *n += 1;
                *k = format!("k{n}");
                label(&mut v.g, n);
            }
        }
        G::BSeq(m) => m.iter_mut().for_each(|v| label(&mut v.g, n)),
        G::FMap(m) => {
            for (k, v) in m.iter_mut() {
                *n += 1;
                *k = format!("k{n}");
                label(v, n);
            }
        }
        G::FSeq(m) => m.iter_mut().for_each(|v| label(v, n)),
        _ => {}
    }
}

/// Number of block entries (places where an anchor can be written)
pub fn entry_count(g: &G) -> usize {
    match g {
        G::BMap(m) => m.iter().map(|x| 1 + entry_count(&x.1.g)).sum(),
        G::BSeq(m) => m.iter().map(|x| 1 + entry_count(&x.g)).sum(),
        _ => 0,
    }
}

/// the tree with an anchor on the entries for which `f(position)` gives a name
pub fn with_anchors(g: &G, f: &dyn Fn(usize) -> Option<String>) -> G {
    fn go(g: &mut G, n: &mut usize, f: &dyn Fn(usize) -> Option<String>) {
        let on = |e: &mut GE, n: &mut usize| {
            // an alias can't be anchored
            if !matches!(e.g, G::Alias(_)) {
                e.anchor = f(*n);
            }
            *n += 1;
            go(&mut e.g, n, f);
        };
        match g {
            G::BMap(m) => m.iter_mut().for_each(|x| on(&mut x.1, n)),
            G::BSeq(m) => m.iter_mut().for_each(|x| on(x, n)),
            _ => {}
        }
    }
    let mut g = g.clone();
    go(&mut g, &mut 0, f);
    g
}

pub fn plain() -> G {
    G::Plain(String::new())
}
pub fn dq() -> G {
    G::Quoted('"', "d @: #\\n\\\"\\\\".into(), "d @: #\n\"\\".into())
}
pub fn sq() -> G {
    G::Quoted('\'', "it''s @: #".into(), "it's @: #".into())
}
/// quoted on several lines
pub fn dq_lines() -> G {
    G::Quoted('"', "d @:\n\n- #\\n\\\ne\nf".into(), "d @:\n- #\n\nef".into())
}
pub fn sq_lines() -> G {
    G::Quoted('\'', "it''s @:\n\n\n#\nx: y".into(), "it's @:\n\n#x: y".into())
}
pub fn lit() -> G {
    G::Block(
        false,
        Chomp::Clip,
        false,
        vec!["l@: x".into(), "".into(), " - m".into(), "# n".into()],
    )
}
pub fn fold() -> G {
    G::Block(
        true,
        Chomp::Strip,
        false,
        vec!["f@".into(), "g".into(), "".into(), "h: i".into()],
    )
}

pub fn shape(block: Vec<G>, flow: Vec<G>, max_children: usize) -> Shape {
    Shape {
        block_leaves: block,
        flow_leaves: flow,
        max_children,
        flow: true,
    }
}
