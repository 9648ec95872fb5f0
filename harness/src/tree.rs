//! The harness's own document tree, its conversion to the library's nodes and the projection of
//! the library's nodes to the records that the specification talks about. Neither direction uses
//! the library's computed data (sizes, resolved positions, ...), only constructors and fields.
use crate::ops::guard;
use prosemirror::markdown::*;
use prosemirror::model::*;
use serde_json::{json, Value};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Ty {
    Doc,
    Heading,
    CodeBlock,
    Text,
    Blockquote,
    Paragraph,
    BulletList,
    OrderedList,
    ListItem,
    HorizontalRule,
    HardBreak,
    Image,
}
use Ty::*;

pub const TYPES: [Ty; 12] = [
    Doc, Heading, CodeBlock, Text, Blockquote, Paragraph, BulletList, OrderedList, ListItem,
    HorizontalRule, HardBreak, Image,
];

impl Ty {
    pub fn name(self) -> &'static str {
        match self {
            Doc => "doc",
            Heading => "heading",
            CodeBlock => "code_block",
            Text => "text",
            Blockquote => "blockquote",
            Paragraph => "paragraph",
            BulletList => "bullet_list",
            OrderedList => "ordered_list",
            ListItem => "list_item",
            HorizontalRule => "horizontal_rule",
            HardBreak => "hard_break",
            Image => "image",
        }
    }
    pub fn by_name(s: &str) -> Option<Ty> {
        TYPES.iter().copied().find(|t| t.name() == s)
    }
    pub fn is_leaf(self) -> bool {
        matches!(self, Text | HorizontalRule | HardBreak | Image)
    }
    pub fn is_inline(self) -> bool {
        matches!(self, Text | HardBreak | Image)
    }
    pub fn is_block(self) -> bool {
        !matches!(self, Text | HardBreak | Image | Doc | ListItem)
    }
    pub fn is_textblock(self) -> bool {
        matches!(self, Paragraph | Heading | CodeBlock)
    }
    pub fn real(self) -> MarkdownNodeType {
        match self {
            Doc => MarkdownNodeType::Doc,
            Heading => MarkdownNodeType::Heading,
            CodeBlock => MarkdownNodeType::CodeBlock,
            Text => MarkdownNodeType::Text,
            Blockquote => MarkdownNodeType::Blockquote,
            Paragraph => MarkdownNodeType::Paragraph,
            BulletList => MarkdownNodeType::BulletList,
            OrderedList => MarkdownNodeType::OrderedList,
            ListItem => MarkdownNodeType::ListItem,
            HorizontalRule => MarkdownNodeType::HorizontalRule,
            HardBreak => MarkdownNodeType::HardBreak,
            Image => MarkdownNodeType::Image,
        }
    }
}

pub fn type_name(t: MarkdownNodeType) -> &'static str {
    TYPES.iter().find(|x| x.real() == t).unwrap().name()
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum At {
    None,
    Level(u8),
    Params(String),
    Tight(bool),
    Order(usize, bool),
    Img { src: String, alt: String, title: String },
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Mk {
    Strong,
    Em,
    Code,
    Link(String, String),
}

impl Mk {
    pub fn rank(&self) -> u8 {
        match self {
            Mk::Strong => 0,
            Mk::Em => 1,
            Mk::Code => 2,
            Mk::Link(..) => 3,
        }
    }
    pub fn real(&self) -> MarkdownMark {
        match self {
            Mk::Strong => MarkdownMark::Strong,
            Mk::Em => MarkdownMark::Em,
            Mk::Code => MarkdownMark::Code,
            Mk::Link(h, t) => MarkdownMark::Link {
                attrs: LinkAttrs { href: h.clone(), title: t.clone() },
            },
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct N {
    pub t: Ty,
    pub a: At,
    pub s: String,
    pub m: Vec<Mk>,
    pub c: Vec<N>,
}

impl N {
    pub fn new(t: Ty, a: At, c: Vec<N>) -> N {
        N { t, a, s: String::new(), m: vec![], c }
    }
    pub fn text(s: &str, m: Vec<Mk>) -> N {
        N { t: Text, a: At::None, s: s.to_string(), m, c: vec![] }
    }
    pub fn units(&self) -> usize {
        self.s.encode_utf16().count()
    }
    pub fn size(&self) -> usize {
        match self.t {
            Text => self.units(),
            t if t.is_leaf() => 1,
            _ => 2 + self.inner(),
        }
    }
    pub fn inner(&self) -> usize {
        self.c.iter().map(N::size).sum()
    }
    pub fn build(&self) -> MarkdownNode {
        match age(8) {
            0 => {}
            1 | 2 if self.t == Text => {
                let made = guard(|| {
                    let mut i = age(self.s.len() + 1);
                    while !self.s.is_char_boundary(i) {
                        i -= 1;
                    }
                    let (a, b) = self.s.split_at(i);
                    let text = |s: &str| prosemirror::model::Text::from(s.to_string());
                    let text = text(a).join(&text(b));
                    MarkdownNode::Text(TextNode { marks: mark_set(&self.m), text })
                });
                if let Some(n) = self.good(made) {
                    return n;
                }
            }
            3 | 4 if self.t == Text => {
                let made = guard(|| {
                    let around = ["", "x", "\u{e9}", "\u{1F60A}", " long text "];
                    let (a, b) = (around[age(5)], around[age(5)]);
                    let text = prosemirror::model::Text::from(format!("{}{}{}", a, self.s, b));
                    let n = MarkdownNode::Text(TextNode { marks: mark_set(&self.m), text });
                    let len = |s: &str| s.encode_utf16().count();
                    n.cut(len(a)..len(a) + len(&self.s)).into_owned()
                });
                if let Some(n) = self.good(made) {
                    return n;
                }
            }
            5 => {
                let n = self.plain();
                let made = guard(|| serde_json::to_string(&n).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(MarkdownNode::HardBreak));
                if let Some(n) = self.good(made) {
                    return n;
                }
            }
            _ => {}
        }
        self.plain()
    }
    /// The node, if it is one for this tree
    fn good(&self, n: Result<MarkdownNode, String>) -> Option<MarkdownNode> {
        n.ok().filter(|n| pnode(n) == self.projection())
    }
    fn projection(&self) -> Value {
        let was = AGE.with(|a| a.replace(0));
        let p = pnode(&self.build());
        AGE.with(|a| a.set(was));
        p
    }
    fn plain(&self) -> MarkdownNode {
        let frag = || frag(&self.c);
        match (self.t, &self.a) {
            (Doc, _) => MarkdownNode::Doc(Block { content: frag() }),
            (Heading, At::Level(l)) => MarkdownNode::Heading(AttrNode {
                attrs: HeadingAttrs { level: *l },
                content: frag(),
            }),
            (CodeBlock, At::Params(p)) => MarkdownNode::CodeBlock(AttrNode {
                attrs: CodeBlockAttrs { params: p.clone() },
                content: frag(),
            }),
            (Text, _) => MarkdownNode::Text(TextNode {
                marks: mark_set(&self.m),
                text: prosemirror::model::Text::from(self.s.clone()),
            }),
            (Blockquote, _) => MarkdownNode::Blockquote(Block { content: frag() }),
            (Paragraph, _) => MarkdownNode::Paragraph(Block { content: frag() }),
            (BulletList, At::Tight(t)) => MarkdownNode::BulletList(AttrNode {
                attrs: BulletListAttrs { tight: *t },
                content: frag(),
            }),
            (OrderedList, At::Order(o, t)) => MarkdownNode::OrderedList(AttrNode {
                attrs: OrderedListAttrs { order: *o, tight: *t },
                content: frag(),
            }),
            (ListItem, _) => MarkdownNode::ListItem(Block { content: frag() }),
            (HorizontalRule, _) => MarkdownNode::HorizontalRule,
            (HardBreak, _) => MarkdownNode::HardBreak,
            (Image, At::Img { src, alt, title }) => MarkdownNode::Image(Leaf {
                attrs: ImageAttrs { src: src.clone(), alt: alt.clone(), title: title.clone() },
            }),
            _ => unreachable!("attributes of {:?}", self),
        }
    }
}

thread_local! {
    /// Where documents come from: 0 for the constructors only, else a state from which each part
    /// gets a history of its own, such as being cut out of something larger
    pub static AGE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

fn age(n: usize) -> usize {
    AGE.with(|a| {
        let x = a.get();
        if x == 0 {
            return 0;
        }
        let x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407).max(1);
        a.set(x);
        ((x >> 33) as usize) % n
    })
}

pub fn frag(c: &[N]) -> Fragment<MD> {
    let nodes: Vec<MarkdownNode> = c.iter().map(N::build).collect();
    let kind = age(8);
    let plain = Fragment::from(nodes.clone());
    if kind == 0 || kind > 3 {
        return plain;
    }
    let made = guard(|| match kind {
        // in two parts
        1 => {
            let i = age(nodes.len() + 1);
            Fragment::from(nodes[..i].to_vec()).append(Fragment::from(nodes[i..].to_vec()))
        }
        // out of a larger one
        2 => {
            let mut more = nodes.clone();
            more.insert(0, MarkdownNode::HorizontalRule);
            more.push(MarkdownNode::HardBreak);
            let size: usize = c.iter().map(N::size).sum();
            Fragment::from(more).cut(1..size + 1)
        }
        // with another child at first
        _ => {
            if nodes.is_empty() {
                return Fragment::new();
            }
            let i = age(nodes.len());
            let mut other = nodes.clone();
            other[i] = MarkdownNode::HorizontalRule;
            Fragment::from(other).replace_child(i, nodes[i].clone()).into_owned()
        }
    });
    match made {
        Ok(f) if pnodes(f.children()) == pnodes(plain.children()) => f,
        _ => plain,
    }
}

pub fn mark_set(m: &[Mk]) -> MarkSet<MD> {
    let mut set = MarkSet::<MD>::default();
    let extra = age(4);
    if extra == 1 {
        set.add(&MarkdownMark::Code);
        set.add(&MarkdownMark::Em);
    }
    for x in m {
        set.add(&x.real());
    }
    for (x, k) in [(MarkdownMark::Code, Mk::Code), (MarkdownMark::Em, Mk::Em)] {
        if extra == 1 && !m.contains(&k) {
            set.remove(&x);
        }
    }
    set
}

// ---------------------------------------------------------------------------------------------
// Positions on the harness's own tree (used to choose inputs only)

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    O(Ty, At),
    C,
    L(Ty, At),
    X(u16, Vec<Mk>),
}

pub fn toks_into(c: &[N], out: &mut Vec<Tok>) {
    for n in c {
        match n.t {
            Text => out.extend(n.s.encode_utf16().map(|u| Tok::X(u, n.m.clone()))),
            t if t.is_leaf() => out.push(Tok::L(n.t, n.a.clone())),
            _ => {
                out.push(Tok::O(n.t, n.a.clone()));
                toks_into(&n.c, out);
                out.push(Tok::C);
            }
        }
    }
}

pub fn toks(c: &[N]) -> Vec<Tok> {
    let mut v = vec![];
    toks_into(c, &mut v);
    v
}

pub fn parse(toks: &[Tok]) -> Vec<N> {
    struct F {
        t: Ty,
        a: At,
        c: Vec<N>,
        text: Vec<u16>,
        m: Vec<Mk>,
    }
    fn flush(f: &mut F) {
        if !f.text.is_empty() {
            let s = String::from_utf16_lossy(&f.text);
            f.text.clear();
            let m = std::mem::take(&mut f.m);
            f.c.push(N::text(&s, m));
        }
    }
    let mut st = vec![F { t: Doc, a: At::None, c: vec![], text: vec![], m: vec![] }];
    for k in toks {
        let top = st.last_mut().unwrap();
        match k {
            Tok::X(u, m) => {
                if !top.text.is_empty() && &top.m != m {
                    flush(top);
                }
                top.m = m.clone();
                top.text.push(*u);
            }
            Tok::L(t, a) => {
                flush(top);
                top.c.push(N::new(*t, a.clone(), vec![]));
            }
            Tok::O(t, a) => {
                flush(top);
                st.push(F { t: *t, a: a.clone(), c: vec![], text: vec![], m: vec![] });
            }
            Tok::C => {
                flush(top);
                let f = st.pop().unwrap();
                st.last_mut().unwrap().c.push(N::new(f.t, f.a, f.c));
            }
        }
    }
    flush(st.last_mut().unwrap());
    st.pop().unwrap().c
}

pub fn path(t: &[Tok], p: usize) -> Vec<usize> {
    let mut st = vec![];
    for (i, k) in t[..p].iter().enumerate() {
        match k {
            Tok::O(..) => st.push(i),
            Tok::C => {
                st.pop();
            }
            _ => {}
        }
    }
    st
}

pub fn depth(t: &[Tok], p: usize) -> usize {
    path(t, p).len()
}

pub fn boundary(t: &[Tok], p: usize) -> bool {
    p <= t.len() && !(p < t.len() && matches!(t[p], Tok::X(u, _) if (0xDC00..0xE000).contains(&u)))
}

/// A slice made by the harness
#[derive(Clone, Debug, PartialEq)]
pub struct Sl {
    pub c: Vec<N>,
    pub os: usize,
    pub oe: usize,
}

impl Sl {
    pub fn empty() -> Sl {
        Sl { c: vec![], os: 0, oe: 0 }
    }
    pub fn build(&self) -> Slice<MD> {
        Slice::new(frag(&self.c), self.os, self.oe)
    }
}

pub fn slice_of(t: &[Tok], from: usize, to: usize, include: bool) -> Sl {
    if from >= to {
        return Sl::empty();
    }
    let a = path(t, from);
    let b = path(t, to);
    let mut d = 0;
    if !include {
        while d < a.len() && d < b.len() && a[d] == b[d] {
            d += 1;
        }
    }
    let mut v: Vec<Tok> = a[d..].iter().map(|i| t[*i].clone()).collect();
    v.extend_from_slice(&t[from..to]);
    v.extend(b[d..].iter().map(|_| Tok::C));
    Sl { c: parse(&v), os: a.len() - d, oe: b.len() - d }
}

// ---------------------------------------------------------------------------------------------
// Projection of the library's values

pub fn unit(u: u16) -> String {
    match u {
        0xD800..=0xDBFF => format!("H{}", u - 0xD800),
        0xDC00..=0xDFFF => format!("L{}", u - 0xDC00),
        _ if u < 128 && (u as u8).is_ascii_alphanumeric() => (u as u8 as char).to_string(),
        _ => format!("u{:04x}", u),
    }
}

pub fn units(s: &str) -> Value {
    Value::Array(s.encode_utf16().map(|u| Value::String(unit(u))).collect())
}

pub fn type_str(node: &MarkdownNode) -> &'static str {
    match node {
        MarkdownNode::Doc(_) => "doc",
        MarkdownNode::Heading(_) => "heading",
        MarkdownNode::CodeBlock(_) => "code_block",
        MarkdownNode::Text(_) => "text",
        MarkdownNode::Blockquote(_) => "blockquote",
        MarkdownNode::Paragraph(_) => "paragraph",
        MarkdownNode::BulletList(_) => "bullet_list",
        MarkdownNode::OrderedList(_) => "ordered_list",
        MarkdownNode::ListItem(_) => "list_item",
        MarkdownNode::HorizontalRule => "horizontal_rule",
        MarkdownNode::HardBreak => "hard_break",
        MarkdownNode::Image(_) => "image",
    }
}

pub fn fragment(node: &MarkdownNode) -> Option<&Fragment<MD>> {
    match node {
        MarkdownNode::Doc(b)
        | MarkdownNode::Blockquote(b)
        | MarkdownNode::Paragraph(b)
        | MarkdownNode::ListItem(b) => Some(&b.content),
        MarkdownNode::Heading(n) => Some(&n.content),
        MarkdownNode::CodeBlock(n) => Some(&n.content),
        MarkdownNode::BulletList(n) => Some(&n.content),
        MarkdownNode::OrderedList(n) => Some(&n.content),
        _ => None,
    }
}

pub fn children(node: &MarkdownNode) -> &[MarkdownNode] {
    fragment(node).map_or(&[], |f| f.children())
}

pub fn pmark(m: &MarkdownMark) -> Value {
    match m {
        MarkdownMark::Strong => json!({"k": "strong", "a": []}),
        MarkdownMark::Em => json!({"k": "em", "a": []}),
        MarkdownMark::Code => json!({"k": "code", "a": []}),
        MarkdownMark::Link { attrs } => json!({"k": "link", "a": [
            ["href", "s", attrs.href], ["title", "s", attrs.title]]}),
    }
}

pub fn pmarks(m: &MarkSet<MD>) -> Value {
    Value::Array(m.into_iter().map(pmark).collect())
}

pub fn pattrs(node: &MarkdownNode) -> Value {
    match node {
        MarkdownNode::Heading(n) => json!([["level", "n", n.attrs.level.to_string()]]),
        MarkdownNode::CodeBlock(n) => json!([["params", "s", n.attrs.params]]),
        MarkdownNode::BulletList(n) => json!([["tight", "b", n.attrs.tight.to_string()]]),
        MarkdownNode::OrderedList(n) => json!([
            ["order", "n", n.attrs.order.to_string()],
            ["tight", "b", n.attrs.tight.to_string()]
        ]),
        MarkdownNode::Image(n) => json!([
            ["alt", "s", n.attrs.alt],
            ["src", "s", n.attrs.src],
            ["title", "s", n.attrs.title]
        ]),
        _ => json!([]),
    }
}

pub fn pnode(node: &MarkdownNode) -> Value {
    let (s, m) = match node {
        MarkdownNode::Text(t) => (units(t.text.as_str()), pmarks(&t.marks)),
        _ => (json!([]), json!([])),
    };
    json!({"t": type_str(node), "a": pattrs(node), "s": s, "m": m, "c": pnodes(children(node))})
}

pub fn pnodes(c: &[MarkdownNode]) -> Value {
    Value::Array(c.iter().map(pnode).collect())
}

pub fn pslice(s: &Slice<MD>) -> Value {
    json!({"c": pnodes(s.content.children()), "os": s.open_start, "oe": s.open_end})
}

/// The library's node as the harness's own tree
pub fn unbuild(node: &MarkdownNode) -> N {
    let t = Ty::by_name(type_str(node)).unwrap();
    let a = match node {
        MarkdownNode::Heading(n) => At::Level(n.attrs.level),
        MarkdownNode::CodeBlock(n) => At::Params(n.attrs.params.clone()),
        MarkdownNode::BulletList(n) => At::Tight(n.attrs.tight),
        MarkdownNode::OrderedList(n) => At::Order(n.attrs.order, n.attrs.tight),
        MarkdownNode::Image(n) => At::Img {
            src: n.attrs.src.clone(),
            alt: n.attrs.alt.clone(),
            title: n.attrs.title.clone(),
        },
        _ => At::None,
    };
    let (s, m) = match node {
        MarkdownNode::Text(t) => (
            t.text.as_str().to_string(),
            (&t.marks)
                .into_iter()
                .map(|m| match m {
                    MarkdownMark::Strong => Mk::Strong,
                    MarkdownMark::Em => Mk::Em,
                    MarkdownMark::Code => Mk::Code,
                    MarkdownMark::Link { attrs } => {
                        Mk::Link(attrs.href.clone(), attrs.title.clone())
                    }
                })
                .collect(),
        ),
        _ => (String::new(), vec![]),
    };
    N { t, a, s, m, c: children(node).iter().map(unbuild).collect() }
}
