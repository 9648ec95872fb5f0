//! Seeded generators for documents, slices, ranges and marks.
use crate::ops::St;
use crate::tree::{Ty::*, *};

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n (0 if n is 0)
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b + 1 - a)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

const PLAIN: [char; 10] = ['a', 'b', 'c', 'd', 'e', 'x', 'y', 'z', 'A', '7'];
const ODD: [char; 24] = [
    ' ', '\n', 'é', 'ß', '中', '\u{301}', '\u{1F60A}', '\u{1F468}', '\u{10000}', '\u{10FFFF}', '\u{FFFD}', '\0', '\\', '"', '\u{2028}', '\u{D7FF}',
    ' ', '\n', '\r', '\t', '\u{FEFF}', '\u{A0}', '\u{200D}', '\u{7F}',
];
/// Strings of several characters that programs like to treat in a special way
const RUNS: [&str; 20] = [
    "\r\n", "\n\n", "\n", "\r", "  ", " ", "\t", "--", "...", "&amp;", "\\n", "\u{1F468}\u{200D}\u{1F469}", "fi", "\u{FB01}", "``", "**", "<br>", "//", "\u{85}",
    "\u{FEFF}",
];

thread_local! {
    /// Not 0: make what was made before with the same random numbers, except for small
    /// differences that leave most sizes as they were
    pub static NEARLY: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// Now and then: a source of random numbers for a small difference
pub fn nearly(den: usize) -> Option<Rng> {
    NEARLY.with(|x| {
        if x.get() == 0 {
            return None;
        }
        let mut q = Rng(x.get());
        let hit = q.chance(1, den);
        x.set(q.next().max(1));
        Some(q).filter(|_| hit)
    })
}

pub fn text(r: &mut Rng, max: usize) -> String {
    let s = any_text(r, max);
    match nearly(5) {
        Some(mut q) => {
            let n = s.chars().count();
            let at = q.below(n);
            let other = if q.chance(1, 4) { 'é' } else { *q.pick(&PLAIN) };
            s.chars().enumerate().map(|(i, c)| if i == at && c.len_utf16() == 1 { other } else { c }).collect()
        }
        None => s,
    }
}

fn any_text(r: &mut Rng, max: usize) -> String {
    let n = if r.chance(1, 40) {
        r.range(30, 90)
    } else if r.chance(1, 400) {
        r.range(250, 300)
    } else if r.chance(1, 4000) {
        r.range(1000, 1100)
    } else {
        r.range(1, max.max(1))
    };
    let odd = r.chance(1, 3);
    let s: String = (0..n).map(|_| if odd && r.chance(1, 2) { *r.pick(&ODD) } else { *r.pick(&PLAIN) }).collect();
    if r.chance(1, 12) {
        run(r, &s)
    } else {
        s
    }
}

/// Puts one of RUNS at the start, the end or somewhere in between
fn run(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let at = match r.below(3) {
        0 => 0,
        1 => c.len(),
        _ => r.below(c.len() + 1),
    };
    let tail = c.split_off(at);
    c.extend(r.pick(&RUNS).chars());
    c.extend(tail);
    c.into_iter().collect()
}

/// Strings that are easily taken for each other
const NEAR: [&str; 16] = [
    "a", "A", "a ", " a", "a/", "a#", "aa", "b", "\u{e9}", "e\u{301}", "\u{c9}", "a\n", "/a", "http://a", "a&amp;", "\u{ff41}",
];

/// A small change of the string
pub fn near(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let at = r.below(c.len() + 1);
    match r.below(8) {
        0 => c.push(' '),
        1 => c.insert(0, ' '),
        2 => return if s.to_lowercase() == s { s.to_uppercase() } else { s.to_lowercase() },
        3 => {
            c.pop();
        }
        4 if at < c.len() => {
            c.remove(at);
        }
        5 if at + 1 < c.len() => c.swap(at, at + 1),
        6 => c.insert(at, *r.pick(&ODD)),
        _ => c.insert(at, *r.pick(&PLAIN)),
    }
    c.into_iter().collect()
}

pub fn attr_str(r: &mut Rng) -> String {
    match r.below(10) {
        0 | 1 => String::new(),
        2..=5 => r.pick(&NEAR).to_string(),
        6 => "http://example.org/?a=1&b=\"2\"".into(),
        7 => "title \\ with 'quotes' \"and\" more".into(),
        8 => {
            let s = r.pick(&["\u{1F60A}é\n\t\0", "rust", "rust,ignore", "javascript:alert(1)", "//a", "null"]).to_string();
            if r.chance(1, 2) {
                near(r, &s)
            } else {
                s
            }
        }
        _ => {
            let n = if r.chance(1, 20) { r.range(20, 300) } else { r.range(1, 5) };
            let s: String = (0..n).map(|_| *r.pick(&PLAIN)).collect();
            if r.chance(1, 2) {
                run(r, &s)
            } else {
                s
            }
        }
    }
}

/// A number, rarely one at the limit of some type
pub fn number(r: &mut Rng, small: usize) -> usize {
    if r.chance(1, 8) {
        let at = *r.pick(&[0, 10, 255, 256, 1000, 65535, 65536, 999_999_999, 1 << 31, 1 << 32, 1 << 53, usize::MAX / 2, usize::MAX - 20]);
        at.saturating_add(r.below(small))
    } else {
        r.below(small)
    }
}

pub fn mark(r: &mut Rng) -> Mk {
    match r.below(6) {
        0 => Mk::Strong,
        1 => Mk::Em,
        2 => Mk::Code,
        3 => Mk::Link(r.pick(&NEAR[..8]).to_string(), String::new()),
        4 => Mk::Link("b".into(), r.pick(&NEAR[..8]).to_string()),
        _ => Mk::Link(attr_str(r), attr_str(r)),
    }
}

/// The same marks but for a small difference
pub fn near_marks(r: &mut Rng, m: &[Mk]) -> Vec<Mk> {
    let mut m = m.to_vec();
    let n = m.len();
    match m.last_mut() {
        Some(Mk::Link(h, _)) if r.chance(1, 3) => *h = near(r, h),
        Some(Mk::Link(_, t)) if r.chance(1, 2) => *t = near(r, t),
        _ if n > 0 && r.chance(1, 2) => {
            m.remove(r.below(n));
        }
        _ => {
            let all = [Mk::Strong, Mk::Em, Mk::Code, Mk::Link(r.pick(&NEAR[..8]).to_string(), String::new())];
            let x = r.pick(&all).clone();
            if !m.iter().any(|y| y.rank() == x.rank()) {
                m.push(x);
                m.sort_by_key(|y| y.rank());
            }
        }
    }
    m
}

/// A small change of a node somewhere in it
pub fn tweak(r: &mut Rng, n: &mut N) {
    if !n.c.is_empty() && r.chance(5, 6) {
        let i = r.below(n.c.len());
        return tweak(r, &mut n.c[i]);
    }
    match n.t {
        Text => match r.below(3) {
            0 => n.m = near_marks(r, &n.m),
            1 => n.s = text(r, 3),
            _ => n.s = near(r, &n.s),
        },
        t if r.chance(1, 4) => n.a = attrs(r, t),
        // one attribute only, and only a little
        _ => match &mut n.a {
            At::None => {}
            At::Level(l) => *l = if r.chance(1, 2) { l.wrapping_add(1) } else { r.below(256) as u8 },
            At::Params(p) => *p = near(r, p),
            At::Tight(t) => *t = !*t,
            At::Order(n, t) => match r.below(3) {
                0 => *t = !*t,
                1 => *n = n.wrapping_add(1),
                _ => *n ^= *r.pick(&[1, 1 << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 53, 1 << 63]),
            },
            At::Img { src, alt, title } => {
                let s = match r.below(3) {
                    0 => src,
                    1 => alt,
                    _ => title,
                };
                *s = near(r, s);
            }
        },
    }
}

/// A node that is easily taken for this one: with other attributes, of another type, or with a
/// small change somewhere
pub fn nearby(r: &mut Rng, n: &N) -> N {
    let mut x = n.clone();
    match r.below(4) {
        0 if n.t != Text => {
            x.t = *r.pick(if n.c.is_empty() {
                &[Paragraph, Heading, CodeBlock, Blockquote, HorizontalRule, HardBreak, Image, BulletList][..]
            } else {
                &[Doc, Paragraph, Heading, CodeBlock, Blockquote, BulletList, OrderedList, ListItem][..]
            });
            if x.t != n.t {
                x.a = attrs(r, x.t);
            }
        }
        1 | 2 => {
            // only the node itself
            let c = std::mem::take(&mut x.c);
            tweak(r, &mut x);
            x.c = c;
        }
        _ => tweak(r, &mut x),
    }
    x
}

/// sorted, at most one mark per type
pub fn marks(r: &mut Rng) -> Vec<Mk> {
    let m = any_marks(r);
    match nearly(4) {
        Some(mut q) => near_marks(&mut q, &m),
        None => m,
    }
}

fn any_marks(r: &mut Rng) -> Vec<Mk> {
    if r.chance(2, 5) {
        return vec![];
    }
    let mut v = vec![];
    for k in 0..4 {
        if r.chance(1, 3) {
            v.push(match k {
                0 => Mk::Strong,
                1 => Mk::Em,
                2 => Mk::Code,
                _ => loop {
                    if let m @ Mk::Link(..) = mark(r) {
                        break m;
                    }
                },
            });
        }
    }
    v
}

pub fn attrs(r: &mut Rng, t: Ty) -> At {
    let a = any_attrs(r, t);
    match nearly(4) {
        Some(mut q) if t != Text => {
            let mut n = N::new(t, a, vec![]);
            tweak(&mut q, &mut n);
            n.a
        }
        _ => a,
    }
}

fn any_attrs(r: &mut Rng, t: Ty) -> At {
    match t {
        Heading => At::Level(match r.below(20) { 0 => r.below(256) as u8, 1 => r.range(6, 9) as u8, 2 => 0, _ => r.range(1, 6) as u8 }),
        CodeBlock => At::Params(attr_str(r)),
        BulletList => At::Tight(r.chance(1, 2)),
        OrderedList => {
            At::Order(number(r, 12), r.chance(1, 2))
        }
        Image => At::Img { src: attr_str(r), alt: attr_str(r), title: attr_str(r) },
        _ => At::None,
    }
}

/// Inline content: normal form, types restricted by the parent
pub fn inline(r: &mut Rng, parent: Ty, max: usize) -> Vec<N> {
    let n = if r.chance(1, 6) { 0 } else { r.range(1, max.max(1)) };
    let mut v: Vec<N> = vec![];
    for _ in 0..n {
        let k = r.below(10);
        let node = if parent != CodeBlock && k == 0 {
            N::new(Image, attrs(r, Image), vec![])
        } else if parent == Paragraph && k == 1 {
            N::new(HardBreak, At::None, vec![])
        } else {
            let m = match v.last() {
                _ if parent == CodeBlock => vec![],
                Some(l) if l.t == Text && r.chance(1, 4) => near_marks(r, &l.m),
                _ => marks(r),
            };
            N::text(&text(r, 5), m)
        };
        push_normal(&mut v, node);
    }
    v
}

pub fn push_normal(v: &mut Vec<N>, n: N) {
    if let Some(l) = v.last_mut() {
        if l.t == Text && n.t == Text && l.m == n.m {
            l.s.push_str(&n.s);
            return;
        }
    }
    v.push(n);
}

/// A valid node of type t with about budget tokens
pub fn node(r: &mut Rng, t: Ty, budget: usize) -> N {
    let a = attrs(r, t);
    let c = match t {
        Text => return N::text(&text(r, 5), marks(r)),
        HorizontalRule | HardBreak | Image => vec![],
        Paragraph | Heading | CodeBlock => inline(r, t, (budget / 3).max(1).min(6)),
        Doc | Blockquote => blocks(r, budget.saturating_sub(2), true),
        ListItem => {
            let first = budget / 2;
            let mut v = vec![node(r, Paragraph, first.min(9))];
            if budget > 8 && r.chance(1, 2) {
                v.extend(blocks(r, budget - first, false));
            }
            v
        }
        BulletList | OrderedList => {
            let n = r.range(1, (budget / 5).max(1).min(4));
            (0..n).map(|_| node(r, ListItem, budget / n)).collect()
        }
    };
    N::new(t, a, c)
}

pub fn blocks(r: &mut Rng, budget: usize, plus: bool) -> Vec<N> {
    let mut left = budget as isize;
    let mut v = vec![];
    while (plus && v.is_empty()) || left > 2 {
        let t = if left < 8 {
            *r.pick(&[Paragraph, Paragraph, Heading, HorizontalRule, CodeBlock])
        } else {
            *r.pick(&[
                Paragraph, Paragraph, Heading, CodeBlock, HorizontalRule, Blockquote, Blockquote, BulletList,
                OrderedList,
            ])
        };
        let part = r.range(2, (left.max(3)) as usize);
        let n = node(r, t, part);
        left -= n.size() as isize;
        v.push(n);
        if r.chance(1, 12) {
            break;
        }
    }
    v
}

/// A nest of containers with a little text inside
pub fn deep(r: &mut Rng, levels: usize) -> N {
    let t = *r.pick(&[Paragraph, CodeBlock, Heading]);
    let mut n = node(r, t, 6);
    for _ in 0..levels {
        n = match r.below(3) {
            0 | 1 => {
                let mut c = vec![n];
                if r.chance(1, 4) {
                    c.insert(0, node(r, Paragraph, 3));
                }
                if r.chance(1, 4) {
                    c.push(node(r, Paragraph, 3));
                }
                N::new(Blockquote, At::None, c)
            }
            _ => {
                let li = N::new(ListItem, At::None, vec![node(r, Paragraph, 3), n]);
                let t = *r.pick(&[BulletList, OrderedList]);
                let a = attrs(r, t);
                N::new(t, a, vec![li])
            }
        };
    }
    N::new(Doc, At::None, vec![n])
}

/// Many small siblings
pub fn wide(r: &mut Rng, n: usize) -> N {
    match r.below(3) {
        0 => {
            let c = (0..n)
                .map(|_| {
                    let t = *r.pick(&[Paragraph, HorizontalRule, Heading]);
                    node(r, t, 3)
                })
                .collect();
            N::new(Doc, At::None, c)
        }
        1 => {
            let c = (0..n / 2)
                .map(|_| N::new(ListItem, At::None, vec![node(r, Paragraph, 3)]))
                .collect();
            let t = *r.pick(&[BulletList, OrderedList]);
            let a = attrs(r, t);
            N::new(Doc, At::None, vec![N::new(t, a, c)])
        }
        _ => {
            let mut v = vec![];
            for i in 0..n {
                let x = if i % 7 == 3 {
                    N::new(HardBreak, At::None, vec![])
                } else {
                    N::text(&text(r, 2), marks(r))
                };
                push_normal(&mut v, x);
            }
            N::new(Doc, At::None, vec![N::new(Paragraph, At::None, v)])
        }
    }
}

thread_local! {
    /// Whether documents are huge (more than 2^16 tokens): 1 with a long text, 2 with many texts
    pub static HUGE: std::cell::Cell<u8> = std::cell::Cell::new(0);
}

/// A document with more than 2^16 tokens, most of them in a few long texts or many short ones
fn huge(r: &mut Rng) -> N {
    let long = |r: &mut Rng, n: usize| -> String {
        (0..n).map(|i| if i % 1000 == 7 { *r.pick(&ODD) } else { *r.pick(&PLAIN) }).collect()
    };
    let size = HUGE.with(|h| h.get());
    if size > 2 {
        let n = r.range(120, 160);
        return wide(r, n);
    }
    let mut c = vec![node(r, Paragraph, 9)];
    if size == 1 {
        let (n, m) = (r.range(66_000, 70_000), marks(r));
        let s = long(r, n);
        c.push(N::new(Paragraph, At::None, vec![N::text("first", vec![]), N::text(&s, m), N::text("last", vec![])]));
        normalize(&mut c[1].c);
    } else {
        let n = r.range(290, 300);
        let all = (0..n)
            .map(|i| {
                let s = long(r, 230);
                N::new(if i % 5 == 4 { Heading } else { Paragraph }, if i % 5 == 4 { At::Level(1) } else { At::None }, vec![N::text(&s, marks(r))])
            })
            .collect();
        c.push(N::new(Blockquote, At::None, all));
    }
    c.push(node(r, Paragraph, 9));
    N::new(Doc, At::None, c)
}

fn normalize(c: &mut Vec<N>) {
    let mut v = vec![];
    for n in std::mem::take(c) {
        push_normal(&mut v, n);
    }
    *c = v;
}

/// A valid document in normal form
pub fn doc(r: &mut Rng) -> N {
    if HUGE.with(|h| h.get()) > 0 {
        return huge(r);
    }
    match r.below(20) {
        0..=6 => {
            let b = r.range(2, 10);
            node(r, Doc, b)
        }
        7..=13 => {
            let b = r.range(10, 30);
            node(r, Doc, b)
        }
        14..=16 => {
            let b = r.range(30, 70);
            node(r, Doc, b)
        }
        17 => {
            let l = if r.chance(1, 8) { r.range(13, 24) } else { r.range(3, 12) };
            deep(r, l)
        }
        18 => {
            let n = if r.chance(1, 8) { r.range(25, 140) } else { r.range(8, 24) };
            wide(r, n)
        }
        _ => {
            let t = *r.pick(&[Paragraph, Blockquote, BulletList, ListItem, Heading, CodeBlock, OrderedList]);
            node(r, t, 20)
        }
    }
}

/// Any tree: types, marks and text without regard to the schema
pub fn any_node(r: &mut Rng, budget: usize, empty_text: bool) -> N {
    let t = if budget < 3 { *r.pick(&[Text, Text, HardBreak, Paragraph, Image]) } else { *r.pick(&TYPES) };
    let a = attrs(r, t);
    match t {
        Text => {
            let s = if empty_text && r.chance(1, 4) { String::new() } else { text(r, 4) };
            N::text(&s, marks(r))
        }
        t if t.is_leaf() => N::new(t, a, vec![]),
        _ => N::new(t, a, any_nodes(r, budget.saturating_sub(2), empty_text)),
    }
}

pub fn any_nodes(r: &mut Rng, budget: usize, empty_text: bool) -> Vec<N> {
    let mut left = budget as isize;
    let mut v = vec![];
    while left > 0 && !r.chance(1, 5) {
        let part = r.range(1, left as usize);
        let n = any_node(r, part, empty_text);
        left -= (n.size() as isize).max(1);
        v.push(n);
    }
    v
}

/// Damage a valid tree a little
pub fn mutate(r: &mut Rng, n: &mut N) {
    if n.c.is_empty() || r.chance(1, 3) {
        match r.below(4) {
            0 => n.c.clear(),
            1 if !n.t.is_leaf() => {
                let x = any_node(r, 5, false);
                let at = r.below(n.c.len() + 1);
                n.c.insert(at, x);
            }
            2 if !n.c.is_empty() => {
                let at = r.below(n.c.len());
                n.c.remove(at);
            }
            _ if n.c.len() > 1 => {
                let a = r.below(n.c.len());
                let b = r.below(n.c.len());
                n.c.swap(a, b);
            }
            _ => {}
        }
    } else {
        let i = r.below(n.c.len());
        mutate(r, &mut n.c[i]);
    }
}

/// Split texts into adjacent texts with equal marks
pub fn denormalize(r: &mut Rng, n: &mut N) {
    let mut out = vec![];
    for mut x in std::mem::take(&mut n.c) {
        if x.t == Text && r.chance(1, 3) {
            let cs: Vec<char> = x.s.chars().collect();
            if cs.len() > 1 {
                let k = r.range(1, cs.len() - 1);
                out.push(N::text(&cs[..k].iter().collect::<String>(), x.m.clone()));
                out.push(N::text(&cs[k..].iter().collect::<String>(), x.m.clone()));
                continue;
            }
        }
        denormalize(r, &mut x);
        out.push(x);
    }
    n.c = out;
}

/// A position that is not inside a character
pub fn pos(r: &mut Rng, t: &[Tok]) -> usize {
    loop {
        let p = r.below(t.len() + 1);
        if boundary(t, p) {
            return p;
        }
    }
}

pub fn span(r: &mut Rng, t: &[Tok]) -> (usize, usize) {
    let a = pos(r, t);
    let b = if r.chance(1, 3) {
        // short ranges
        let mut b = (a + r.below(4)).min(t.len());
        while !boundary(t, b) {
            b += 1;
        }
        b
    } else {
        pos(r, t)
    };
    (a.min(b), a.max(b))
}

/// Children that fit a parent of the given type
pub fn fitting(r: &mut Rng, parent: Ty, budget: usize) -> Vec<N> {
    match parent {
        Doc | Blockquote | ListItem => blocks(r, budget, true),
        Paragraph | Heading | CodeBlock => inline(r, parent, 3),
        BulletList | OrderedList => {
            let n = r.range(1, 2);
            (0..n).map(|_| node(r, ListItem, budget)).collect()
        }
        _ => vec![],
    }
}

pub fn parent_type(root: Ty, t: &[Tok], p: usize) -> Ty {
    match path(t, p).last() {
        Some(i) => match &t[*i] {
            Tok::O(t, _) => *t,
            _ => unreachable!(),
        },
        None => root,
    }
}

/// A range of the document and a slice to put there, mostly such that depths agree
pub fn candidate(r: &mut Rng, d: &N) -> (usize, usize, Sl) {
    let t = toks(&d.c);
    for _ in 0..40 {
        let (from, to) = span(r, &t);
        let (df, dt) = (depth(&t, from), depth(&t, to));
        match r.below(12) {
            0 | 1 => {
                if df == dt {
                    return (from, to, Sl::empty());
                }
            }
            2 | 3 => {
                // closed content
                if df == dt {
                    let p = parent_type(d.t, &t, from);
                    return (from, to, Sl { c: fitting(r, p, 8), os: 0, oe: 0 });
                }
            }
            4..=9 => {
                // part of another or the same document with matching depths
                let o = if r.chance(1, 3) { d.clone() } else { doc(r) };
                let u = toks(&o.c);
                for _ in 0..12 {
                    let (a, b) = span(r, &u);
                    let s = slice_of(&u, a, b, false);
                    if s.os <= df && s.oe <= dt && df - s.os == dt - s.oe {
                        return (from, to, s);
                    }
                }
            }
            10 => {
                // a slice of the other document with parents
                let o = doc(r);
                let u = toks(&o.c);
                let (a, b) = span(r, &u);
                let s = slice_of(&u, a, b, true);
                if s.os <= df && s.oe <= dt && df - s.os == dt - s.oe {
                    return (from, to, s);
                }
            }
            _ => {
                let budget = r.range(1, 10);
                let c = any_nodes(r, budget, false);
                let os = r.below(3);
                let oe = r.below(3);
                return (from, to, Sl { c, os, oe });
            }
        }
    }
    let (from, to) = span(r, &t);
    let o = doc(r);
    let u = toks(&o.c);
    let (a, b) = span(r, &u);
    (from, to, slice_of(&u, a, b, false))
}

/// A step that replaces around a gap: wrapping, unwrapping, changing the type of a block, and
/// arbitrary numbers around those
/// A replace-around step within a textblock: inline content around an inline gap
thread_local! {
    /// The last step that was made
    pub static LAST: std::cell::RefCell<Option<St>> = const { std::cell::RefCell::new(None) };
    /// Whether it was rejected
    pub static FAILED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// A new step or the last one of its kind, possibly with a small difference
fn retry(r: &mut Rng, make: impl FnOnce(&mut Rng) -> St) -> St {
    let last = LAST.with(|l| l.borrow().clone());
    let new = make(r);
    let st = match last {
        Some(l) if std::mem::discriminant(&l) == std::mem::discriminant(&new) && r.chance(1, if FAILED.with(|f| f.get()) { 4 } else { 8 }) => similar(r, l),
        _ => new,
    };
    LAST.with(|l| *l.borrow_mut() = Some(st.clone()));
    st
}

fn similar(r: &mut Rng, mut st: St) -> St {
    let k = r.below(8);
    let slice_too = |r: &mut Rng, s: &mut Sl| {
        if !s.c.is_empty() {
            let i = r.below(s.c.len());
            tweak(r, &mut s.c[i]);
        }
    };
    match &mut st {
        St::Replace { from, to, .. } | St::Around { from, to, .. } | St::Add { from, to, .. } | St::Remove { from, to, .. } => match k {
            _ if *from > *to && r.chance(2, 3) => *to = *from + r.below(4),
            0 => std::mem::swap(from, to),
            1 => *to += 1,
            2 => *to = to.saturating_sub(1),
            3 => *from += 1,
            4 => *from = from.saturating_sub(1),
            _ => {}
        },
    }
    match &mut st {
        St::Replace { slice, structure, .. } => match k {
            5 => *structure = !*structure,
            6 => slice_too(r, slice),
            _ => {}
        },
        St::Around { gf, gt, insert, slice, structure, .. } => match k {
            0 if *gf < *gt => *gf += 1,
            1 => *gt += 1,
            4 => *gf = gf.saturating_sub(1),
            5 => *structure = !*structure,
            6 => slice_too(r, slice),
            7 if r.chance(1, 2) => *insert += 1,
            _ => {}
        },
        St::Add { mark, .. } | St::Remove { mark, .. } => {
            if k > 4 {
                if let Some(m) = near_marks(r, std::slice::from_ref(mark)).pop() {
                    *mark = m;
                }
            }
        }
    }
    st
}

fn around_inline(r: &mut Rng, t: &[Tok]) -> Option<St> {
    let inline = |k: &Tok| !matches!(k, Tok::O(..) | Tok::C);
    let start = r.below(t.len());
    let first = (0..t.len()).map(|i| (start + i) % t.len()).find(|&i| matches!(t[i], Tok::X(..)))?;
    let (mut lo, mut hi) = (first, first);
    while lo > 0 && inline(&t[lo - 1]) {
        lo -= 1;
    }
    while hi < t.len() && inline(&t[hi]) {
        hi += 1;
    }
    let mut cuts: Vec<usize> = (0..4)
        .map(|_| {
            let mut p = lo + r.below((hi - lo).min(9) + 1);
            while !boundary(t, p) {
                p -= 1;
            }
            p
        })
        .collect();
    cuts.sort_unstable();
    let (from, gf, gt, to) = (cuts[0], cuts[1], cuts[2], cuts[3]);
    // texts that may join with the gap at either end
    let at = |p: usize| match t.get(p) {
        Some(Tok::X(_, m)) => m.clone(),
        _ => vec![],
    };
    let mut c = vec![];
    for side in 0..2 {
        let near = if side == 0 { at(gf) } else { at(gt.saturating_sub(1)) };
        if r.chance(3, 4) {
            let m = if r.chance(2, 3) { near } else { marks(r) };
            push_normal(&mut c, N::text(&text(r, 2), m));
        }
        if side == 0 && r.chance(1, 6) {
            c.push(N::new(HardBreak, At::None, vec![]));
        }
    }
    let units: Vec<usize> = {
        let x = toks(&c);
        (0..=x.len()).filter(|&p| boundary(&x, p)).collect()
    };
    let mut insert = *r.pick(&units);
    let (mut os, mut oe) = (0, 0);
    if r.chance(1, 4) {
        // in a node of the slice
        let k = *r.pick(&[Paragraph, Heading, Paragraph, CodeBlock]);
        c = vec![N::new(k, attrs(r, k), c)];
        if r.chance(2, 3) {
            os = 1;
            oe = 1;
        } else {
            insert += 1;
        }
    }
    Some(St::Around { from, to, gf, gt, slice: Sl { c, os, oe }, insert, structure: r.chance(1, 8) })
}

/// The gap's siblings on one side or both belong to the range, and are open: their rest is in the
/// slice, beside what closes around the gap
fn around_beside(r: &mut Rng, t: &[Tok]) -> Option<St> {
    let start = r.below(t.len());
    // after a node that ends
    let gf = (0..t.len()).map(|i| (start + i) % t.len()).find(|&i| t[i] == Tok::C && i + 1 < t.len())? + 1;
    let end_of = |mut p: usize| {
        let mut dep = 0;
        loop {
            match t.get(p)? {
                Tok::O(..) => dep += 1,
                Tok::C if dep == 0 => return None,
                Tok::C => dep -= 1,
                _ => {}
            }
            p += 1;
            if dep == 0 && boundary(t, p) {
                return Some(p);
            }
        }
    };
    let mut gt = gf;
    for _ in 0..r.below(3) {
        gt = end_of(gt).unwrap_or(gt);
    }
    let (mut from, mut to) = (gf, gt);
    let (mut os, mut oe) = (0, 0);
    let ptype = |t: &[Tok], p: usize| parent_type(Doc, t, p);
    let mut c = vec![];
    let mut insert = 0;
    if r.chance(3, 4) {
        from = gf - 1;
        os = 1;
        while from > 0 && matches!(t[from - 1], Tok::X(..)) && (r.chance(1, 3) || !boundary(t, from)) {
            from -= 1;
        }
        let k = if r.chance(4, 5) { ptype(t, from) } else { *r.pick(&[Paragraph, Heading, CodeBlock, Blockquote, ListItem]) };
        let inner = if k.is_textblock() && r.chance(1, 3) { inline(r, k, 2) } else { vec![] };
        let x = N::new(k, attrs(r, k), inner);
        insert += x.size() - 1;
        c.push(x);
    }
    // around the gap
    let gap = slice_of(t, gf, gt, false).c;
    let mut inner = gap.first().map(|n| n.t);
    let mut w: Vec<N> = vec![];
    let mut depth = 0;
    for _ in 0..r.range(1, 2) {
        let k = match inner {
            Some(ListItem) if r.chance(2, 3) => *r.pick(&[BulletList, OrderedList]),
            Some(BulletList) | Some(OrderedList) if r.chance(1, 2) => ListItem,
            Some(Paragraph) if r.chance(1, 2) => *r.pick(&[Blockquote, ListItem]),
            _ => *r.pick(&[Blockquote, BulletList, OrderedList, ListItem, Paragraph, CodeBlock]),
        };
        w = vec![N::new(k, attrs(r, k), w)];
        depth += 1;
        inner = Some(k);
    }
    insert += depth;
    c.extend(w);
    if r.chance(1, 3) && matches!(t.get(gt), Some(Tok::O(..))) {
        to = gt + 1;
        oe = 1;
        let k = if r.chance(4, 5) { ptype(t, to) } else { *r.pick(&[Paragraph, Heading, CodeBlock, Blockquote, ListItem]) };
        c.push(N::new(k, attrs(r, k), vec![]));
    }
    Some(St::Around { from, to, gf, gt, slice: Sl { c, os, oe }, insert, structure: r.chance(1, 8) })
}

pub fn around(r: &mut Rng, d: &N) -> St {
    retry(r, |r| new_around(r, d))
}

fn new_around(r: &mut Rng, d: &N) -> St {
    let t = toks(&d.c);
    if !t.is_empty() && r.chance(1, 5) {
        if let Some(s) = around_beside(r, &t) {
            return s;
        }
    }
    if !t.is_empty() && r.chance(1, 4) {
        if let Some(s) = around_inline(r, &t) {
            return s;
        }
    }
    let (mut gf, mut gt);
    loop {
        let (a, b) = span(r, &t);
        let s = slice_of(&t, a, b, false);
        if (s.os == 0 && s.oe == 0) || r.chance(1, 12) {
            gf = a;
            gt = b;
            break;
        }
    }
    if gf == gt && r.chance(2, 3) {
        // the content of the parent or one of its nodes
        let p = path(&t, gf);
        if let Some(i) = p.last() {
            gf = i + 1;
            let mut dep = 0;
            gt = gf;
            while !(dep == 0 && t[gt] == Tok::C) {
                match t[gt] {
                    Tok::O(..) => dep += 1,
                    Tok::C => dep -= 1,
                    _ => {}
                }
                gt += 1;
            }
        }
    }
    let structure = r.chance(1, 3);
    let gap = slice_of(&t, gf, gt, false).c;
    let ptype = parent_type(d.t, &t, gf);
    // wrappers around the gap
    let levels = r.below(4).min(3);
    let mut c: Vec<N> = vec![];
    let mut insert = 0;
    let mut inner = gap.first().map(|n| n.t);
    for l in 0..levels {
        let k = match inner {
            Some(ListItem) => *r.pick(&[BulletList, OrderedList]),
            Some(x) if x.is_inline() => *r.pick(&[Paragraph, Heading, CodeBlock, Paragraph]),
            Some(_) if l > 0 && c[0].t.is_block() && r.chance(1, 2) => ListItem,
            Some(Paragraph) => *r.pick(&[Blockquote, ListItem, Blockquote]),
            _ => *r.pick(&[Blockquote, Blockquote, Paragraph, BulletList, ListItem, Heading]),
        };
        if l > 0 && r.chance(1, 4) {
            let k = *r.pick(&[Paragraph, ListItem, HorizontalRule]);
            let x = node(r, k, 4);
            if r.chance(1, 2) {
                insert += x.size();
                c.insert(0, x);
            } else {
                c.push(x);
            }
        }
        let a = attrs(r, k);
        c = vec![N::new(k, a, c)];
        insert += 1;
        inner = Some(k);
    }
    if r.chance(1, 5) {
        let k = *r.pick(&[Paragraph, ListItem, HorizontalRule]);
            let x = node(r, k, 4);
        if r.chance(1, 2) {
            insert += x.size();
            c.insert(0, x);
        } else {
            c.push(x);
        }
    }
    let (mut os, mut oe) = (0, 0);
    let (mut from, mut to) = (gf, gt);
    match r.below(6) {
        0 | 1 => {
            // unwrap or change the type: replace the parent's tokens
            let k = r.range(1, 2);
            from = from.saturating_sub(k);
            to = (to + k).min(t.len());
        }
        2 => {
            let k = r.range(0, 3);
            from = from.saturating_sub(k);
            let k = r.range(0, 3);
            to = (to + k).min(t.len());
        }
        _ => {}
    }
    while !boundary(&t, from) {
        from -= 1;
    }
    while !boundary(&t, to) {
        to += 1;
    }
    if r.chance(1, 3) {
        // open ends whose depths agree with the range, if possible
        let (df, dt) = (depth(&t, from), depth(&t, to));
        let dg = depth(&t, gf);
        let mut tries = vec![];
        for i in 0..=levels.min(df) {
            for j in 0..=levels.min(dt) {
                if df - i == dt - j {
                    tries.push((i, j));
                }
            }
        }
        if !tries.is_empty() {
            let x = *r.pick(&tries);
            os = x.0;
            oe = x.1;
            insert = insert.saturating_sub(os);
        }
        let _ = dg;
    }
    if r.chance(1, 10) {
        let total: usize = c.iter().map(N::size).sum();
        insert = r.below(total + 3);
    }
    if r.chance(1, 15) {
        os = r.below(3);
    }
    if r.chance(1, 15) {
        oe = r.below(3);
    }
    let _ = ptype;
    if gt > t.len() {
        gt = t.len();
    }
    St::Around { from, to, gf, gt, slice: Sl { c, os, oe }, insert, structure }
}

/// A mark of the range, or any mark
pub fn some_mark(r: &mut Rng, t: &[Tok]) -> Mk {
    if r.chance(1, 2) {
        let all: Vec<&Mk> =
            t.iter().flat_map(|k| if let Tok::X(_, m) = k { &m[..] } else { &[] }).collect();
        if !all.is_empty() {
            return (*r.pick(&all)).clone();
        }
    }
    mark(r)
}

pub fn mark_step(r: &mut Rng, d: &N) -> St {
    retry(r, |r| new_mark_step(r, d))
}

fn new_mark_step(r: &mut Rng, d: &N) -> St {
    let t = toks(&d.c);
    let (from, to) = span(r, &t);
    let (from, to) = if r.chance(1, 24) { (to, from) } else { (from, to) };
    let mark = some_mark(r, &t);
    if r.chance(1, 2) {
        St::Add { from, to, mark }
    } else {
        St::Remove { from, to, mark }
    }
}

/// Ranges that are mostly structure: closing and opening tokens
pub fn structure_span(r: &mut Rng, t: &[Tok]) -> (usize, usize) {
    let st = |k: &Tok| matches!(k, Tok::O(..) | Tok::C);
    for _ in 0..20 {
        let a = pos(r, t);
        if a < t.len() && st(&t[a]) {
            let mut b = a;
            while b < t.len() && (st(&t[b]) || r.chance(1, 10)) && !r.chance(1, 4) {
                b += 1;
            }
            while !boundary(t, b) {
                b += 1;
            }
            return (a, b);
        }
    }
    span(r, t)
}

pub fn replace_step(r: &mut Rng, d: &N) -> St {
    retry(r, |r| new_replace_step(r, d))
}

fn new_replace_step(r: &mut Rng, d: &N) -> St {
    let (from, to, slice) = candidate(r, d);
    St::Replace { from, to, slice, structure: r.chance(1, 6) }
}

pub fn step(r: &mut Rng, d: &N) -> St {
    match r.below(8) {
        0..=3 => replace_step(r, d),
        4 | 5 => around(r, d),
        _ => mark_step(r, d),
    }
}
