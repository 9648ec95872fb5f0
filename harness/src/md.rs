//! C17 and C18: reading and writing markdown. What a text says as CommonMark is reported by the
//! parser (pulldown-cmark) as events; the specification builds the document from them.
use crate::gen::*;
use crate::ops::*;
use crate::props::{call, d_stub, session};
use crate::tree::*;
use prosemirror::markdown::*;
use pulldown_cmark::{CodeBlockKind, Event, Parser, Tag};
use serde_json::{json, Value};

fn tag(t: &Tag) -> (&'static str, Vec<String>) {
    match t {
        Tag::Paragraph => ("paragraph", vec![]),
        Tag::Heading(l) => ("heading", vec![l.to_string()]),
        Tag::BlockQuote => ("blockquote", vec![]),
        Tag::CodeBlock(CodeBlockKind::Fenced(p)) => ("code_block", vec![p.to_string()]),
        Tag::CodeBlock(CodeBlockKind::Indented) => ("code_block", vec![String::new()]),
        Tag::List(None) => ("bullet_list", vec![]),
        Tag::List(Some(n)) => ("ordered_list", vec![n.to_string()]),
        Tag::Item => ("list_item", vec![]),
        Tag::Emphasis => ("em", vec![]),
        Tag::Strong => ("strong", vec![]),
        Tag::Link(_, h, t) => ("link", vec![h.to_string(), t.to_string()]),
        Tag::Image(_, s, t) => ("image", vec![s.to_string(), t.to_string()]),
        Tag::FootnoteDefinition(_) => ("footnote", vec![]),
        Tag::Table(_) => ("table", vec![]),
        Tag::TableHead => ("thead", vec![]),
        Tag::TableRow => ("trow", vec![]),
        Tag::TableCell => ("tcell", vec![]),
        Tag::Strikethrough => ("strikethrough", vec![]),
    }
}

pub fn events(text: &str) -> Value {
    let ev = |e: &str, g: &str, x: Vec<String>, u: Value, s: &str| json!({"e": e, "g": g, "x": x, "u": u, "s": s});
    Value::Array(
        Parser::new(text)
            .map(|e| match &e {
                Event::Start(t) => {
                    let (g, x) = tag(t);
                    ev("start", g, x, json!([]), "")
                }
                Event::End(t) => {
                    let (g, x) = tag(t);
                    ev("end", g, x, json!([]), "")
                }
                Event::Text(t) => ev("text", "", vec![], units(t), t),
                Event::Code(t) => ev("code", "", vec![], units(t), t),
                Event::Html(_) => ev("html", "", vec![], json!([]), ""),
                Event::FootnoteReference(_) => ev("footref", "", vec![], json!([]), ""),
                Event::SoftBreak => ev("soft", "", vec![], json!([]), ""),
                Event::HardBreak => ev("hard", "", vec![], json!([]), ""),
                Event::Rule => ev("rule", "", vec![], json!([]), ""),
                Event::TaskListMarker(_) => ev("task", "", vec![], json!([]), ""),
            })
            .collect(),
    )
}

/// Pieces of running text
const PIECES: [&str; 36] = [
    "a", "b", "Q", "7", "...", "--", "---", "'", "\"", "(c)", ":", ";", "?", "!", "/", "@", "#", "%", "$", "^", "=", "+", "|", "{", "}", "~", "-", "\u{A0}", "\u{200D}",
    "\u{301}", "\u{4e2d}", "\u{1F468}", "&lt;", "&quot;", "\\\\", "\\_",
];

fn word(r: &mut Rng) -> String {
    let s = any_word(r);
    match nearly(6) {
        Some(mut q) => any_word(&mut q),
        None => s,
    }
}

fn any_word(r: &mut Rng) -> String {
    match r.below(28) {
        7 => of(r, &PIECES, 3),
        8 => "x".to_string() + &of(r, &PIECES, 6) + "y",
        9 => of(r, &["a", "B", "c"], 30),
        0 => "\u{1F60A}".into(),
        1 => "é中".into(),
        2 => "&amp;".into(),
        3 => "\\*".into(),
        4 => "a.b".into(),
        5 => "1".into(),
        6 => "&#x1F600;".into(),
        _ => (0..r.range(1, 4)).map(|_| (b'a' + r.below(26) as u8) as char).collect(),
    }
}

/// Characters of addresses
const ADDRESS: [&str; 30] = [
    "a", "b", "Z", "0", "9", "/", "/", ".", "./", "../", "-", "_", "~", ":", "?", "#", "%", "%20", "=", "@", "+", "$", "!", ",", ";", "//", "http:", "mailto:", "www.", "\u{e9}",
];

fn of(r: &mut Rng, parts: &[&str], max: usize) -> String {
    (0..r.range(1, max)).map(|_| *r.pick(parts)).collect()
}

/// What stands in the parentheses of a link or an image
fn target(r: &mut Rng) -> String {
    let s = any_target(r);
    match nearly(4) {
        Some(mut q) => any_target(&mut q),
        None => s,
    }
}

fn any_target(r: &mut Rng) -> String {
    let href = if r.chance(1, 2) {
        of(r, &ADDRESS, 6)
    } else {
        r.pick(&["/i", "<a b>", "http://a.b/c_d?e=f&g#h", "", "/u(x)", "%20", "/&amp;", "/\u{e9}", "#", "<>"]).to_string()
    };
    let title = [
        "t", "T", " ", " ", "0", "-", ".", "!", "é", "\u{1F60A}", "a b", "&lt;", "*b*", "\\*", "[", "]", "<", "&", "  ", "_", "~", ":", "/",
    ];
    match r.below(8) {
        0 | 1 => href,
        2 => format!("{} '{}'", href, r.pick(&["t", " t ", "q \"z\"", "&lt;", "\\'", "", "a *b*"])),
        3 => format!("{} \"{}\"", href, r.pick(&["t", " t ", "it's", "&lt;", "\\\"", "", "a `b`"])),
        4 => format!("{} ({})", href, r.pick(&["t", "a b", "é"])),
        5 => format!("{} '{}'", href, of(r, &title, 5)),
        6 => format!("{} ({})", href, of(r, &title, 5)),
        _ => format!("{} \"{}\"", href, of(r, &title, 5)),
    }
}

/// Inline markdown without line breaks
fn line(r: &mut Rng, depth: usize) -> String {
    let mut s = String::new();
    let n = r.range(1, 4);
    for i in 0..n {
        if i > 0 {
            s.push_str(if r.chance(1, 6) { "" } else { " " });
        }
        let x = if depth > 2 { 9 } else { r.below(16) };
        match x {
            0 => s.push_str(&format!("*{}*", line(r, depth + 1))),
            1 => s.push_str(&format!("**{}**", line(r, depth + 1))),
            2 => s.push_str(&match r.below(6) {
                0 => format!("`{} {}`", word(r), word(r)),
                1 => format!("`` {}`{} ``", word(r), word(r)),
                2 => format!("` {}  {} `", word(r), word(r)),
                _ => format!("`{}`", word(r)),
            }),
            3 => s.push_str(&format!("[{}](/u{})", line(r, depth + 1), r.below(3))),
            4 => s.push_str(&format!("[{}](/u \"t{}\")", line(r, depth + 1), r.below(3))),
            5 => s.push_str(&format!("![{}]({})", line(r, depth + 1), target(r))),
            8 if r.chance(1, 2) => s.push_str(&format!("[{}]({})", line(r, depth + 1), target(r))),
            6 => s.push_str(&format!("![{}](/i 'x y')", word(r))),
            7 => s.push_str(&format!("_{}_", line(r, depth + 1))),
            8 if r.chance(1, 3) => s.push_str(*r.pick(&["<b>", "*", "**", "`", "[", "](", "!", "\\", "<http://a.b>", "~~x~~", "&copy;", "***x** y*", "***x* y**"])),
            _ => s.push_str(&word(r)),
        }
    }
    s
}

fn indent(block: &str, first: &str, rest: &str) -> String {
    block
        .lines()
        .enumerate()
        .map(|(i, l)| {
            if i == 0 {
                format!("{}{}\n", first, l)
            } else if l.is_empty() && rest.trim().is_empty() {
                "\n".to_string()
            } else {
                format!("{}{}\n", rest, l)
            }
        })
        .collect()
}

fn block(r: &mut Rng, depth: usize) -> String {
    match if depth > 3 { r.below(6) } else { r.below(14) } {
        0 | 1 | 2 => {
            let mut s = line(r, 0);
            while r.chance(1, 6) {
                s.push_str(*r.pick(&["  \n", "\\\n", "  \n", "\n"]));
                s.push_str(&line(r, 0));
            }
            s + "\n"
        }
        3 => format!("{} {}\n", "#".repeat(r.range(1, 6)), line(r, 0)),
        4 => {
            let n = r.below(4);
            let body: String = (0..n)
                .map(|_| match r.below(8) {
                    0 => "\n".to_string(),
                    1 => "  x *y*\n".to_string(),
                    2 => format!("{}  \n", word(r)),
                    3 => format!("\t{}\n", word(r)),
                    4 => "  \n".to_string(),
                    _ => format!("{}\n", word(r)),
                })
                .collect();
            match r.below(4) {
                0 => indent(&(word(r) + "\n" + &body), "    ", "    "),
                1 => {
                    let info = match r.below(3) {
                        0 => of(r, &["a", "B", " ", " ", ",", "=", "{", "}", ".", "#", "-", "1", "é", "&amp;", "\\*", "/"], 8),
                        _ => r.pick(&["", "rust", " a b ", "&amp;", "\\*", "x=\"1\"", "c++"]).to_string(),
                    };
                    format!("~~~ {}{}\n{}~~~\n", info, word(r), body)
                }
                2 => format!("```\n{}```\n", body),
                _ => format!("```rust a\n{}```\n", body),
            }
        }
        5 => r.pick(&["---\n", "***\n", "Title\n=====\n", "a\n---\n", "\n", "", "<div>\nx\n</div>\n", "[x]: /u\n"]).to_string(),
        6 | 7 | 8 => {
            let b = blocks_md(r, depth + 1);
            indent(&b, "> ", "> ")
        }
        _ => {
            let ordered = r.chance(1, 2);
            let tight = r.chance(1, 2);
            let paren = r.chance(1, 4);
            let bullet = *r.pick(&["* ", "* ", "- ", "+ "]);
            let n = r.range(1, 3);
            let start = if r.chance(1, 3) { number(r, 1000).min(999_999_990) } else { r.below(4) };
            let mut s = String::new();
            for i in 0..n {
                let b = match r.below(6) {
                    0 => String::new(),
                    1 | 2 => blocks_md(r, depth + 1),
                    _ => line(r, 0) + "\n",
                };
                let (f, pad) = if ordered {
                    let f = format!("{}{} ", start + i, if paren { ")" } else { "." });
                    let pad = " ".repeat(f.len());
                    (f, pad)
                } else {
                    (bullet.to_string(), "  ".to_string())
                };
                let x = indent(&b, &f, &pad);
                s.push_str(if x.is_empty() { f.trim_end() } else { &x });
                if x.is_empty() {
                    s.push('\n');
                }
                if !tight {
                    s.push('\n');
                }
            }
            s
        }
    }
}

fn blocks_md(r: &mut Rng, depth: usize) -> String {
    let n = if depth == 0 { r.range(0, 4) } else { r.range(1, 2) };
    let mut s = String::new();
    for i in 0..n {
        if i > 0 && !r.chance(1, 12) {
            s.push('\n');
        }
        s.push_str(&block(r, depth));
    }
    s
}

/// Blocks in many blocks, around something short
fn nested_md(r: &mut Rng) -> String {
    let mut s = match r.below(3) {
        0 => line(r, 0) + "\n",
        1 => block(r, 4),
        _ => {
            // marks in many marks
            let mut s = word(r);
            for _ in 0..r.range(3, 12) {
                s = match r.below(6) {
                    0 | 1 => format!("*{} {}*", word(r), s),
                    2 | 3 => format!("**{} {}**", s, word(r)),
                    4 => format!("_{}_", s),
                    _ => format!("[{}](/u)", s),
                };
            }
            s + "\n"
        }
    };
    let only = r.below(5);
    for _ in 0..r.range(4, 24) {
        let k = if only < 3 { only } else { r.below(3) };
        s = match k {
            0 => indent(&s, "> ", "> "),
            1 => indent(&s, "* ", "  "),
            _ => indent(&s, "1. ", "   "),
        };
        if r.chance(1, 8) {
            s = format!("{}\n{}\n{}", word(r), s, word(r)).replacen('\n', "\n\n", 1);
        }
    }
    s
}

/// Many blocks, items, lines or words
fn wide_md(r: &mut Rng) -> String {
    let n = r.range(30, 300);
    let kind = r.below(5);
    let s: String = (0..n)
        .map(|i| match kind {
            0 => format!("{}\n\n", word(r)),
            1 => format!("{}. {}\n", i + 1, word(r)),
            2 => format!("* {}\n", word(r)),
            3 => format!("{}{}\n", word(r), *r.pick(&["", "  ", "\\"])),
            _ => format!("*{}* {} ", word(r), word(r)),
        })
        .collect();
    if r.chance(1, 2) {
        indent(&s, "> ", "> ")
    } else {
        s
    }
}

/// A markdown text
pub fn sample(r: &mut Rng) -> String {
    let s = match r.below(40) {
        0 | 1 => nested_md(r),
        2 => wide_md(r),
        _ => blocks_md(r, 0),
    };
    match r.below(12) {
        0 => s.replace('\n', "\r\n"),
        1 => s.trim_end().to_string(),
        2 => format!("{}\n[b]: {}\n", s.replace("](", "][b]("), target(r)),
        _ => s,
    }
}

fn soup(r: &mut Rng) -> String {
    let pieces = [
        "a", "b", " ", " ", "\n", "\n\n", "*", "**", "_", "`", "```", "[", "]", "(", ")", "](/u)", "![", "> ", "* ", "- ",
        "1. ", "# ", "    ", "  \n", "\\", "\\\n", "&amp;", "~~~", "---", "é", "\u{1F60A}", "<", "\t", "\"t\"", "=", "0) ",
    ];
    let n = r.range(1, 14);
    (0..n).map(|_| *r.pick(&pieces)).collect()
}

pub fn c17(r: &mut Rng) -> Value {
    let mut evs = vec![];
    for _ in 0..6 {
        let text = if r.chance(1, 4) { soup(r) } else { sample(r) };
        evs.extend(ev_read(&text));
    }
    session(d_stub(), evs)
}

/// None: the parser itself does not support the text
pub fn ev_read(text: &str) -> Option<Value> {
    let e = guard(|| events(text)).ok()?;
    let res = node_res(call(|| json!({"call": "from_markdown", "text": text}), || {
        from_markdown(text).map_err(|_| ["Markdown".to_string(), String::new(), String::new()])
    }))
    .0;
    Some(json!({"op": "read", "text": text, "events": e, "res": res}))
}

// --------------------------------------------------------------------------------------- C18

fn plain(r: &mut Rng, max: usize) -> String {
    (0..r.range(1, max)).map(|_| *r.pick(&['a', 'b', 'c', 'x', 'Y', '7', 'é', '中', '\u{1F60A}'])).collect()
}

/// A word with characters that mean something in markdown
fn rich(r: &mut Rng, max: usize) -> String {
    let mut s = plain(r, max);
    if r.chance(1, 5) {
        let p: Vec<char> = ".,:;?/()=+%@*_[<>\\-#!|~$'\"`{}^".chars().collect();
        if r.chance(1, 3) && max > 1 {
            s.insert(0, *r.pick(&['(', '*', '_', '#', '"', '[', '\\', '<', '>', '|', '`']));
        }
        for _ in 0..r.range(1, 2) {
            s.push(*r.pick(&p));
        }
        if r.chance(1, 2) {
            s.push_str(&plain(r, 2));
        }
    }
    s
}

/// Addresses are written as they are
fn address(r: &mut Rng) -> String {
    if r.chance(1, 2) {
        return format!("/{}", r.below(3));
    }
    let parts = [
        "a", "b", "Z", "0", "/", "/", ".", "./", "../", "-", "_", "~", ":", "?", "#", "%", "%20", "=", "@", "+", "$", "!", ",", ";", "//",
        "http:", "mailto:", "www.", "\u{e9}", "*", "'", "|", "{", "^",
    ];
    of(r, &parts, 7)
}

/// Titles and names of languages, too
fn title(r: &mut Rng) -> String {
    let parts = [
        "t", "T", " ", "0", "-", ".", "!", "\u{e9}", "\u{1F60A}", "a b", "*b*", "(", ")", "_", "~", ":", "/", "'", "#", "+", "=", "|", ">", "%", ", ", "{", "}",
        "$", "@", "^", ";", "?", "[",
    ];
    if r.chance(1, 2) { plain(r, 4) } else { of(r, &parts, 6) }
}

fn md_marks(r: &mut Rng) -> Vec<Mk> {
    let mut m = marks(r);
    for x in &mut m {
        if let Mk::Link(h, t) = x {
            *h = address(r);
            *t = if r.chance(1, 2) { String::new() } else { title(r) };
        }
    }
    m
}

/// Inline content in which marks start and end between words. `open` mirrors the marks that are
/// being written, outermost first.
fn md_inline(r: &mut Rng, heading: bool) -> Vec<N> {
    let mut v: Vec<N> = vec![];
    let mut open: Vec<Mk> = vec![];
    let n = r.range(1, 6);
    for i in 0..n {
        match r.below(14) {
            0 if !heading && i + 1 < n && matches!(v.last(), Some(l) if l.t != Ty::HardBreak) => {
                open.clear();
                v.push(N::new(Ty::HardBreak, At::None, vec![]))
            }
            1 => {
                open.clear();
                v.push(N::new(
                    Ty::Image,
                    At::Img {
                        src: address(r),
                        alt: if r.chance(1, 2) { rich(r, 4) } else { String::new() },
                        title: if r.chance(1, 2) { title(r) } else { String::new() },
                    },
                    vec![],
                ))
            }
            _ => {
                // end some of the open marks or start new ones
                let was = open.len();
                if r.chance(1, 2) {
                    open.truncate(r.below(was + 1));
                }
                let mut opens = false;
                if open.len() == was {
                    for x in md_marks(r) {
                        if !matches!(x, Mk::Code) && open.iter().all(|y| y.rank() != x.rank()) {
                            open.push(x);
                            opens = true;
                        }
                    }
                }
                let closes = open.len() < was;
                let mut m = open.clone();
                let after_code = matches!(v.last(), Some(l) if l.m.contains(&Mk::Code));
                let code = !closes && !after_code && r.chance(1, 5);
                if code {
                    m.push(Mk::Code);
                }
                m.sort_by_key(|x| x.rank());
                let word = if code { plain } else { rich };
                let mut s = word(r, 3);
                if r.chance(1, 3) {
                    s = format!("{} {}", s, word(r, 3));
                }
                if code && r.chance(1, 4) {
                    s = r.pick(&["*a*", "a_b", "&amp;", "\\", "<b>", "[x](y)", "a  b", "**", "!", "~~"]).to_string();
                }
                if matches!(v.last(), Some(l) if l.t == Ty::Text) {
                    if closes {
                        s.insert(0, ' ');
                    } else if opens && after_code {
                        // a blank that is not code has to come first
                        open.truncate(was);
                        m = open.clone();
                        m.sort_by_key(|x| x.rank());
                    } else if opens {
                        let l = v.last_mut().unwrap();
                        if !l.s.ends_with(' ') {
                            l.s.push(' ');
                        }
                    }
                }
                push_normal(&mut v, N::text(&s, m));
            }
        }
    }
    v
}

fn md_blocks(r: &mut Rng, depth: usize, first_para: bool) -> Vec<N> {
    let n = r.range(1, if depth == 0 { 4 } else { 2 });
    let mut v: Vec<N> = vec![];
    for i in 0..n {
        let k = if i == 0 && first_para {
            0
        } else if depth > 3 {
            r.below(6)
        } else {
            r.below(13)
        };
        let b = match k {
            0 | 1 | 2 => N::new(Ty::Paragraph, At::None, md_inline(r, false)),
            3 => N::new(Ty::Heading, At::Level(r.range(1, 6) as u8), md_inline(r, true)),
            4 => {
                let n = r.below(4);
                let s = (0..n)
                    .map(|_| format!("{}{}", " ".repeat(r.below(5)), match r.below(5) {
                        0 => String::new(),
                        1 => r.pick(&["*a*", "> b", "- ", "1. x", "# h", "<b>", "&amp;", "\\", "~~~", "[a](b)", "``", "\"", "    ", "***", "|", "!["]).to_string(),
                        _ => plain(r, 6),
                    }))
                    .collect::<Vec<_>>()
                    .join("\n");
                let p = match r.below(4) {
                    0 | 1 => String::new(),
                    2 => plain(r, 4),
                    _ => title(r).trim().to_string(),
                };
                N::new(Ty::CodeBlock, At::Params(p), if s.is_empty() { vec![] } else { vec![N::text(&s, vec![])] })
            }
            5 => N::new(Ty::HorizontalRule, At::None, vec![]),
            6 | 7 | 8 => N::new(Ty::Blockquote, At::None, md_blocks(r, depth + 1, false)),
            x => {
                let t = if x < 11 { Ty::BulletList } else { Ty::OrderedList };
                if matches!(v.last(), Some(l) if l.t == t) {
                    continue;
                }
                let n = r.range(1, 3);
                let top = if r.chance(1, 4) { 999_999_990 } else { 12 };
                let a = if t == Ty::BulletList { At::Tight(false) } else { At::Order(r.below(top), false) };
                N::new(t, a, (0..n).map(|_| N::new(Ty::ListItem, At::None, md_blocks(r, depth + 1, true))).collect())
            }
        };
        v.push(b);
    }
    v
}

/// Blocks in many blocks
fn nested(r: &mut Rng) -> Vec<N> {
    let mut v = md_blocks(r, 3, true);
    for _ in 0..r.range(4, 16) {
        let para = |r: &mut Rng| N::new(Ty::Paragraph, At::None, md_inline(r, false));
        if r.chance(1, 6) {
            v.push(para(r));
        }
        let list = r.below(3);
        v = vec![if list == 0 {
            N::new(Ty::Blockquote, At::None, v)
        } else {
            if v[0].t != Ty::Paragraph {
                v.insert(0, para(r));
            }
            let items = vec![N::new(Ty::ListItem, At::None, v)];
            if list == 1 {
                N::new(Ty::BulletList, At::Tight(false), items)
            } else {
                N::new(Ty::OrderedList, At::Order(r.below(100), false), items)
            }
        }];
    }
    v
}

pub fn c18(r: &mut Rng) -> Value {
    let mut evs = vec![];
    for _ in 0..4 {
        let bs = match r.below(24) {
            0 => nested(r),
            1 => (0..r.range(10, 60)).map(|_| N::new(Ty::Paragraph, At::None, md_inline(r, false))).collect(),
            2 => {
                let item = |r: &mut Rng| N::new(Ty::ListItem, At::None, vec![N::new(Ty::Paragraph, At::None, md_inline(r, false))]);
                let items = (0..r.range(5, 40)).map(|_| item(r)).collect();
                vec![N::new(Ty::OrderedList, At::Order(r.below(120), false), items)]
            }
            _ => md_blocks(r, 0, false),
        };
        let d = N::new(Ty::Doc, At::None, bs);
        evs.extend(ev_write(&d.build()));
    }
    session(d_stub(), evs)
}

pub fn ev_write(real: &MarkdownNode) -> Option<Value> {
    let res = call(|| json!({"call": "to_markdown", "doc": pnode(real)}), || to_markdown(real));
    let (res, text, e) = match res {
        Ok(Ok(t)) => match guard(|| events(&t)) {
            Ok(e) => ("ok", t, e),
            Err(_) => return None,
        },
        Ok(Err(_)) => ("err", String::new(), json!([])),
        Err(_) => ("panic", String::new(), json!([])),
    };
    Some(json!({"op": "write", "doc": pnode(real), "res": res, "text": text, "events": e}))
}

/// Writing a document, whatever it is, and reading what was written
pub fn c22(r: &mut Rng) -> Value {
    let mut evs = vec![];
    for _ in 0..6 {
        let d = match r.below(30) {
            0..=6 => doc(r),
            7..=13 => N::new(Ty::Doc, At::None, md_blocks(r, 0, false)),
            14..=20 => N::new(Ty::Doc, At::None, any_nodes(r, 12, true)),
            21 => {
                let n = r.range(2, 60);
                deep(r, n)
            }
            _ => any_node(r, 12, true),
        };
        evs.push(ev_any_write(&d.build()));
    }
    session(d_stub(), evs)
}

pub fn ev_any_write(real: &MarkdownNode) -> Value {
    let write = || call(|| json!({"call": "to_markdown", "doc": pnode(real)}), || to_markdown(real));
    let (res, text) = match write() {
        Ok(Ok(t)) => ("ok", t),
        Ok(Err(_)) => ("err", String::new()),
        Err(_) => ("panic", String::new()),
    };
    let same = matches!(write(), Ok(Ok(t)) if t == text);
    // the parser's own failures are not the library's
    let back = match guard(|| events(&text)) {
        Err(_) => "unread",
        Ok(_) => match call(|| json!({"call": "from_markdown", "text": text}), || from_markdown(&text)) {
            Ok(Ok(_)) => "ok",
            Ok(Err(_)) => "err",
            Err(_) => "panic",
        },
    };
    json!({"op": "anyWrite", "doc": pnode(real).to_string(), "res": res, "same": same, "back": back})
}
