//! Runs the library on everything in a small scope that the specification enumerates
//! (spec/Scope.tla): all its documents, with all positions, ranges, slices, marks, ...
use crate::more;
use crate::md;
use crate::ops::*;
use crate::props::*;
use crate::tree::*;
use prosemirror::markdown::*;
use prosemirror::model::*;
use serde_json::{json, Value};
use std::io::Write;
use std::ops::Bound;

fn text_of(v: &Value) -> String {
    let units: Vec<u16> = v
        .as_array()
        .unwrap()
        .iter()
        .map(|u| {
            let s = u.as_str().unwrap();
            match (s.len(), &s[..1]) {
                (1, _) => s.as_bytes()[0] as u16,
                (_, "H") => 0xD800 + s[1..].parse::<u16>().unwrap(),
                (_, "L") => 0xDC00 + s[1..].parse::<u16>().unwrap(),
                _ => u16::from_str_radix(&s[1..], 16).unwrap(),
            }
        })
        .collect();
    String::from_utf16(&units).unwrap()
}

pub fn node_of(v: &Value) -> N {
    let t = Ty::by_name(v["t"].as_str().unwrap()).unwrap();
    let attr = |k: &str| -> String {
        v["a"].as_array().unwrap().iter().find(|x| x[0] == k).map_or(String::new(), |x| x[2].as_str().unwrap().into())
    };
    let a = match t {
        Ty::Heading => At::Level(attr("level").parse().unwrap()),
        Ty::CodeBlock => At::Params(attr("params")),
        Ty::BulletList => At::Tight(attr("tight") == "true"),
        Ty::OrderedList => At::Order(attr("order").parse().unwrap(), attr("tight") == "true"),
        Ty::Image => At::Img { src: attr("src"), alt: attr("alt"), title: attr("title") },
        _ => At::None,
    };
    N { t, a, s: text_of(&v["s"]), m: v["m"].as_array().unwrap().iter().map(mark_of).collect(), c: nodes_of(&v["c"]) }
}

pub fn mark_of(v: &Value) -> Mk {
    let attr = |k: &str| -> String {
        v["a"].as_array().unwrap().iter().find(|x| x[0] == k).map_or(String::new(), |x| x[2].as_str().unwrap().into())
    };
    match v["k"].as_str().unwrap() {
        "strong" => Mk::Strong,
        "em" => Mk::Em,
        "code" => Mk::Code,
        _ => Mk::Link(attr("href"), attr("title")),
    }
}

pub fn nodes_of(v: &Value) -> Vec<N> {
    v.as_array().unwrap().iter().map(node_of).collect()
}

pub fn slice_of_json(v: &Value) -> Sl {
    Sl { c: nodes_of(&v["c"]), os: v["os"].as_u64().unwrap() as usize, oe: v["oe"].as_u64().unwrap() as usize }
}

/// Which of the cases to run: the given one of a number of parts (none: count them)
struct Pick {
    n: u64,
    part: u64,
    parts: u64,
}

impl Pick {
    fn take(&mut self) -> bool {
        self.n += 1;
        if self.parts == 0 {
            return false;
        }
        let mut x = self.n.wrapping_add(0x9E37_79B9_7F4A_7C15);
        x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        (x ^ (x >> 31)) % self.parts == self.part
    }
}

struct Out<'a, W: Write> {
    w: &'a mut W,
    id: usize,
    doc: Value,
    evs: Vec<Value>,
}

impl<'a, W: Write> Out<'a, W> {
    fn doc(&mut self, d: Value) {
        self.flush();
        self.doc = d;
    }
    fn push(&mut self, e: Value) {
        self.evs.push(e);
        self.check();
    }
    fn check(&mut self) {
        if self.evs.len() >= 80 {
            self.flush();
        }
    }
    fn flush(&mut self) {
        if !self.evs.is_empty() {
            let s = json!({"id": self.id, "doc": self.doc, "evs": std::mem::take(&mut self.evs)});
            writeln!(self.w, "{}", s).unwrap();
            self.id += 1;
        }
    }
}

/// Sessions with a set of marks
struct Sets<'a, W: Write> {
    w: &'a mut W,
    id: usize,
}

impl<'a, W: Write> Sets<'a, W> {
    fn write(&mut self, set: &MarkSet<MD>, evs: Vec<Value>) {
        writeln!(self.w, "{}", json!({"id": self.id, "doc": d_stub(), "set": pmarks(set), "evs": evs})).unwrap();
        self.id += 1;
    }
}

fn all_marks() -> Vec<Mk> {
    vec![
        Mk::Em,
        Mk::Strong,
        Mk::Link("a".into(), "".into()),
        Mk::Link("b".into(), "".into()),
    ]
}

pub fn range(from: usize, to: usize) -> Range {
    (Bound::Included(from), Bound::Excluded(to))
}

/// Runs one of as many parts as are needed to have about `target` cases in each;
/// returns their number
pub fn run(p: &str, part: u64, target: u64, scope: &str, w: &mut impl Write) -> u64 {
    let scope: Value = serde_json::from_str(&std::fs::read_to_string(scope).expect("scope")).expect("scope");
    let mut count = Pick { n: 0, part: 0, parts: 0 };
    let mut none = std::io::sink();
    enumerate(p, &mut count, &scope, &mut none);
    let parts = std::cmp::max(1, count.n / target);
    enumerate(p, &mut Pick { n: 0, part: part % parts, parts }, &scope, w);
    parts
}

fn enumerate(p: &str, k: &mut Pick, scope: &Value, w: &mut impl Write) {
    let docs: Vec<N> = nodes_of(&scope["docs"]);
    let slices: Vec<Sl> = scope["slices"].as_array().unwrap().iter().map(slice_of_json).collect();
    let any: Vec<Vec<N>> = nodes_seq(&scope["any"]);
    let mut out = Out { w, id: 0, doc: d_stub(), evs: vec![] };
    match p {
        "C01" => {
            for d in &docs {
                let real = d.build();
                let n = d.inner();
                let t = toks(&d.c);
                if k.take() {
                    out.push(audit("constructed", &real));
                }
                for (a, b) in spans(n) {
                    if !boundary(&t, a) || !boundary(&t, b) {
                        continue;
                    }
                    if k.take() {
                        if let Ok(x) = guard(|| real.cut(a..b).into_owned()) {
                            out.push(audit("cut", &x));
                        }
                        if let Ok(Ok(s)) = guard(|| real.slice(a..b, false)) {
                            out.push(audit_frag("slice", &s.content));
                        }
                    }
                    for s in &slices {
                        if fits(&t, a, b, s) && k.take() {
                            if let Ok(Ok(x)) = guard(|| real.replace(a..b, &s.build())) {
                                out.push(audit("replace", &x));
                            }
                        }
                    }
                    for m in all_marks() {
                        if k.take() {
                            if let Ok(Ok(x)) = guard(|| St::Add { from: a, to: b, mark: m.clone() }.build().apply(&real)) {
                                out.push(audit("step", &x));
                            }
                        }
                    }
                }
            }
        }
        "C02" => {
            for d in docs.iter().chain(any_roots(&any).iter()) {
                let real = d.build();
                let n = d.inner();
                out.doc(pnode(&real));
                for p in 0..=n + 2 {
                    if k.take() {
                        let all: Vec<usize> = (0..=n).collect();
                        out.push(resolve_ev(&real, p, &all));
                    }
                }
            }
        }
        "C03" => {
            for d in &docs {
                let real = d.build();
                out.doc(pnode(&real));
                for (a, b) in spans(d.inner() + 1) {
                    for parents in [false, true] {
                        if k.take() {
                            ev_slice(&real, range(a, b), parents, &mut out.evs);
                            out.check();
                        }
                    }
                }
            }
        }
        "C04" | "C19" => {
            let mut skip = 0;
            for d in &docs {
                let real = d.build();
                let t = toks(&d.c);
                out.doc(pnode(&real));
                for (a, b) in spans(d.inner()) {
                    for s in &slices {
                        // most slices do not fit by their depths alone
                        skip += 1;
                        if (fits(&t, a, b, s) || (p == "C04" && skip % 7 == 0)) && k.take() {
                            let ev = if p == "C04" {
                                ev_replace(&real, range(a, b), &s.build()).0
                            } else {
                                ev_undo(&real, a, b, s).0
                            };
                            out.push(ev);
                        }
                    }
                    if p == "C19" {
                        for m in all_marks() {
                            for st in [St::Add { from: a, to: b, mark: m.clone() }, St::Remove { from: a, to: b, mark: m.clone() }] {
                                if k.take() {
                                    out.push(more::ev_undo_step(&real, &st).0);
                                }
                            }
                        }
                    }
                }
                if p == "C19" {
                    arounds(d, &slices, k, 9, &mut |s| out.push(more::ev_undo_step(&real, s).0));
                }
            }
        }
        "C05" | "C06" => {
            let op = if p == "C05" { "valid" } else { "normal" };
            for d in &docs {
                let real = d.build();
                let t = toks(&d.c);
                out.doc(pnode(&real));
                for (a, b) in spans(d.inner()) {
                    for s in &slices {
                        if fits(&t, a, b, s) && k.take() {
                            let st = St::Replace { from: a, to: b, slice: s.clone(), structure: false };
                            out.push(ev_step(op, &real, &st.build()).0);
                        }
                    }
                    for m in all_marks() {
                        for add in [false, true] {
                            if k.take() {
                                let st = if add {
                                    St::Add { from: a, to: b, mark: m.clone() }
                                } else {
                                    St::Remove { from: a, to: b, mark: m.clone() }
                                };
                                out.push(ev_step(op, &real, &st.build()).0);
                            }
                        }
                    }
                }
                arounds(d, &slices, k, 3, &mut |s| out_push(&mut out, ev_step(op, &real, &s.build()).0));
            }
        }
        "C07" => {
            for d in docs.iter().chain(any_docs(&any).iter()) {
                let real = d.build();
                out.doc(pnode(&real));
                for a in 0..=d.inner() + 1 {
                    for b in 0..=d.inner() + 1 {
                        for m in all_marks() {
                            if k.take() {
                                let st = St::Add { from: a, to: b, mark: m.clone() };
                                out.push(ev_step("mark", &real, &st.build()).0);
                            }
                            if k.take() {
                                let st = St::Remove { from: a, to: b, mark: m.clone() };
                                out.push(ev_step("mark", &real, &st.build()).0);
                            }
                        }
                    }
                }
            }
        }
        "C08" => {
            let pool = mark_pool();
            let mut out = Sets { w: &mut *out.w, id: 0 };
            // all lists of marks, and what becomes of the sets they make
            let mut lists: Vec<Vec<Mk>> = vec![vec![]];
            let mut from = 0;
            for _ in 0..scope["marks"].as_u64().unwrap() {
                let to = lists.len();
                for i in from..to {
                    for m in &pool {
                        let mut l = lists[i].clone();
                        l.push(m.clone());
                        lists.push(l);
                    }
                }
                from = to;
            }
            let mut seen: Vec<MarkSet<MD>> = vec![];
            let mut stored = std::collections::HashSet::new();
            for l in &lists {
                let mut sets: Vec<MarkSet<MD>> = vec![];
                for by_json in [false, true] {
                    if k.take() {
                        let (ev, s) = ev_mark_list(l, by_json);
                        out.write(&MarkSet::default(), vec![ev]);
                        sets.extend(s);
                    }
                }
                // the set the marks make when added one after the other
                if k.take() {
                    let mut s = MarkSet::<MD>::default();
                    let mut evs = vec![];
                    for m in l {
                        let (ev, n) = ev_mark(&s, m, 0);
                        evs.push(ev);
                        match n {
                            Some(n) => s = n,
                            None => break,
                        }
                    }
                    evs.push(ev_mark_query(&s, &pool, &seen));
                    out.write(&MarkSet::default(), evs);
                    sets.push(s);
                }
                for s in sets {
                    if !stored.insert(pmarks(&s).to_string()) {
                        continue;
                    }
                    if seen.len() < 40 {
                        seen.push(s.clone());
                    }
                    for m in &pool {
                        for how in [0, 2, 4, 5, 6, 7, 8] {
                            let (ev, n) = ev_mark(&s, m, how);
                            let mut evs = vec![ev_mark_query(&s, &pool, &seen), ev];
                            if let Some(n) = n {
                                evs.push(ev_mark_query(&n, &pool, &seen));
                            }
                            out.write(&s, evs);
                        }
                    }
                }
            }
        }
        "C09" => {
            for d in &docs {
                let real = d.build();
                out.doc(pnode(&real));
                for a in 0..=d.inner() + 1 {
                    for b in 0..=d.inner() + 1 {
                        for s in &slices {
                            if k.take() {
                                let st = St::Replace { from: a, to: b, slice: s.clone(), structure: true };
                                out.push(ev_structure(&real, &st).0);
                            }
                        }
                    }
                }
                arounds(d, &slices, k, 1, &mut |s| out_push(&mut out, ev_structure(&real, s).0));
            }
        }
        "C10" => {
            for d in &docs {
                let real = d.build();
                out.doc(pnode(&real));
                arounds(d, &slices, k, 1, &mut |s| out_push(&mut out, ev_step("around", &real, &s.build()).0));
            }
        }
        "C11" => {
            let roots: Vec<N> = any_roots(&any);
            for d in docs.iter().chain(roots.iter()) {
                let real = d.build();
                out.doc(pnode(&real));
                let call = |out: &mut Out<_>, st: &St| {
                    let (ev, _) = ev_step("call", &real, &st.build());
                    let o = ev["res"]["r"].clone();
                    let mut e = json!({"op": "call", "kind": ev["step"]["st"], "out": o});
                    if o == "panic" {
                        e["step"] = ev["step"].clone();
                        e["msg"] = ev["res"]["msg"].clone();
                    }
                    out_push(out, e);
                };
                for a in 0..=d.inner() + 2 {
                    for b in 0..=d.inner() + 2 {
                        for s in &slices {
                            for (i, j) in [(s.os, s.oe), (s.os + 1, s.oe), (s.os, s.oe + 1), (s.os + 1, s.oe + 1)] {
                                if k.take() {
                                    let s = Sl { c: s.c.clone(), os: i, oe: j };
                                    call(&mut out, &St::Replace { from: a, to: b, slice: s, structure: false });
                                }
                            }
                            if k.take() {
                                call(&mut out, &St::Replace { from: a, to: b, slice: s.clone(), structure: true });
                            }
                            for gf in 0..=d.inner() + 2 {
                                for gt in [gf, gf + 1, gf + 2, b] {
                                    for insert in 0..=s.c.iter().map(N::size).sum::<usize>() + 1 {
                                        if k.take() {
                                            call(&mut out, &St::Around {
                                                from: a, to: b, gf, gt, slice: s.clone(), insert,
                                                structure: k.n % 3 == 0,
                                            });
                                        }
                                    }
                                }
                            }
                        }
                        for m in all_marks() {
                            if k.take() {
                                call(&mut out, &St::Add { from: a, to: b, mark: m.clone() });
                            }
                            if k.take() {
                                call(&mut out, &St::Remove { from: a, to: b, mark: m.clone() });
                            }
                        }
                    }
                }
            }
        }
        "C13" => {
            for d in docs.iter().chain(any_roots(&any).iter()) {
                if k.take() {
                    out.push(crate::jsonv::ev_node(&d.build()));
                }
            }
            for s in &slices {
                if k.take() {
                    out.push(crate::jsonv::ev_slice(&s.build()));
                }
                for (from, to) in [(0, 0), (1, 3)] {
                    for structure in [false, true] {
                        if k.take() {
                            let st = St::Replace { from, to, slice: s.clone(), structure };
                            out.push(crate::jsonv::ev_step(&st.build()));
                        }
                        if k.take() {
                            let st = St::Around { from, to, gf: from, gt: to, slice: s.clone(), insert: from, structure };
                            out.push(crate::jsonv::ev_step(&st.build()));
                        }
                    }
                }
            }
        }
        "C14" => {
            // all sequences of three types, in all parents
            for parent in TYPES {
                for a in TYPES {
                    for b in TYPES {
                        for c in TYPES {
                            if k.take() {
                                let mut r = crate::gen::Rng::new(k.n);
                                let kids: Vec<N> =
                                    [a, b, c].iter().map(|t| sample_of(&mut r, *t, k.n % 5 == 0)).collect();
                                out.push(match_ev(parent, &kids));
                            }
                        }
                    }
                }
            }
            // all replacements of children in the documents' nodes
            let mut repl: Vec<&Vec<N>> = any.iter().collect();
            repl.retain(|c| c.len() <= 2);
            for d in &docs {
                for n in inner_nodes(d) {
                    let real = n.build();
                    for i in 0..=n.c.len() {
                        if k.take() {
                            out.push(ev_match_at(&real, i));
                        }
                        for j in i..=n.c.len() {
                            for w in &repl {
                                if k.take() {
                                    out.push(ev_can_replace(&real, i, j, Some(w), 0, w.len(), range(0, w.len())));
                                }
                            }
                        }
                    }
                }
            }
        }
        "C15" => {
            for d in docs.iter().chain(any_docs(&any).iter()) {
                let real = d.build();
                let t = toks(&d.c);
                let f = fragment(&real).unwrap();
                out.doc(pnode(&real));
                for (a, b) in spans(d.inner()) {
                    if !boundary(&t, a) || !boundary(&t, b) {
                        continue;
                    }
                    for decline in 0..16usize {
                        if k.take() {
                            let mut i = 0;
                            let ev = ev_visit(&real, f, a, b, k.n as usize % 3, &mut |_, _| {
                                i += 1;
                                decline >> (i - 1) & 1 == 1
                            });
                            out.push(ev);
                        }
                    }
                    for sep in [None, Some("|")] {
                        for leaf in [None, Some("*")] {
                            for separated in [false, true] {
                                if k.take() {
                                    out.push(ev_text(&real, f, a, b, sep, leaf, separated, ""));
                                }
                            }
                        }
                    }
                }
                for n in inner_nodes(d) {
                    if k.take() {
                        out.push(ev_content(&n.build()));
                    }
                }
            }
        }
        "C16" => {
            for d in docs.iter().chain(any_docs(&any).iter()) {
                let real = d.build();
                let t = toks(&d.c);
                out.doc(pnode(&real));
                for (a, b) in spans(d.inner()) {
                    if boundary(&t, a) && boundary(&t, b) && k.take() {
                        ev_cut(&real, range(a, b), &mut out.evs);
                        out.check();
                    }
                }
                for p in 0..=d.inner() {
                    if boundary(&t, p) && k.take() {
                        ev_cut_append(&real, p, &mut out.evs);
                        out.check();
                    }
                }
                let f = fragment(&real).unwrap();
                for i in 0..d.c.len() {
                    for a in any.iter().filter(|a| a.len() == 1) {
                        if k.take() {
                            out.push(ev_replace_child(&real, f, i, &a[0].build()));
                        }
                    }
                }
            }
            for a in &any {
                for b in &any {
                    if k.take() {
                        out.push(ev_append(a, b));
                    }
                }
            }
        }
        "C17" => {
            // all texts over a few characters
            let n = scope["texts"].as_u64().unwrap() as u32;
            let alphabet: Vec<char> = scope["alphabet"].as_str().unwrap().chars().collect();
            let m = alphabet.len() as u64;
            for len in 0..=n {
                for x in 0..m.pow(len) {
                    if k.take() {
                        let mut y = x;
                        let mut s = String::new();
                        for _ in 0..len {
                            s.push(alphabet[(y % m) as usize]);
                            y /= m;
                        }
                        if let Some(ev) = md::ev_read(&s) {
                            out.push(ev);
                        }
                    }
                }
            }
        }
        "C18" => {
            for d in written(&docs, &nodes_seq(&scope["inl"])) {
                if k.take() {
                    if let Some(ev) = md::ev_write(&d.build()) {
                        out.push(ev);
                    }
                }
            }
        }
        "C20" => {
            let all: Vec<N> = docs.iter().cloned().chain(any_roots(&any)).collect();
            for a in &all {
                for b in &all {
                    if k.take() {
                        let x = a.build();
                        // the other one in pieces
                        let y = b.build();
                        let y = guard(|| y.copy(|f| f.cut(..f.size() / 2).append(f.cut(f.size() / 2..)))).unwrap_or(y);
                        out.push(more::ev_equal("node", &x, &y, pnode));
                    }
                }
            }
            for a in &slices {
                for b in &slices {
                    if k.take() {
                        out.push(more::ev_equal("slice", &a.build(), &b.build(), pslice));
                    }
                }
            }
        }
        "C21" => {
            for d in &docs {
                let real = d.build();
                let t = toks(&d.c);
                let mut steps = vec![];
                let mut add = |s: St| {
                    if guard(|| s.build().apply(&real)).map_or(true, |r| r.is_ok()) {
                        steps.push(s);
                    }
                };
                for (a, b) in spans(d.inner()) {
                    for s in &slices {
                        if fits(&t, a, b, s) {
                            add(St::Replace { from: a, to: b, slice: s.clone(), structure: false });
                        }
                    }
                }
                let mut all = Pick { n: 0, part: 0, parts: 1 };
                arounds(d, &slices, &mut all, 7, &mut |s| add(s.clone()));
                for (a, b) in spans(d.inner()) {
                    for m in all_marks() {
                        add(St::Add { from: a, to: b, mark: m.clone() });
                        add(St::Remove { from: a, to: b, mark: m });
                    }
                }
                out.doc(pnode(&real));
                for a in &steps {
                    for b in &steps {
                        if more::apart(a, b).is_some() && k.take() {
                            if let Some(ev) = more::ev_commute(&real, a, b, true) {
                                out.push(ev);
                            }
                        }
                    }
                }
            }
        }
        "C22" => {
            let mut all = written(&docs, &nodes_seq(&scope["inl"]));
            all.extend(any_roots(&any));
            for d in all {
                if k.take() {
                    out.push(md::ev_any_write(&d.build()));
                }
            }
        }
        p => panic!("no small scope for {}", p),
    }
    out.flush();
}

fn out_push<W: Write>(out: &mut Out<W>, e: Value) {
    out.push(e)
}

fn spans(n: usize) -> Vec<(usize, usize)> {
    (0..=n).flat_map(|a| (a..=n).map(move |b| (a, b))).collect()
}

/// The open depths of the slice agree with those of the range
fn fits(t: &[Tok], a: usize, b: usize, s: &Sl) -> bool {
    let (x, y) = (depth(t, a), depth(t, b));
    s.os <= x && s.oe <= y && x - s.os == y - s.oe
}

/// Documents with any content
fn any_docs(any: &[Vec<N>]) -> Vec<N> {
    any.iter().map(|c| N::new(Ty::Doc, At::None, c.clone())).collect()
}

/// Roots of any type with any content
fn any_roots(any: &[Vec<N>]) -> Vec<N> {
    let mut v = any_docs(any);
    for c in any {
        if c.len() == 1 {
            v.push(c[0].clone());
        }
    }
    v
}

fn inner_nodes(d: &N) -> Vec<&N> {
    let mut v = vec![];
    fn go<'a>(n: &'a N, v: &mut Vec<&'a N>) {
        if !n.t.is_leaf() {
            v.push(n);
            for c in &n.c {
                go(c, v);
            }
        }
    }
    go(d, &mut v);
    v
}

fn nodes_seq(v: &Value) -> Vec<Vec<N>> {
    v.as_array().unwrap().iter().map(nodes_of).collect()
}

/// The documents, and some with the inline contents, with blanks where marks start and end
fn written(docs: &[N], inl: &[Vec<N>]) -> Vec<N> {
    fn blanks(c: &mut [N]) {
        for i in 1..c.len() {
            if c[i - 1].t == Ty::Text && c[i].t == Ty::Text {
                if c[i - 1].m.len() <= c[i].m.len() {
                    c[i - 1].s.push(' ');
                } else {
                    c[i].s.insert(0, ' ');
                }
            }
        }
        for n in c {
            blanks(&mut n.c);
        }
    }
    let mut v: Vec<N> = docs.to_vec();
    let para = |c: &Vec<N>| N::new(Ty::Paragraph, At::None, c.clone());
    for c in inl {
        if c.is_empty() {
            continue;
        }
        v.push(N::new(Ty::Doc, At::None, vec![para(c)]));
        v.push(N::new(Ty::Doc, At::None, vec![N::new(Ty::Heading, At::Level(2), c.clone())]));
        v.push(N::new(Ty::Doc, At::None, vec![N::new(Ty::Blockquote, At::None, vec![para(c), para(c)])]));
        let item = || N::new(Ty::ListItem, At::None, vec![para(c)]);
        v.push(N::new(Ty::Doc, At::None, vec![N::new(Ty::BulletList, At::Tight(false), vec![item(), item()])]));
        v.push(N::new(Ty::Doc, At::None, vec![N::new(Ty::OrderedList, At::Order(3, false), vec![item()]), para(c)]));
    }
    for d in &mut v {
        blanks(&mut d.c);
    }
    v
}

/// All replace-around steps with from <= gap <= to whose gap lies at one depth,
/// and every so many of the others
fn arounds(d: &N, slices: &[Sl], k: &mut Pick, rare: u64, f: &mut dyn FnMut(&St)) {
    let t = toks(&d.c);
    let n = d.inner();
    let mut skip = 0;
    for a in 0..=n {
        for gf in a..=n {
            for gt in gf..=n {
                let flat = gf == gt || (path(&t, gf) == path(&t, gt));
                for b in gt..=n {
                    for s in slices {
                        let size: usize = s.c.iter().map(N::size).sum();
                        for insert in 0..=size + 1 {
                            skip += 1;
                            let all = flat && fits(&t, a, b, s) && skip % rare == 0;
                            if (all || skip % (11 * rare) == 0) && k.take() {
                                f(&St::Around {
                                    from: a, to: b, gf, gt, slice: s.clone(), insert, structure: false,
                                });
                            }
                        }
                    }
                }
            }
        }
    }
}
