//! One driver per property: a session is a document and a list of observed calls on it.
use crate::gen::*;
use crate::ops::*;
use crate::tree::*;
use prosemirror::markdown::*;
use prosemirror::model::*;
use prosemirror::transform::*;
use serde_json::{json, Value};
use std::borrow::Cow;
use std::ops::Bound;

pub type Range = (Bound<usize>, Bound<usize>);

pub fn session(doc: Value, evs: Vec<Value>) -> Value {
    json!({"doc": doc, "evs": evs})
}

/// Call f, naming the call first so that an abort or a hang can be attributed
pub fn call<T>(what: impl FnOnce() -> Value, f: impl FnOnce() -> T) -> Result<T, String> {
    crate::pending::set(what);
    let r = guard(f);
    crate::pending::clear();
    r
}

pub fn ap(step: &Step<MD>, doc: &MarkdownNode) -> (Value, Option<MarkdownNode>) {
    crate::pending::set(|| json!({"call": "Step::apply", "doc": pnode(doc), "step": format!("{:?}", step)}));
    let r = apply(step, doc);
    crate::pending::clear();
    FAILED.with(|f| f.set(r.1.is_none()));
    r
}

fn bound(b: &Bound<usize>) -> Value {
    match b {
        Bound::Unbounded => json!(["unbounded", 0]),
        Bound::Included(x) => json!(["incl", x]),
        Bound::Excluded(x) => json!(["excl", x]),
    }
}

/// A range that means from..to for content of the given size, in any of the forms
pub fn range_form(r: &mut Rng, from: usize, to: usize, size: usize) -> Range {
    let lo = match r.below(3) {
        0 if from == 0 => Bound::Unbounded,
        1 if from > 0 => Bound::Excluded(from - 1),
        _ => Bound::Included(from),
    };
    let hi = match r.below(3) {
        0 if to == size => Bound::Unbounded,
        1 if to > 0 => Bound::Included(to - 1),
        _ => Bound::Excluded(to),
    };
    (lo, hi)
}

// --------------------------------------------------------------------------------------- C01

fn audit_into(n: &MarkdownNode, out: &mut Vec<Value>) {
    let cs = children(n);
    let is = |x: Option<&MarkdownNode>, y: Option<&MarkdownNode>| match (x, y) {
        (Some(a), Some(b)) => std::ptr::eq(a, b),
        (None, None) => true,
        _ => false,
    };
    let access = is(n.first_child(), cs.first())
        && n.content().map_or(cs.is_empty(), |f| {
            is(f.first_child(), cs.first())
                && is(f.last_child(), cs.last())
                && is(f.maybe_child(cs.len()), None)
                && f.child_count() == cs.len()
        })
        && (0..cs.len()).all(|i| {
            is(n.child(i), cs.get(i))
                && is(n.maybe_child(i), cs.get(i))
                && n.content().map_or(false, |f| {
                    std::ptr::eq(f.child(i), &cs[i]) && is(f.maybe_child(i), cs.get(i))
                })
        })
        && n.maybe_child(cs.len()).is_none();
    let tlen = match n {
        MarkdownNode::Text(t) => t.text.len_utf16().to_string(),
        _ => "-".into(),
    };
    out.push(json!([
        type_str(n),
        n.node_size().to_string(),
        n.content_size().to_string(),
        n.child_count().to_string(),
        tlen,
        [n.is_leaf(), n.is_text(), n.is_block(), n.is_inline(), n.r#type().is_block(), n.r#type().is_inline(), access],
        type_name(n.r#type())
    ]));
    for c in cs {
        audit_into(c, out);
    }
}

pub fn audit(src: &str, n: &MarkdownNode) -> Value {
    let node = pnode(n);
    match call(|| json!({"call": "sizes", "node": node}), || {
        let mut v = vec![];
        audit_into(n, &mut v);
        v
    }) {
        Ok(v) => json!({"op": "audit", "src": src, "node": node, "r": "ok", "info": v}),
        Err(p) => json!({"op": "audit", "src": src, "node": node, "r": "panic", "msg": p, "info": []}),
    }
}

pub fn audit_frag(src: &str, f: &Fragment<MD>) -> Value {
    let cs = f.children();
    let r = call(|| json!({"call": "fragment sizes", "nodes": pnodes(cs)}), || {
        let mut v = vec![];
        for c in cs {
            audit_into(c, &mut v);
        }
        (f.size().to_string(), f.child_count().to_string(), v)
    });
    match r {
        Ok((s, n, v)) => {
            json!({"op": "auditFrag", "src": src, "nodes": pnodes(cs), "r": "ok", "size": s, "count": n, "info": v})
        }
        Err(p) => json!({"op": "auditFrag", "src": src, "nodes": pnodes(cs), "r": "panic", "msg": p,
            "size": "", "count": "", "info": []}),
    }
}

pub fn c01(r: &mut Rng) -> Value {
    let mut d = if r.chance(1, 8) { any_node(r, 15, true) } else { doc(r) };
    if r.chance(1, 8) {
        denormalize(r, &mut d);
    }
    let t = toks(&d.c);
    let mut evs = vec![];
    let real = d.build();
    evs.push(audit("constructed", &real));
    if let Ok(Ok(x)) = guard(|| serde_json::from_str::<MarkdownNode>(&serde_json::to_string(&real).unwrap())) {
        evs.push(audit("json", &x));
    }
    let (a, b) = span(r, &t);
    if let Ok(x) = guard(|| real.cut(a..b).into_owned()) {
        evs.push(audit("cut", &x));
    }
    if let Some(f) = fragment(&real) {
        if let Ok(x) = guard(|| f.cut(a..b)) {
            evs.push(audit_frag("fragment cut", &x));
            let g = frag(&fitting(r, d.t, 6));
            let h = f.clone();
            if let Ok(y) = guard(|| h.append(x.clone())) {
                evs.push(audit_frag("append", &y));
            }
            let h = f.cut(0..a);
            if let Ok(y) = guard(|| h.append(f.cut(a..))) {
                evs.push(audit_frag("cut and append", &y));
            }
            if let Ok(y) = guard(|| x.append(g)) {
                evs.push(audit_frag("append", &y));
            }
        }
        if !d.c.is_empty() {
            let i = r.below(d.c.len());
            let x = if r.chance(1, 2) { any_node(r, 6, false) } else { nearby(r, &d.c[i]) }.build();
            if let Ok(y) = guard(|| f.replace_child(i, x).into_owned()) {
                evs.push(audit_frag("replace_child", &y));
            }
        }
    }
    if let Ok(Ok(s)) = guard(|| real.slice(a..b, r.chance(1, 3))) {
        evs.push(audit_frag("slice", &s.content));
        if let Ok(Ok(x)) =
            guard(|| serde_json::from_str::<Slice<MD>>(&serde_json::to_string(&s).unwrap()))
        {
            evs.push(audit_frag("slice json", &x.content));
        }
    }
    let mut cur = real;
    for _ in 0..6 {
        let m = unbuild(&cur);
        let s = step(r, &m).build();
        if let Some(n) = ap(&s, &cur).1 {
            evs.push(audit("step", &n));
            if n.node_size() < 160 {
                cur = n;
            }
        }
    }
    let (from, to, s) = candidate(r, &d);
    if let Ok(Ok(n)) = guard(|| d.build().replace(from..to, &s.build())) {
        evs.push(audit("replace", &n));
    }
    if r.chance(1, 3) {
        let text = crate::md::sample(r);
        if let Ok(Ok(n)) = guard(|| from_markdown(&text)) {
            evs.push(audit("markdown", &n));
        }
    }
    session(d_stub(), evs)
}

/// For sessions without a current document
pub fn d_stub() -> Value {
    json!({"t": "doc", "a": [], "s": [], "m": [], "c": []})
}

// --------------------------------------------------------------------------------------- C02

fn child_index(parent: &MarkdownNode, child: &MarkdownNode) -> Option<usize> {
    children(parent).iter().position(|c| std::ptr::eq(c, child))
}

pub fn resolve_ev(d: &MarkdownNode, p: usize, others: &[usize]) -> Value {
    let r = call(|| json!({"call": "resolve", "doc": pnode(d), "pos": p}), || {
        let rp = match d.resolve(p) {
            Ok(rp) => rp,
            Err(_) => return json!({"r": "err"}),
        };
        let mut depth = 0;
        while !std::ptr::eq(rp.node(depth), rp.parent()) {
            depth += 1;
        }
        let root = std::ptr::eq(rp.doc(), d) && std::ptr::eq(rp.node(0), d);
        let mut addr: Vec<usize> = vec![];
        let mut lost = false;
        for k in 1..=depth {
            match child_index(rp.node(k - 1), rp.node(k)) {
                Some(i) => addr.push(i),
                None => lost = true,
            }
        }
        let ds = 0..=depth;
        let o = |x: Option<usize>| x.map_or("none".to_string(), |v| v.to_string());
        json!({"r": "ok", "depth": depth, "root": root, "lost": lost, "addr": addr,
            "index": ds.clone().map(|k| rp.index(k)).collect::<Vec<_>>(),
            "indexAfter": ds.clone().map(|k| rp.index_after(k)).collect::<Vec<_>>(),
            "start": ds.clone().map(|k| rp.start(k)).collect::<Vec<_>>(),
            "end": ds.clone().map(|k| rp.end(k)).collect::<Vec<_>>(),
            "before": (0..=depth + 1).map(|k| o(rp.before(k))).collect::<Vec<_>>(),
            "after": (0..=depth + 1).map(|k| o(rp.after(k))).collect::<Vec<_>>(),
            "textOffset": rp.text_offset(),
            "nb": rp.node_before().iter().map(|n| pnode(n)).collect::<Vec<_>>(),
            "na": rp.node_after().iter().map(|n| pnode(n)).collect::<Vec<_>>(),
            "shared": others.iter().map(|q| json!([q, rp.shared_depth(*q)])).collect::<Vec<_>>(),
        })
    });
    let res = r.unwrap_or_else(panicked);
    json!({"op": "resolve", "p": p, "res": res})
}

pub fn c02(r: &mut Rng) -> Value {
    let mut d = if r.chance(1, 10) { any_node(r, 20, false) } else { doc(r) };
    if r.chance(1, 10) {
        denormalize(r, &mut d);
    }
    let t = toks(&d.c);
    let real = d.build();
    let step = 1 + t.len() / 40;
    let mut evs = vec![];
    let mut p = r.below(step);
    while p < t.len() + 3 {
        let mut others: Vec<usize> = (0..3).map(|_| pos(r, &t)).collect();
        others.push(p.min(t.len()));
        evs.push(resolve_ev(&real, p, &others));
        p += r.range(1, step);
    }
    evs.push(resolve_ev(&real, t.len(), &[0]));
    evs.push(resolve_ev(&real, t.len() + 1, &[0]));
    session(pnode(&real), evs)
}

// --------------------------------------------------------------------------------------- C03

pub fn slice_res(r: Result<Result<Slice<MD>, SliceError>, String>) -> (Value, Option<Slice<MD>>) {
    match r {
        Ok(Ok(s)) => (json!({"r": "ok", "slice": pslice(&s)}), Some(s)),
        Ok(Err(SliceError::Resolve(_))) => (json!({"r": "err", "kind": "Resolve"}), None),
        Ok(Err(_)) => (json!({"r": "err", "kind": "Unknown"}), None),
        Err(p) => (panicked(p), None),
    }
}

pub fn c03(r: &mut Rng) -> Value {
    let mut d = doc(r);
    if r.chance(1, 10) {
        denormalize(r, &mut d);
    }
    let t = toks(&d.c);
    let real = d.build();
    let mut evs = vec![];
    for i in 0..14 {
        let (mut a, mut b) = span(r, &t);
        if i == 0 {
            a = 0;
            b = t.len();
        }
        if r.chance(1, 12) {
            b = t.len() + r.below(3);
        }
        if r.chance(1, 14) {
            // any position, also inside a character
            a = r.below(t.len() + 2);
            b = a + r.below(t.len() + 3 - a.min(t.len() + 2));
        }
        let parents = r.chance(1, 3);
        let range = range_form(r, a, b, t.len());
        ev_slice(&real, range, parents, &mut evs);
    }
    session(pnode(&real), evs)
}

pub fn ev_slice(real: &MarkdownNode, range: Range, parents: bool, evs: &mut Vec<Value>) {
    let (res, s) = slice_res(call(
        || json!({"call": "slice", "doc": pnode(real), "range": format!("{:?}", range), "parents": parents}),
        || real.slice(range, parents),
    ));
    evs.push(json!({"op": "slice", "lo": bound(&range.0), "hi": bound(&range.1),
        "parents": parents, "res": res}));
    if let Some(s) = s {
        if !parents {
            let res = node_res(call(
                || json!({"call": "replace", "doc": pnode(real), "range": format!("{:?}", range), "slice": pslice(&s)}),
                || real.replace(range, &s).map_err(|e| replace_err(&e)),
            ))
            .0;
            evs.push(json!({"op": "putBack", "lo": bound(&range.0), "hi": bound(&range.1), "res": res}));
        }
    }
}

// --------------------------------------------------------------------------------------- C04

pub fn c04(r: &mut Rng) -> Value {
    let mut d = doc(r);
    match r.below(12) {
        0 => denormalize(r, &mut d),
        1 => mutate(r, &mut d),
        2 => {
            d = any_node(r, 14, false);
        }
        _ => {}
    }
    let mut cur = d;
    let mut evs = vec![];
    let first = pnode(&cur.build());
    for _ in 0..9 {
        let real = cur.build();
        let (mut from, mut to, s) = candidate(r, &cur);
        let n = cur.inner();
        if r.chance(1, 40) {
            std::mem::swap(&mut from, &mut to);
        }
        if r.chance(1, 40) {
            to = n + r.below(3);
        }
        if r.chance(1, 40) {
            from = r.below(n + 2);
            to = to.max(from);
        }
        let range = range_form(r, from, to, n);
        let slice = s.build();
        let (mut ev, next) = ev_replace(&real, range, &slice);
        if let Some(n) = next {
            let n = unbuild(&n);
            if n.size() < 150 && r.chance(2, 3) {
                ev["upd"] = json!(true);
                cur = n;
            }
        }
        evs.push(ev);
    }
    session(first, evs)
}

pub fn ev_replace(real: &MarkdownNode, range: Range, slice: &Slice<MD>) -> (Value, Option<MarkdownNode>) {
    let (res, next) = node_res(call(
        || json!({"call": "replace", "doc": pnode(real), "range": format!("{:?}", range), "slice": pslice(slice)}),
        || real.replace(range, slice).map_err(|e| replace_err(&e)),
    ));
    (json!({"op": "replace", "lo": bound(&range.0), "hi": bound(&range.1),
        "slice": pslice(slice), "res": res, "upd": false}), next)
}

pub fn ev_step(op: &str, real: &MarkdownNode, s: &Step<MD>) -> (Value, Option<MarkdownNode>) {
    let (res, next) = ap(s, real);
    (json!({"op": op, "step": pstep(s), "res": res, "upd": false}), next)
}

// ------------------------------------------------------------------- C05, C06, C07, C09, C10

/// Apply steps one after the other, going on with the result
fn chain(
    r: &mut Rng,
    d: N,
    len: usize,
    op: &str,
    make: &mut dyn FnMut(&mut Rng, &N) -> St,
) -> Value {
    let mut cur = d;
    let first = pnode(&cur.build());
    let mut evs = vec![];
    for _ in 0..len {
        let real = cur.build();
        let s = make(r, &cur).build();
        let (mut ev, next) = ev_step(op, &real, &s);
        if let Some(n) = next {
            let n = unbuild(&n);
            if n.size() < 150 && r.chance(3, 4) {
                ev["upd"] = json!(true);
                cur = n;
            }
        }
        evs.push(ev);
    }
    session(first, evs)
}

pub fn c05(r: &mut Rng) -> Value {
    let d = doc(r);
    chain(r, d, 10, "valid", &mut |r, d| {
        let mut s = step(r, d);
        // open nodes of a slice need not be valid themselves
        if let St::Replace { slice, .. } = &mut s {
            if r.chance(1, 4) {
                if slice.os > 0 && !slice.c.is_empty() {
                    mutate(r, &mut slice.c[0]);
                } else if slice.oe > 0 {
                    if let Some(l) = slice.c.last_mut() {
                        mutate(r, l);
                    }
                }
            }
        }
        s
    })
}

pub fn c06(r: &mut Rng) -> Value {
    let mut d = doc(r);
    if r.chance(1, 8) {
        mutate(r, &mut d);
    }
    chain(r, d, 10, "normal", &mut |r, d| {
        match r.below(6) {
            0 | 1 => mark_step(r, d),
            2 => around(r, d),
            3 => {
                // inside text: seams between texts with equal marks
                let t = toks(&d.c);
                for _ in 0..30 {
                    let (from, to) = span(r, &t);
                    if depth(&t, from) == depth(&t, to) && from > 0 {
                        if let Tok::X(_, m) = &t[from - 1] {
                            let mut c = vec![];
                            if r.chance(3, 4) {
                                push_normal(&mut c, N::text(&text(r, 3), m.clone()));
                            }
                            if r.chance(1, 3) {
                                push_normal(&mut c, N::text(&text(r, 2), marks(r)));
                            }
                            if let (Some(Tok::X(_, m)), true) = (t.get(to), r.chance(1, 2)) {
                                push_normal(&mut c, N::text(&text(r, 2), m.clone()));
                            }
                            return St::Replace { from, to, slice: Sl { c, os: 0, oe: 0 }, structure: false };
                        }
                    }
                }
                replace_step(r, d)
            }
            _ => replace_step(r, d),
        }
    })
}

pub fn c07(r: &mut Rng) -> Value {
    let mut d = doc(r);
    if r.chance(1, 6) {
        denormalize(r, &mut d);
    }
    chain(r, d, 12, "mark", &mut |r, d| {
        let mut s = mark_step(r, d);
        let n = d.inner();
        match &mut s {
            St::Add { from, to, .. } | St::Remove { from, to, .. } => match r.below(30) {
                0 => std::mem::swap(from, to),
                1 => *to = n + r.below(4),
                2 => {
                    *from = n + 1 + r.below(3);
                    *to = *from + r.below(2);
                }
                3 => {
                    *from = r.below(n + 1);
                    *to = r.range(*from, n);
                }
                4 => {
                    *from = 0;
                    *to = n;
                }
                _ => {}
            },
            _ => {}
        }
        s
    })
}

pub fn c09(r: &mut Rng) -> Value {
    let d = doc(r);
    let first = pnode(&d.build());
    let mut cur = d;
    let mut evs = vec![];
    for _ in 0..8 {
        let real = cur.build();
        let t = toks(&cur.c);
        let s = match r.below(8) {
            0..=2 => {
                let (from, to) = structure_span(r, &t);
                let mut slice = Sl::empty();
                if r.chance(1, 3) {
                    for _ in 0..10 {
                        let o = doc(r);
                        let u = toks(&o.c);
                        let (a, b) = structure_span(r, &u);
                        let s = slice_of(&u, a, b, false);
                        let (df, dt) = (depth(&t, from), depth(&t, to));
                        if s.os <= df && s.oe <= dt && df - s.os == dt - s.oe {
                            slice = s;
                            break;
                        }
                    }
                }
                St::Replace { from, to, slice, structure: true }
            }
            3 | 4 => {
                let (from, to, slice) = candidate(r, &cur);
                St::Replace { from, to, slice, structure: true }
            }
            _ => around(r, &cur),
        };
        let mut s = s;
        if r.chance(1, 25) {
            if let St::Replace { to, .. } | St::Around { to, .. } = &mut s {
                *to = t.len() + r.below(3);
            }
        }
        let (mut ev, next) = ev_structure(&real, &s);
        if let Some(n) = next {
            let n = unbuild(&n);
            if n.size() < 150 && r.chance(1, 2) {
                ev["upd"] = json!(true);
                cur = n;
            }
        }
        evs.push(ev);
    }
    session(first, evs)
}

pub fn ev_structure(real: &MarkdownNode, s: &St) -> (Value, Option<MarkdownNode>) {
    let with = |flag: bool| match s.clone() {
        St::Replace { from, to, slice, .. } => St::Replace { from, to, slice, structure: flag },
        St::Around { from, to, gf, gt, slice, insert, .. } => {
            St::Around { from, to, gf, gt, slice, insert, structure: flag }
        }
        x => x,
    };
    let on = with(true).build();
    let off = with(false).build();
    let (ron, _) = ap(&on, real);
    let (roff, next) = ap(&off, real);
    (json!({"op": "structure", "step": pstep(&on), "res": ron, "off": roff, "upd": false}), next)
}

pub fn c10(r: &mut Rng) -> Value {
    let mut d = doc(r);
    if r.chance(1, 12) {
        mutate(r, &mut d);
    }
    chain(r, d, 9, "around", &mut |r, d| loop {
        let s = around(r, d);
        if let St::Around { gf, gt, .. } = &s {
            if gf <= gt {
                return s;
            }
        }
    })
}

// --------------------------------------------------------------------------------------- C08

pub fn mark_pool() -> Vec<Mk> {
    vec![
        Mk::Strong,
        Mk::Em,
        Mk::Code,
        Mk::Link("a".into(), "".into()),
        Mk::Link("b".into(), "".into()),
        Mk::Link("a".into(), "t".into()),
    ]
}

/// One way to change a set of marks
pub fn ev_mark(set: &MarkSet<MD>, m: &Mk, how: usize) -> (Value, Option<MarkSet<MD>>) {
    let x = m.real();
    let before = set.clone();
    let what = || json!({"call": "mark set", "set": pmarks(&before), "mark": pmark(&x)});
    let (op, res) = match how {
        0 | 1 => ("add", call(what, || {
            let mut s = set.clone();
            s.add(&x);
            s
        })),
        2 | 3 => ("remove", call(what, || {
            let mut s = set.clone();
            s.remove(&x);
            s
        })),
        4 => ("add", call(what, || x.add_to_set(Cow::Borrowed(set)).into_owned())),
        5 => ("remove", call(what, || x.remove_from_set(Cow::Owned(set.clone())).into_owned())),
        6 => ("into", call(what, || x.clone().into_set())),
        7 => ("add", call(what, || x.add_to_set(Cow::Owned(set.clone())).into_owned())),
        _ => ("remove", call(what, || x.remove_from_set(Cow::Borrowed(set)).into_owned())),
    };
    let v = match &res {
        Ok(s) => json!({"r": "ok", "set": pmarks(s)}),
        Err(p) => panicked(p.clone()),
    };
    (json!({"op": op, "mark": pmark(&x), "res": v}), res.ok())
}

pub fn ev_mark_list(list: &[Mk], by_json: bool) -> (Value, Option<MarkSet<MD>>) {
    let reals: Vec<MarkdownMark> = list.iter().map(Mk::real).collect();
    let dump: Vec<Value> = reals.iter().map(pmark).collect();
    let json = serde_json::to_string(&reals).unwrap();
    let res = call(
        || json!({"call": "mark set from list", "list": dump}),
        || {
            use std::convert::TryFrom;
            if by_json {
                serde_json::from_str::<MarkSet<MD>>(&json).ok()
            } else {
                MarkSet::<MD>::try_from(reals.clone()).ok()
            }
        },
    );
    let v = match &res {
        Ok(Some(s)) => json!({"r": "ok", "set": pmarks(s)}),
        Ok(None) => json!({"r": "err"}),
        Err(p) => panicked(p.clone()),
    };
    (json!({"op": "list", "list": dump, "res": v}), res.ok().flatten())
}

pub fn ev_mark_query(set: &MarkSet<MD>, pool: &[Mk], others: &[MarkSet<MD>]) -> Value {
    let has: Vec<bool> = pool.iter().map(|m| set.contains(&m.real())).collect();
    let eqs: Vec<Value> = others.iter().map(|o| json!([pmarks(o), o == set])).collect();
    json!({"op": "query", "marks": pool.iter().map(|m| pmark(&m.real())).collect::<Vec<_>>(),
        "has": has, "eqs": eqs})
}

pub fn c08(r: &mut Rng) -> Value {
    let mut pool = mark_pool();
    pool.push(mark(r));
    let mut set = MarkSet::<MD>::default();
    let mut evs = vec![];
    let mut log: Vec<MarkSet<MD>> = vec![];
    if r.chance(1, 4) {
        set = r.pick(&pool).real().into_set();
    }
    let first = pmarks(&set);
    for _ in 0..14 {
        let m = r.pick(&pool).clone();
        let (ev, next) = match r.below(10) {
            9 => {
                let n = r.below(4);
                let list: Vec<Mk> = (0..n).map(|_| r.pick(&pool).clone()).collect();
                evs.push(ev_mark_list(&list, r.chance(1, 2)).0);
                continue;
            }
            how => ev_mark(&set, &m, how),
        };
        evs.push(ev);
        match next {
            Some(s) => set = s,
            None => break,
        }
        evs.push(ev_mark_query(&set, &pool, &log));
        log.push(set.clone());
        if log.len() > 4 {
            log.remove(0);
        }
    }
    json!({"doc": d_stub(), "set": first, "evs": evs})
}

// --------------------------------------------------------------------------------------- C11

fn wild(r: &mut Rng, n: usize) -> usize {
    match r.below(12) {
        0 => usize::MAX,
        1 => usize::MAX - r.below(3),
        2 => n + r.below(4),
        3 => 1 << r.below(63),
        4 => isize::MAX as usize,
        _ => r.below(n + 2),
    }
}

fn wild_slice(r: &mut Rng, d: &N) -> Sl {
    let mut s = match r.below(5) {
        0 => Sl::empty(),
        1 => {
            let b = r.range(1, 12);
            Sl { c: any_nodes(r, b, true), os: 0, oe: 0 }
        }
        2 => candidate(r, d).2,
        _ => {
            let o = doc(r);
            let u = toks(&o.c);
            let (a, b) = span(r, &u);
            slice_of(&u, a, b, r.chance(1, 3))
        }
    };
    if r.chance(1, 3) {
        s.os = if r.chance(1, 4) { wild(r, 6) } else { r.below(5) };
    }
    if r.chance(1, 3) {
        s.oe = if r.chance(1, 4) { wild(r, 6) } else { r.below(5) };
    }
    s
}

pub fn wild_step(r: &mut Rng, d: &N) -> St {
    let n = d.inner();
    if r.chance(1, 4) {
        return step(r, d);
    }
    let from = wild(r, n);
    let to = if r.chance(1, 3) { from.saturating_add(r.below(4)) } else { wild(r, n) };
    match r.below(5) {
        0 | 1 => St::Replace { from, to, slice: wild_slice(r, d), structure: r.chance(1, 2) },
        2 => {
            let gf = if r.chance(1, 2) { from.saturating_add(r.below(3)) } else { wild(r, n) };
            let gt = if r.chance(1, 2) { to.saturating_sub(r.below(3)) } else { wild(r, n) };
            let slice = wild_slice(r, d);
            let k = slice.c.iter().map(N::size).sum::<usize>();
            St::Around { from, to, gf, gt, slice, insert: wild(r, k), structure: r.chance(1, 3) }
        }
        3 => St::Add { from, to, mark: mark(r) },
        _ => St::Remove { from, to, mark: mark(r) },
    }
}

fn stringify(v: &Value) -> Value {
    match v {
        Value::Number(n) => Value::String(n.to_string()),
        Value::Array(a) => Value::Array(a.iter().map(stringify).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), stringify(v))).collect()),
        v => v.clone(),
    }
}

pub fn c11(r: &mut Rng) -> Value {
    let mut d = match r.below(4) {
        0 => {
            let b = r.range(1, 25);
            any_node(r, b, true)
        }
        1 => {
            let mut d = doc(r);
            mutate(r, &mut d);
            mutate(r, &mut d);
            d
        }
        _ => doc(r),
    };
    if r.chance(1, 6) {
        denormalize(r, &mut d);
    }
    let real = d.build();
    let mut evs = vec![];
    for _ in 0..25 {
        let mut st = wild_step(r, &d).build();
        if r.chance(1, 8) {
            let s = serde_json::to_string(&st).unwrap();
            if let Ok(Ok(x)) = guard(|| serde_json::from_str::<Step<MD>>(&s)) {
                st = x;
            }
        }
        let (res, _) = ap(&st, &real);
        let out = res["r"].as_str().unwrap().to_string();
        let mut ev = json!({"op": "call", "kind": pstep(&st)["st"], "out": out});
        if out == "panic" {
            ev["step"] = stringify(&pstep(&st));
            ev["msg"] = res["msg"].clone();
        }
        evs.push(ev);
    }
    session(pnode(&real), evs)
}

// --------------------------------------------------------------------------------------- C12

/// An authority, the steps it has accepted, and its replicas
pub struct Collab {
    auth: MarkdownNode,
    log: Vec<Step<MD>>,
    reps: Vec<Replica>,
    first: Value,
    evs: Vec<Value>,
}

struct Replica {
    doc: MarkdownNode,
    ver: usize,
    /// everything it gets is sent as JSON
    json: bool,
}

fn send<T: serde::Serialize + serde::de::DeserializeOwned>(s: &T) -> Option<T> {
    guard(|| serde_json::from_str(&serde_json::to_string(s).unwrap()).ok()).ok().flatten()
}

impl Collab {
    pub fn new(doc: &N, reps: usize) -> Collab {
        let auth = doc.build();
        Collab {
            first: pnode(&auth),
            reps: (0..reps).map(|i| Replica { doc: auth.clone(), ver: 0, json: i % 2 == 1 }).collect(),
            auth,
            log: vec![],
            evs: vec![],
        }
    }
    pub fn current(&self) -> N {
        unbuild(&self.auth)
    }
    pub fn submit(&mut self, s: Step<MD>) {
        let (res, next) = ap(&s, &self.auth);
        // what every replica at this version says to the step
        let mut at = vec![];
        for rep in self.reps.iter().filter(|x| x.ver == self.log.len()) {
            let sent = if rep.json { send(&s) } else { Some(s.clone_step()) };
            let (v, _) = match sent {
                Some(x) => ap(&x, &rep.doc),
                None => (json!({"r": "lost"}), None),
            };
            at.push(v);
        }
        self.evs.push(json!({"op": "submit", "step": pstep(&s), "res": res, "at": at}));
        if let Some(n) = next {
            self.auth = n;
            self.log.push(s);
        }
    }
    pub fn join(&mut self, json: bool) -> bool {
        let doc = if json { send(&self.auth) } else { Some(self.auth.clone()) };
        match doc {
            Some(doc) => {
                self.evs.push(json!({"op": "join", "doc": pnode(&doc)}));
                self.reps.push(Replica { doc, ver: self.log.len(), json });
                true
            }
            None => {
                self.evs.push(json!({"op": "lost"}));
                false
            }
        }
    }
    /// steps that replica i has not got
    pub fn behind(&self, i: usize) -> usize {
        self.log.len() - self.reps[i].ver
    }
    pub fn deliver(&mut self, i: usize) -> bool {
        if self.behind(i) == 0 {
            // a replay got out of step with the authority
            self.evs.push(json!({"op": "lost"}));
            return false;
        }
        let rep = &mut self.reps[i];
        let s = &self.log[rep.ver];
        let sent = if rep.json { send(s) } else { Some(s.clone_step()) };
        let (v, n) = match sent {
            Some(x) => ap(&x, &rep.doc),
            None => (json!({"r": "lost"}), None),
        };
        self.evs.push(json!({"op": "deliver", "rep": i + 1, "res": v}));
        match n {
            Some(n) => {
                rep.doc = n;
                rep.ver += 1;
                true
            }
            None => false,
        }
    }
    pub fn session(self, reps: usize) -> Value {
        json!({"doc": self.first, "evs": self.evs, "reps": reps})
    }
}

pub fn c12(r: &mut Rng) -> Value {
    let mut c = Collab::new(&doc(r), 2);
    'outer: for _ in 0..22 {
        match r.below(9) {
            0..=4 => {
                let cur = c.current();
                let s = if cur.size() > 120 {
                    let t = toks(&cur.c);
                    let (from, to) = span(r, &t);
                    St::Replace { from, to, slice: Sl::empty(), structure: false }
                } else {
                    step(r, &cur)
                };
                if let St::Around { gf, gt, .. } = &s {
                    if gf > gt {
                        continue;
                    }
                }
                c.submit(s.build());
            }
            5 if c.reps.len() < 5 => {
                if !c.join(r.chance(2, 3)) {
                    break 'outer;
                }
            }
            _ => {
                let i = r.below(c.reps.len());
                if c.behind(i) > 0 {
                    let k = r.range(1, c.behind(i));
                    for _ in 0..k {
                        if !c.deliver(i) {
                            break 'outer;
                        }
                    }
                }
            }
        }
    }
    c.session(2)
}

trait CloneStep {
    fn clone_step(&self) -> Self;
}

impl CloneStep for Step<MD> {
    fn clone_step(&self) -> Self {
        let sl = |s: &Slice<MD>| Slice::new(s.content.clone(), s.open_start, s.open_end);
        match self {
            Step::Replace(s) => Step::Replace(ReplaceStep {
                span: s.span,
                slice: sl(&s.slice),
                structure: s.structure,
            }),
            Step::ReplaceAround(s) => Step::ReplaceAround(ReplaceAroundStep {
                span: s.span,
                gap_from: s.gap_from,
                gap_to: s.gap_to,
                slice: sl(&s.slice),
                insert: s.insert,
                structure: s.structure,
            }),
            Step::AddMark(s) => Step::AddMark(AddMarkStep { span: s.span, mark: s.mark.clone() }),
            Step::RemoveMark(s) => {
                Step::RemoveMark(RemoveMarkStep { span: s.span, mark: s.mark.clone() })
            }
        }
    }
}

// --------------------------------------------------------------------------------------- C14

pub fn sample_of(r: &mut Rng, t: Ty, marked: bool) -> N {
    match t {
        Ty::Text => N::text("a", if marked { vec![Mk::Em] } else { vec![] }),
        t => {
            let a = attrs(r, t);
            N::new(t, a, vec![])
        }
    }
}

fn seq_types(r: &mut Rng, parent: Ty, max: usize) -> Vec<Ty> {
    let n = if r.chance(1, 20) { r.range(5, 20) } else { r.below(max + 1) };
    let good: Vec<Ty> = match parent {
        Ty::Doc | Ty::Blockquote | Ty::ListItem => {
            TYPES.iter().copied().filter(|t| t.is_block()).collect()
        }
        Ty::Paragraph => vec![Ty::Text, Ty::Image, Ty::HardBreak],
        Ty::Heading => vec![Ty::Text, Ty::Image],
        Ty::CodeBlock => vec![Ty::Text],
        Ty::BulletList | Ty::OrderedList => vec![Ty::ListItem],
        _ => vec![Ty::Text],
    };
    let mut v: Vec<Ty> = (0..n)
        .map(|_| if r.chance(1, 12) { *r.pick(&TYPES) } else { *r.pick(&good) })
        .collect();
    if parent == Ty::ListItem && !v.is_empty() && r.chance(4, 5) {
        v[0] = Ty::Paragraph;
    }
    v
}

/// Children of every sequence of types up to a length, one session per parent type and first child
pub fn c14_exhaustive(i: usize) -> Option<Value> {
    let parent = *TYPES.get(i / 12)?;
    let first = TYPES[i % 12];
    let mut r = Rng::new(7);
    let mut evs = vec![];
    let mut seqs: Vec<Vec<Ty>> = vec![vec![first]];
    if i % 12 == 0 {
        seqs.push(vec![]);
    }
    for b in TYPES {
        seqs.push(vec![first, b]);
        for c in [Ty::Paragraph, Ty::Text, Ty::ListItem, Ty::HardBreak, Ty::Heading, Ty::HorizontalRule] {
            seqs.push(vec![first, b, c]);
        }
    }
    for s in seqs {
        let kids: Vec<N> = s.iter().map(|t| sample_of(&mut r, *t, r_marked(&s, *t))).collect();
        evs.push(match_ev(parent, &kids));
    }
    for b in TYPES {
        evs.push(json!({"op": "compat", "a": parent.name(), "b": b.name(),
            "res": parent.real().compatible_content(b.real())}));
    }
    for m in [MarkdownMarkType::Strong, MarkdownMarkType::Em, MarkdownMarkType::Code, MarkdownMarkType::Link] {
        evs.push(json!({"op": "allows", "t": parent.name(), "res": parent.real().allows_mark_type(m)}));
    }
    Some(session(d_stub(), evs))
}

fn r_marked(s: &[Ty], _t: Ty) -> bool {
    s.len() % 2 == 0
}

pub fn match_ev(parent: Ty, kids: &[N]) -> Value {
    let f = frag(kids);
    let ty = parent.real();
    let res = call(|| json!({"call": "content match", "parent": parent.name(), "children": pnodes(f.children())}), || {
        let mut m = Some(ty.content_match());
        let mut steps: Vec<Value> = vec![];
        for k in kids {
            m = m.and_then(|m| m.match_type(k.t.real()));
            steps.push(match m {
                Some(m) => json!(if m.valid_end() { "end" } else { "open" }),
                None => json!("fail"),
            });
        }
        let whole = match ty.content_match().match_fragment(&f) {
            Some(m) => if m.valid_end() { "end" } else { "open" },
            None => "fail",
        };
        let mut ranges = vec![];
        for a in 0..=kids.len().min(3) {
            for b in a..=kids.len().min(4) {
                let x = match ty.content_match().match_fragment_range(&f, a..b) {
                    Some(m) => if m.valid_end() { "end" } else { "open" },
                    None => "fail",
                };
                ranges.push(json!([a, b, x]));
            }
        }
        json!({"r": "ok", "steps": steps, "whole": whole, "ranges": ranges,
            "valid": ty.valid_content(&f),
            "marks": kids.iter().map(|k| ty.allow_marks(&mark_set(&k.m))).collect::<Vec<_>>(),
            "start": if ty.content_match().valid_end() { "end" } else { "open" }})
    })
    .unwrap_or_else(panicked);
    json!({"op": "match", "t": parent.name(), "kids": pnodes(f.children()), "res": res})
}

pub fn c14(r: &mut Rng) -> Value {
    let mut evs = vec![];
    let pt = *r.pick(&TYPES);
    let ts = seq_types(r, pt, 5);
    let mut kids: Vec<N> = vec![];
    for t in &ts {
        let mut n = sample_of(r, *t, false);
        if *t == Ty::Text && r.chance(1, 3) {
            n.m = marks(r);
        }
        kids.push(n);
    }
    evs.push(match_ev(pt, &kids));
    // and something similar
    if !kids.is_empty() && r.chance(1, 2) {
        let mut other = kids.clone();
        let i = r.below(other.len());
        match r.below(3) {
            0 => {
                let t = *r.pick(&[Ty::HardBreak, Ty::Image, Ty::HorizontalRule, Ty::Text, Ty::Paragraph, Ty::ListItem]);
                other[i] = sample_of(r, t, false)
            }
            _ if other[i].t == Ty::Text => other[i].m = near_marks(r, &other[i].m),
            _ => tweak(r, &mut other[i]),
        }
        evs.push(match_ev(pt, &other));
        evs.push(match_ev(if r.chance(1, 2) { pt } else { *r.pick(&TYPES) }, &kids));
    }
    if !pt.is_leaf() {
        let a = attrs(r, pt);
        let p = N::new(pt, a, kids);
        let real = p.build();
        for i in 0..=p.c.len() + r.below(2) {
            if i > p.c.len() {
                continue;
            }
            evs.push(ev_match_at(&real, i));
        }
        for _ in 0..6 {
            let from = r.below(p.c.len() + 1);
            let to = r.range(from, p.c.len());
            let ts = seq_types(r, pt, 4);
            let repl: Vec<N> = ts
                .iter()
                .map(|t| {
                    let mut n = sample_of(r, *t, false);
                    if *t == Ty::Text && r.chance(1, 2) {
                        n.m = marks(r);
                    }
                    n
                })
                .collect();
            let none = r.chance(1, 6);
            let lo = r.below(repl.len() + 1);
            let hi = r.range(lo, repl.len());
            let (lo, hi) = if none { (0, 0) } else if r.chance(1, 2) { (0, repl.len()) } else { (lo, hi) };
            let range = range_form(r, lo, hi, if none { 0 } else { repl.len() });
            evs.push(ev_can_replace(&real, from, to, if none { None } else { Some(&repl) }, lo, hi, range));
        }
    }
    session(d_stub(), evs)
}

pub fn ev_match_at(real: &MarkdownNode, i: usize) -> Value {
    let x = call(|| json!({"call": "content_match_at", "node": pnode(real), "index": i}), || {
        match real.content_match_at(i) {
            Ok(m) => if m.valid_end() { "end" } else { "open" },
            Err(_) => "err",
        }
    });
    json!({"op": "matchAt", "node": pnode(real), "i": i, "res": x.unwrap_or("panic")})
}

/// range: a form of lo..hi
pub fn ev_can_replace(
    real: &MarkdownNode,
    from: usize,
    to: usize,
    with: Option<&[N]>,
    lo: usize,
    hi: usize,
    range: Range,
) -> Value {
    let f = frag(with.unwrap_or(&[]));
    let x = call(
        || json!({"call": "can_replace", "node": pnode(real), "from": from, "to": to, "with": pnodes(f.children())}),
        || match real.can_replace(from, to, with.map(|_| &f), range) {
            Ok(true) => "yes",
            Ok(false) => "no",
            Err(_) => "err",
        },
    );
    json!({"op": "canReplace", "node": pnode(real), "from": from, "to": to,
        "with": pnodes(&f.children()[lo..hi]), "res": x.unwrap_or("panic")})
}

// --------------------------------------------------------------------------------------- C15

pub fn c15(r: &mut Rng) -> Value {
    let mut d = doc(r);
    if r.chance(1, 8) {
        d = any_node(r, 25, false);
    }
    if r.chance(1, 8) {
        denormalize(r, &mut d);
    }
    let t = toks(&d.c);
    let real = d.build();
    let mut evs = vec![];
    if let Some(f) = fragment(&real) {
        for i in 0..6 {
            let (a, b) = if i == 0 { (0, t.len()) } else { span(r, &t) };
            let start = if r.chance(1, 2) { 0 } else { r.below(100) };
            let decline = r.below(4);
            evs.push(ev_visit(&real, f, a, b, start, &mut |n, p| match decline {
                0 => false,
                1 => p % 3 == 0,
                2 => matches!(n, MarkdownNode::Blockquote(_) | MarkdownNode::ListItem(_)),
                _ => matches!(n, MarkdownNode::Paragraph(_)),
            }));

            let (a, b) = if i == 0 { (0, t.len()) } else { span(r, &t) };
            let sep = match r.below(4) {
                0 => None,
                1 => Some(""),
                2 => Some("\n"),
                _ => Some("\u{1F60A}-"),
            };
            let leaf = match r.below(3) {
                0 => None,
                1 => Some("*"),
                _ => Some("\u{FFFC}x"),
            };
            let separated = r.chance(1, 2);
            let prefix = if r.chance(1, 3) { "pre" } else { "" };
            evs.push(ev_text(&real, f, a, b, sep, leaf, separated, prefix));
        }
    }
    // the text content of the root and of some node inside
    let mut nodes: Vec<&MarkdownNode> = vec![&real];
    let mut n = &real;
    while !children(n).is_empty() && r.chance(3, 4) {
        n = r.pick(children(n));
        nodes.push(n);
    }
    for n in nodes {
        evs.push(ev_content(n));
    }
    session(pnode(&real), evs)
}

pub fn ev_content(n: &MarkdownNode) -> Value {
    let x = call(|| json!({"call": "text_content", "node": pnode(n)}), || n.text_content());
    json!({"op": "content", "node": pnode(n), "res": if x.is_ok() { "ok" } else { "panic" },
        "out": units(&x.unwrap_or_default())})
}

/// decline: which nodes the callback does not enter
pub fn ev_visit(
    real: &MarkdownNode,
    f: &Fragment<MD>,
    a: usize,
    b: usize,
    start: usize,
    decline: &mut dyn FnMut(&MarkdownNode, usize) -> bool,
) -> Value {
    let mut seen = vec![];
    let mut said_no = vec![];
    let res = call(
        || json!({"call": "nodes_between", "doc": pnode(real), "from": a, "to": b}),
        || {
            f.nodes_between(
                a,
                b,
                &mut |n: &MarkdownNode, p: usize| {
                    seen.push(json!([p, type_str(n), n_addr(real, n)]));
                    let no = decline(n, p);
                    if no {
                        said_no.push(p);
                    }
                    !no
                },
                start,
            )
        },
    );
    let out = if res.is_ok() { "ok" } else { "panic" };
    json!({"op": "visit", "from": a, "to": b, "start": start, "seen": seen, "declined": said_no, "res": out})
}

#[allow(clippy::too_many_arguments)]
pub fn ev_text(
    real: &MarkdownNode,
    f: &Fragment<MD>,
    a: usize,
    b: usize,
    sep: Option<&str>,
    leaf: Option<&str>,
    separated: bool,
    prefix: &str,
) -> Value {
    let mut buf = prefix.to_string();
    let res = call(
        || json!({"call": "text_between", "doc": pnode(real), "from": a, "to": b, "sep": sep, "leaf": leaf}),
        || f.text_between(&mut buf, separated, a, b, sep, leaf),
    );
    let o = |x: Option<&str>| x.map_or(json!([]), |s| json!([units(s)]));
    json!({"op": "text", "from": a, "to": b, "sep": o(sep), "leaf": o(leaf),
        "separated": separated, "prefix": units(prefix), "out": units(&buf),
        "res": if res.is_ok() { "ok" } else { "panic" }})
}

/// The child indices that lead from the root to the node
fn n_addr(root: &MarkdownNode, n: &MarkdownNode) -> Value {
    fn go(x: &MarkdownNode, n: &MarkdownNode, path: &mut Vec<usize>) -> bool {
        for (i, c) in children(x).iter().enumerate() {
            path.push(i + 1);
            if std::ptr::eq(c, n) || go(c, n, path) {
                return true;
            }
            path.pop();
        }
        false
    }
    let mut p = vec![];
    if go(root, n, &mut p) {
        json!(p)
    } else {
        json!([0])
    }
}

// --------------------------------------------------------------------------------------- C16

pub fn c16(r: &mut Rng) -> Value {
    let mut d = doc(r);
    if r.chance(1, 10) {
        denormalize(r, &mut d);
    }
    if r.chance(1, 12) {
        d = any_node(r, 20, false);
    }
    let t = toks(&d.c);
    let real = d.build();
    let mut evs = vec![];
    for i in 0..5 {
        let (a, b) = if i == 0 { (0, t.len()) } else { span(r, &t) };
        let range = range_form(r, a, b, t.len());
        ev_cut(&real, range, &mut evs);
        ev_cut_append(&real, pos(r, &t), &mut evs);
    }
    // any two fragments one after the other
    for _ in 0..3 {
        let (x, y) = if r.chance(2, 3) {
            (inline(r, Ty::Paragraph, 4), inline(r, Ty::Paragraph, 4))
        } else {
            (fitting(r, Ty::Doc, 8), fitting(r, Ty::Doc, 8))
        };
        let mut y = y;
        if let (Some(l), Some(f)) = (x.last(), y.first_mut()) {
            if f.t == Ty::Text && l.t == Ty::Text && r.chance(2, 3) {
                f.m = if r.chance(2, 3) { l.m.clone() } else { near_marks(r, &l.m) };
                let rest = y.split_off(1);
                for n in rest {
                    push_normal(&mut y, n);
                }
            }
        }
        evs.push(ev_append(&x, &y));
    }
    if let Some(f) = fragment(&real) {
        if f.child_count() > 0 {
            let i = r.below(d.c.len());
            let x = match r.below(4) {
                0 => d.c[i].clone(),
                1 => any_node(r, 6, false),
                _ => nearby(r, &d.c[i]),
            };
            evs.push(ev_replace_child(&real, f, i, &x.build()));
        }
    }
    // copies of a node with other content or other marks
    let mut n = &real;
    while !children(n).is_empty() && r.chance(2, 3) {
        n = r.pick(children(n));
    }
    let c = frag(&inline(r, Ty::Paragraph, 3));
    let mut saw = Value::Null;
    let x = call(|| json!({"call": "copy", "node": pnode(n)}), || {
        n.copy(|old| {
            saw = pnodes(old.children());
            c.clone()
        })
    });
    evs.push(json!({"op": "copy", "node": pnode(n), "content": pnodes(c.children()),
        "saw": if saw.is_null() { json!([]) } else { saw }, "res": nres(x)}));
    let m = mark_set(&marks(r));
    evs.push(json!({"op": "remark", "node": pnode(n), "marks": pmarks(&m),
        "res": nres(call(|| json!({"call": "mark", "node": pnode(n)}), || n.mark(m.clone())))}));
    let leaf = inline(r, Ty::Paragraph, 3);
    for l in leaf {
        if l.t == Ty::Text {
            let b = l.build();
            let m = mark_set(&marks(r));
            evs.push(json!({"op": "remark", "node": pnode(&b), "marks": pmarks(&m),
                "res": nres(call(|| json!({"call": "mark", "node": pnode(&b)}), || b.mark(m.clone())))}));
            let tt = toks(&[l.clone()]);
            let (a, z) = span(r, &tt);
            let range = range_form(r, a, z, tt.len());
            evs.push(json!({"op": "textCut", "node": pnode(&b), "lo": bound(&range.0), "hi": bound(&range.1),
                "res": nres(call(|| json!({"call": "cut", "node": pnode(&b)}), || b.cut(range).into_owned()))}));
            // joining texts
            if let MarkdownNode::Text(tn) = &b {
                let o = text(r, 4);
                let j = tn.text.join(&prosemirror::model::Text::from(o.clone()));
                evs.push(json!({"op": "join", "a": units(tn.text.as_str()), "b": units(&o),
                    "out": units(j.as_str()), "len": j.len_utf16()}));
            }
        }
    }
    session(pnode(&real), evs)
}

fn fres(x: Result<Fragment<MD>, String>) -> Value {
    match x {
        Ok(f) => json!({"r": "ok", "nodes": pnodes(f.children())}),
        Err(p) => panicked(p),
    }
}

fn nres(x: Result<MarkdownNode, String>) -> Value {
    node_res(x.map(Ok)).0
}

pub fn ev_cut(real: &MarkdownNode, range: Range, evs: &mut Vec<Value>) {
    let what = || json!({"call": "cut", "doc": pnode(real), "range": format!("{:?}", range)});
    evs.push(json!({"op": "cut", "lo": bound(&range.0), "hi": bound(&range.1),
        "res": nres(call(what, || real.cut(range).into_owned()))}));
    if let Some(f) = fragment(real) {
        evs.push(json!({"op": "fragCut", "lo": bound(&range.0), "hi": bound(&range.1),
            "res": fres(call(what, || f.cut(range)))}));
    }
}

pub fn ev_cut_append(real: &MarkdownNode, p: usize, evs: &mut Vec<Value>) {
    if let Some(f) = fragment(real) {
        let x = call(|| json!({"call": "cut, append", "doc": pnode(real), "at": p}), || {
            let res = f.cut(..p).append(f.cut(p..));
            (res == *f, res)
        });
        let eq = matches!(&x, Ok((true, _)));
        evs.push(json!({"op": "cutAppend", "p": p, "eq": eq, "res": fres(x.map(|y| y.1))}));
    }
}

pub fn ev_append(x: &[N], y: &[N]) -> Value {
    let (p, q) = (frag(x), frag(y));
    let (dp, dq) = (pnodes(p.children()), pnodes(q.children()));
    let res = fres(call(|| json!({"call": "append", "a": dp, "b": dq}), || p.append(q)));
    json!({"op": "append", "a": dp, "b": dq, "res": res})
}

pub fn ev_replace_child(real: &MarkdownNode, f: &Fragment<MD>, i: usize, x: &MarkdownNode) -> Value {
    let what = || json!({"call": "replace_child", "doc": pnode(real), "index": i});
    json!({"op": "replaceChild", "i": i, "node": pnode(x),
        "res": fres(call(what, || f.replace_child(i, x.clone()).into_owned()))})
}

// --------------------------------------------------------------------------------------- C19

pub fn c19(r: &mut Rng) -> Value {
    let d = doc(r);
    let mut cur = d;
    let first = pnode(&cur.build());
    let mut evs = vec![];
    for _ in 0..10 {
        let real = cur.build();
        let (mut ev, next) = if r.chance(1, 2) {
            let (from, to, s) = candidate(r, &cur);
            ev_undo(&real, from, to, &s)
        } else {
            crate::more::ev_undo_step(&real, &step(r, &cur))
        };
        if let Some(n) = next {
            let n = unbuild(&n);
            if n.size() < 150 && r.chance(2, 3) {
                ev["upd"] = json!(true);
                cur = n;
            }
        }
        evs.push(ev);
    }
    session(first, evs)
}

pub fn ev_undo(real: &MarkdownNode, from: usize, to: usize, s: &Sl) -> (Value, Option<MarkdownNode>) {
    let slice = s.build();
    let (res, next) = node_res(call(
        || json!({"call": "replace", "doc": pnode(real), "from": from, "to": to, "slice": pslice(&slice)}),
        || real.replace(from..to, &slice).map_err(|e| replace_err(&e)),
    ));
    let mut undo = json!({"r": "none"});
    let mut old = json!({"c": [], "os": 0, "oe": 0});
    let size: usize = s.c.iter().map(N::size).sum();
    if let Some(n) = &next {
        let end = (from + size).saturating_sub(s.os + s.oe);
        let inv = slice_res(call(
            || json!({"call": "slice", "doc": pnode(real), "from": from, "to": to}),
            || real.slice(from..to, false),
        ));
        if let Some(inv) = inv.1 {
            old = pslice(&inv);
            let x = node_res(call(
                || json!({"call": "replace", "doc": pnode(n), "from": from, "to": end, "slice": pslice(&inv)}),
                || n.replace(from..end, &inv).map_err(|e| replace_err(&e)),
            ));
            undo = x.0;
            undo["eq"] = json!(x.1.map_or(false, |y| &y == real));
        } else {
            undo = inv.0;
            undo["eq"] = json!(false);
        }
    }
    (json!({"op": "undo", "from": from, "to": to, "slice": pslice(&slice), "res": res,
        "old": old, "undo": undo, "upd": false}), next)
}
