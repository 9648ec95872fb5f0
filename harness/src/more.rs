//! Drivers for equality and construction (C20), edits apart from each other (C21), undoing
//! any step (C19).
use crate::gen::*;
use crate::ops::*;
use crate::props::*;
use crate::tree::*;
use prosemirror::markdown::helper as h;
use prosemirror::markdown::*;
use prosemirror::model::*;
use prosemirror::transform::*;
use serde_json::{json, Value};

// --------------------------------------------------------------------------------------- C19

/// Apply a step and put back what was in its range
pub fn ev_undo_step(real: &MarkdownNode, st: &St) -> (Value, Option<MarkdownNode>) {
    let (from, to) = match st {
        St::Replace { from, to, .. }
        | St::Around { from, to, .. }
        | St::Add { from, to, .. }
        | St::Remove { from, to, .. } => (*from, *to),
    };
    let step = st.build();
    let (res, next) = ap(&step, real);
    let mut undo = json!({"r": "none", "eq": false});
    if let Some(n) = &next {
        let end = (to + n.node_size()).saturating_sub(real.node_size());
        let old = call(
            || json!({"call": "slice", "doc": pnode(real), "from": from, "to": to}),
            || real.slice(from..to, false),
        );
        if let Ok(Ok(old)) = old {
            let back = Step::Replace(ReplaceStep {
                span: Span { from, to: end },
                slice: old,
                structure: false,
            });
            let (u, x) = ap(&back, n);
            undo = u;
            undo["eq"] = json!(x.map_or(false, |y| &y == real));
        }
    }
    (json!({"op": "undoStep", "step": pstep(&step), "res": res, "undo": undo, "upd": false}), next)
}

// --------------------------------------------------------------------------------------- C20

fn by_json<T: serde::Serialize + serde::de::DeserializeOwned>(x: &T) -> Option<T> {
    guard(|| serde_json::from_str(&serde_json::to_string(x).ok()?).ok()).ok().flatten()
}

pub fn ev_equal<T: PartialEq>(kind: &str, a: &T, b: &T, p: impl Fn(&T) -> Value) -> Value {
    let eq = call(|| json!({"call": "==", "a": p(a), "b": p(b)}), || (a == b, b == a, !(a != b)));
    let r = match eq {
        Ok((x, y, z)) if x == y && y == z => json!(if x { "yes" } else { "no" }),
        Ok(_) => json!("inconsistent"),
        Err(m) => json!(m),
    };
    json!({"op": "equal", "kind": kind, "a": p(a), "b": p(b), "res": r})
}

/// The same node, obtained in another way
pub fn again(r: &mut Rng, n: &MarkdownNode) -> MarkdownNode {
    let other = || -> Option<MarkdownNode> {
        match r.below(7) {
            0 => Some(n.clone()),
            1 => by_json(n),
            2 => {
                // in two halves
                let f = fragment(n)?;
                let at = r.below(f.size() + 1);
                let (a, b) = guard(|| (f.cut(..at), f.cut(at..))).ok()?;
                Some(n.copy(|_| a.append(b)))
            }
            3 => {
                let f = fragment(n)?;
                let mut all = Fragment::new();
                for c in f.children() {
                    all = all.append(Fragment::from((c.clone(),)));
                }
                Some(n.copy(|_| all))
            }
            4 => {
                let f = fragment(n)?;
                if f.child_count() == 0 {
                    return None;
                }
                let i = r.below(f.child_count());
                let c = again(r, f.child(i));
                Some(n.copy(|f| f.replace_child(i, c).into_owned()))
            }
            5 => {
                let size = n.content_size();
                let (a, b) = (r.below(size + 1), r.below(size + 1));
                let (a, b) = (a.min(b), a.max(b));
                guard(|| n.replace(a..b, &n.slice(a..b, false).ok()?).ok()).ok().flatten()
            }
            _ => match n {
                MarkdownNode::Text(t) => {
                    let s = t.text.as_str();
                    let mut i = r.below(s.len() + 1);
                    while !s.is_char_boundary(i) {
                        i -= 1;
                    }
                    let (a, b) = s.split_at(i);
                    let text = Text::from(a.to_string()).join(&Text::from(b.to_string()));
                    Some(MarkdownNode::from(t.with_text(text)))
                }
                _ => Some(n.copy(|f| Fragment::from(Vec::from(f.clone())))),
            },
        }
    }();
    other.unwrap_or_else(|| n.clone())
}

/// A small change somewhere
fn change(r: &mut Rng, d: &N) -> N {
    let mut d = d.clone();
    match r.below(3) {
        0 => denormalize(r, &mut d),
        1 if r.chance(1, 5) => d = nearby(r, &d),
        _ => tweak(r, &mut d),
    }
    d
}

pub fn c20(r: &mut Rng) -> Value {
    let mut evs = vec![];
    let d = if r.chance(1, 3) { any_node(r, 14, true) } else { doc(r) };
    let d = if d.size() > 120 { N::new(Ty::Doc, At::None, blocks(r, 6, true)) } else { d };
    for _ in 0..6 {
        let other = if r.chance(1, 2) { d.clone() } else { change(r, &d) };
        let (a, b) = (again(r, &d.build()), again(r, &other.build()));
        evs.push(ev_equal("node", &a, &b, pnode));
        if let (Some(f), Some(g)) = (fragment(&a), fragment(&b)) {
            evs.push(ev_equal("fragment", f, g, |f| pnodes(f.children())));
            let depth = |r: &mut Rng| if r.chance(4, 5) { 0 } else { r.below(2) };
            let s = Slice::new(f.clone(), depth(r), 0);
            let t = Slice::new(g.clone(), depth(r), 0);
            evs.push(ev_equal("slice", &s, &t, pslice));
        }
    }
    let st = step(r, &d);
    let one = st.build();
    let two = if r.chance(1, 2) { step(r, &d).build() } else { by_json(&one).unwrap_or(st.build()) };
    evs.push(ev_equal("step", &one, &two, pstep));
    // ... and steps that differ in one field
    for _ in 0..5 {
        let st = step(r, &d);
        let other = one_field(r, st.clone());
        let other = if r.chance(1, 6) { st.clone() } else { other };
        let (a, b) = (st.build(), other.build());
        let b = if r.chance(1, 3) { by_json(&b).unwrap_or(b) } else { b };
        evs.push(ev_equal("step", &a, &b, pstep));
    }
    // marks, which can be hashed, too, and sets of them that came about in different ways
    for _ in 0..3 {
        let x = mark(r);
        let y = match r.below(3) {
            0 => x.clone(),
            1 => near_marks(r, &[x.clone()]).pop().unwrap_or(x.clone()),
            _ => mark(r),
        };
        let (a, b) = (x.real(), y.real());
        let b = if r.chance(1, 2) { by_json(&b).unwrap_or(b) } else { b };
        let mut ev = ev_equal("mark", &a, &b, pmark);
        let hash = |m: &MarkdownMark| {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            std::hash::Hash::hash(m, &mut h);
            std::hash::Hasher::finish(&h)
        };
        let same = guard(|| hash(&a) == hash(&b));
        if ev["res"] == "yes" && same != Ok(true) {
            ev["res"] = json!("equal with different hashes");
        }
        evs.push(ev);
        let m = marks(r);
        let n = if r.chance(1, 3) { m.clone() } else { near_marks(r, &m) };
        let mut order = n.clone();
        for i in (1..order.len()).rev() {
            order.swap(i, r.below(i + 1));
        }
        let set = mark_set(&order);
        let set = if r.chance(1, 2) { by_json(&set).unwrap_or(set) } else { set };
        evs.push(ev_equal("marks", &mark_set(&m), &set, pmarks));
    }
    // texts, with the two halves of characters in different pieces of the string
    for _ in 0..2 {
        let (x, y) = (text(r, 3), text(r, 3));
        let joined = Text::from(x.clone()).join(&Text::from(y.clone()));
        let whole = Text::from(if r.chance(3, 4) { x + &y } else { y });
        evs.push(ev_equal("text", &joined, &whole, |t| units(t.as_str())));
    }
    for _ in 0..5 {
        evs.push(ev_construct(r));
    }
    session(d_stub(), evs)
}

/// The step with one of its fields changed a little
fn one_field(r: &mut Rng, mut st: St) -> St {
    let off = |r: &mut Rng, x: &mut usize| *x = if *x > 0 && r.chance(1, 2) { *x - 1 } else { *x + 1 };
    let in_slice = |r: &mut Rng, s: &mut Sl| match r.below(4) {
        0 => off(r, &mut s.os),
        1 => off(r, &mut s.oe),
        2 => s.c.push(any_node(r, 3, true)),
        _ if s.c.is_empty() => s.os += 1,
        _ => {
            let i = r.below(s.c.len());
            s.c[i] = change(r, &s.c[i]);
        }
    };
    let k = r.below(8);
    st = match st {
        // the same fields with the other meaning
        St::Add { from, to, mark } if k == 7 => return St::Remove { from, to, mark },
        St::Remove { from, to, mark } if k == 7 => return St::Add { from, to, mark },
        s => s,
    };
    match &mut st {
        St::Replace { from, to, slice, structure } => match k {
            0 | 1 => off(r, from),
            2 | 3 => off(r, to),
            4 | 5 => *structure = !*structure,
            _ => in_slice(r, slice),
        },
        St::Around { from, to, gf, gt, insert, slice, structure } => match k {
            0 => off(r, from),
            1 => off(r, to),
            2 => off(r, gf),
            3 => off(r, gt),
            4 => off(r, insert),
            5 => *structure = !*structure,
            _ => in_slice(r, slice),
        },
        St::Add { from, to, mark: m } | St::Remove { from, to, mark: m } => match k {
            0 | 1 => off(r, from),
            2 | 3 => off(r, to),
            _ => *m = near_marks(r, &[m.clone()]).pop().unwrap_or(mark(r)),
        },
    }
    st
}

/// A node or fragment made by one of the constructors
fn ev_construct(r: &mut Rng) -> Value {
    let n = r.below(4);
    let mut parts: Vec<N> = (0..n).map(|_| any_node(r, 4, true)).collect();
    let s = text(r, 3);
    let (form, content): (_, Fragment<MD>) = match r.below(6) {
        0 => {
            parts = vec![N::text(&s, vec![])];
            ("&str", Fragment::from(s.as_str()))
        }
        1 => {
            parts = vec![any_node(r, 4, true)];
            ("node", Fragment::from(parts[0].build()))
        }
        2 => {
            parts = vec![any_node(r, 4, true)];
            ("(a,)", Fragment::from((parts[0].build(),)))
        }
        3 => {
            parts = vec![any_node(r, 4, true), N::text(&s, vec![])];
            ("(a, b)", Fragment::from((parts[0].build(), s.as_str())))
        }
        4 => {
            parts = vec![];
            ("empty", if r.chance(1, 2) { Fragment::new() } else { Fragment::EMPTY_REF.clone() })
        }
        _ => ("vec", Fragment::from(parts.iter().map(N::build).collect::<Vec<_>>())),
    };
    let size = content.size();
    let kids: Vec<Value> = parts.iter().map(|p| pnode(&p.build())).collect();
    let level = r.below(8) as u8;
    let params = attr_str(r);
    let mut arg = String::new();
    let how = *r.pick(&["doc", "h", "h1", "h2", "p", "li", "ul", "blockquote", "code_block", "em", "strong", "text", "fragment"]);
    let what = || json!({"call": how, "content": kids});
    let made = call(what, || match how {
        "doc" => h::doc(content),
        "h" => h::h(level, content),
        "h1" => h::h1(content),
        "h2" => h::h2(content),
        "p" => h::p(content),
        "li" => h::li(content),
        "ul" => h::ul(content),
        "blockquote" => h::blockquote(content),
        "code_block" => h::code_block(&params, content),
        "em" => h::em(&s),
        "strong" => h::strong(&s),
        "text" => h::node(s.as_str()),
        _ => MarkdownNode::Doc(Block { content }),
    });
    match how {
        "h" => arg = level.to_string(),
        "code_block" => arg = params.clone(),
        _ => {}
    }
    let res = match made {
        Ok(n) => json!({"r": "ok", "node": pnode(&n), "size": n.node_size(), "inner": size}),
        Err(m) => panicked(m),
    };
    json!({"op": "construct", "how": how, "form": form, "arg": arg, "text": units(&s), "content": kids, "res": res})
}

// --------------------------------------------------------------------------------------- C21

fn ends(s: &St) -> Vec<usize> {
    match s {
        St::Replace { from, to, .. } | St::Add { from, to, .. } | St::Remove { from, to, .. } => vec![*from, *to],
        St::Around { from, to, gf, gt, .. } => vec![*from, *gf, *gt, *to],
    }
}

/// The step with its positions moved
fn moved(s: &St, f: impl Fn(usize) -> usize) -> St {
    let mut s = s.clone();
    match &mut s {
        St::Replace { from, to, .. } | St::Add { from, to, .. } | St::Remove { from, to, .. } => {
            *from = f(*from);
            *to = f(*to);
        }
        St::Around { from, to, gf, gt, .. } => {
            for p in [from, to, gf, gt] {
                *p = f(*p);
            }
        }
    }
    s
}

/// How two steps are apart: s2 is behind s1, inside of its gap, or both change marks
pub fn apart(s1: &St, s2: &St) -> Option<&'static str> {
    let (e1, e2) = (ends(s1), ends(s2));
    let marks = |s: &St| matches!(s, St::Add { .. } | St::Remove { .. });
    match (marks(s1), marks(s2)) {
        (true, true) => Some("marks"),
        (false, false) if e2.iter().all(|p| *p >= *e1.last().unwrap()) => Some("after"),
        (false, false) if e1.len() == 4 && e2.iter().all(|p| *p >= e1[1] && *p <= e1[2]) => Some("inside"),
        _ => None,
    }
}

/// Two steps in either order, each moved by what the other one inserts and removes; None if they are not
/// apart
pub fn ev_commute(real: &MarkdownNode, s1: &St, s2: &St, want: bool) -> Option<Value> {
    let rel = apart(s1, s2)?;
    let shift = |p: usize, d: i64| (p as i64 + d).max(0) as usize;
    let (b1, b2) = (s1.build(), s2.build());
    let (r1, n1) = ap(&b1, real);
    let (r2, n2) = ap(&b2, real);
    if want && (n1.is_none() || n2.is_none()) {
        return None;
    }
    let delta = |n: &Option<MarkdownNode>| {
        n.as_ref().map_or(0, |n| n.node_size() as i64 - real.node_size() as i64)
    };
    let (d1, d2) = (delta(&n1), delta(&n2));
    let (t1, t2) = if rel == "marks" {
        (s1.clone(), s2.clone())
    } else if rel == "after" {
        (s1.clone(), moved(s2, |p| shift(p, d1)))
    } else {
        let head = match s1 {
            St::Around { from, gf, insert, .. } => *insert as i64 - (*gf as i64 - *from as i64),
            _ => unreachable!(),
        };
        let mut t1 = s1.clone();
        if let St::Around { to, gt, .. } = &mut t1 {
            *to = shift(*to, d2);
            *gt = shift(*gt, d2);
        }
        (t1, moved(s2, |p| shift(p, head)))
    };
    let none = || (json!({"r": "none"}), None);
    let (c1, c2) = (t1.build(), t2.build());
    let (r12, x) = n1.as_ref().map_or_else(none, |n| ap(&c2, n));
    let (r21, y) = n2.as_ref().map_or_else(none, |n| ap(&c1, n));
    if want && (x.is_none() || y.is_none()) {
        return None;
    }
    let eq = x.is_some() && x == y;
    Some(json!({"op": "commute", "s1": pstep(&b1), "s2": pstep(&b2), "t1": pstep(&c1), "t2": pstep(&c2),
        "rel": rel,
        "r1": r1, "r2": r2, "r12": r12, "r21": r21, "eq": eq}))
}

pub fn c21(r: &mut Rng) -> Value {
    let d = doc(r);
    let d = if d.size() > 150 && d.size() < 60_000 { N::new(Ty::Doc, At::None, blocks(r, 8, true)) } else { d };
    let real = d.build();
    let mut evs = vec![];
    for i in 0..40 {
        if evs.len() >= 8 {
            break;
        }
        // mostly steps that are all accepted
        let want = i % 10 != 0;
        let (a, b) = match r.below(5) {
            0 => (mark_step(r, &d), mark_step(r, &d)),
            1 | 2 => (around(r, &d), replace_step(r, &d)),
            3 => (around(r, &d), around(r, &d)),
            _ => (replace_step(r, &d), replace_step(r, &d)),
        };
        evs.extend(ev_commute(&real, &a, &b, want));
        evs.extend(ev_commute(&real, &b, &a, want));
    }
    session(pnode(&real), evs)
}
