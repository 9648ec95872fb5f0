//! C13: the JSON form.
use crate::gen::*;
use crate::ops::*;
use crate::props::{call, d_stub, session};
use crate::tree::*;
use prosemirror::markdown::*;
use prosemirror::model::*;
use prosemirror::transform::*;
use serde_json::{json, Value};

/// JSON as uniform records: j is the kind, s the scalar, u its UTF-16 units, k the keys of an
/// object in order and v the values
pub fn tagged(v: &Value) -> Value {
    let rec = |j: &str, s: &str, u: Value, k: Vec<&String>, v: Vec<Value>| json!({"j": j, "s": s, "u": u, "k": k, "v": v});
    match v {
        Value::Null => rec("null", "", json!([]), vec![], vec![]),
        Value::Bool(b) => rec("b", &b.to_string(), json!([]), vec![], vec![]),
        Value::Number(n) => rec("n", &n.to_string(), json!([]), vec![], vec![]),
        Value::String(s) => rec("s", s, units(s), vec![], vec![]),
        Value::Array(a) => rec("a", "", json!([]), vec![], a.iter().map(tagged).collect()),
        Value::Object(o) => {
            let mut keys: Vec<&String> = o.keys().collect();
            keys.sort();
            let vals = keys.iter().map(|k| tagged(&o[*k])).collect();
            rec("o", "", json!([]), keys, vals)
        }
    }
}

fn nums(v: &Value) -> Value {
    match v {
        Value::Number(n) => Value::String(n.to_string()),
        Value::Array(a) => Value::Array(a.iter().map(nums).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), nums(v))).collect()),
        v => v.clone(),
    }
}

/// JSON text with the fields of objects in any order
fn print(r: &mut Rng, v: &Value, out: &mut String) {
    match v {
        Value::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                print(r, x, out);
            }
            out.push(']');
        }
        Value::Object(o) => {
            let mut ks: Vec<&String> = o.keys().collect();
            for i in (1..ks.len()).rev() {
                let j = r.below(i + 1);
                ks.swap(i, j);
            }
            out.push('{');
            for (i, k) in ks.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                out.push_str(&Value::String(k.to_string()).to_string());
                out.push(':');
                print(r, &o[*k], out);
            }
            out.push('}');
        }
        v => out.push_str(&v.to_string()),
    }
}

// --- ProseMirror's JSON, written by the harness with the freedom ProseMirror has

struct Enc {
    /// leave out what ProseMirror leaves out
    lean: bool,
}

impl Enc {
    fn opt(&self, r: &mut Rng) -> bool {
        self.lean && r.chance(1, 2)
    }
    fn strs(&self, r: &mut Rng, o: &mut Value, k: &str, v: &str) {
        if v.is_empty() && self.lean {
            match r.below(3) {
                0 => {}
                1 => o[k] = Value::Null,
                _ => o[k] = json!(""),
            }
        } else {
            o[k] = json!(v);
        }
    }
    fn mark(&self, r: &mut Rng, m: &Mk) -> Value {
        match m {
            Mk::Strong => json!({"type": "strong"}),
            Mk::Em => json!({"type": "em"}),
            Mk::Code => json!({"type": "code"}),
            Mk::Link(h, t) => {
                let mut a = json!({"href": h});
                self.strs(r, &mut a, "title", t);
                json!({"type": "link", "attrs": a})
            }
        }
    }
    fn node(&self, r: &mut Rng, n: &N) -> Value {
        let mut o = json!({"type": n.t.name()});
        match &n.a {
            At::None => {}
            At::Level(l) => o["attrs"] = json!({"level": l}),
            At::Params(p) => o["attrs"] = json!({"params": p}),
            At::Tight(t) => o["attrs"] = json!({"tight": t}),
            At::Order(n, t) => o["attrs"] = json!({"order": n, "tight": t}),
            At::Img { src, alt, title } => {
                let mut a = json!({"src": src});
                self.strs(r, &mut a, "alt", alt);
                self.strs(r, &mut a, "title", title);
                o["attrs"] = a;
            }
        }
        if n.t == Ty::Text {
            o["text"] = json!(n.s);
            let mut m: Vec<Value> = n.m.iter().map(|m| self.mark(r, m)).collect();
            if self.lean {
                for i in (1..m.len()).rev() {
                    let j = r.below(i + 1);
                    m.swap(i, j);
                }
            }
            if !m.is_empty() || !self.opt(r) {
                o["marks"] = Value::Array(m);
            }
        } else if !n.t.is_leaf() && (!n.c.is_empty() || !self.opt(r)) {
            o["content"] = self.nodes(r, &n.c);
        }
        o
    }
    fn nodes(&self, r: &mut Rng, c: &[N]) -> Value {
        Value::Array(c.iter().map(|n| self.node(r, n)).collect())
    }
    fn slice(&self, r: &mut Rng, s: &Sl) -> Value {
        let mut o = json!({"content": self.nodes(r, &s.c)});
        if s.os > 0 || !self.opt(r) {
            o["openStart"] = json!(s.os);
        }
        if s.oe > 0 || !self.opt(r) {
            o["openEnd"] = json!(s.oe);
        }
        o
    }
    fn step(&self, r: &mut Rng, s: &St) -> Value {
        match s {
            St::Replace { from, to, slice, structure } => {
                let mut o = json!({"stepType": "replace", "from": from, "to": to});
                if *slice != Sl::empty() || !self.opt(r) {
                    o["slice"] = self.slice(r, slice);
                }
                if *structure || !self.opt(r) {
                    o["structure"] = json!(structure);
                }
                o
            }
            St::Around { from, to, gf, gt, slice, insert, structure } => {
                let mut o = json!({"stepType": "replaceAround", "from": from, "to": to,
                    "gapFrom": gf, "gapTo": gt, "insert": insert});
                if *slice != Sl::empty() || !self.opt(r) {
                    o["slice"] = self.slice(r, slice);
                }
                if *structure || !self.opt(r) {
                    o["structure"] = json!(structure);
                }
                o
            }
            St::Add { from, to, mark } => {
                json!({"stepType": "addMark", "mark": self.mark(r, mark), "from": from, "to": to})
            }
            St::Remove { from, to, mark } => {
                json!({"stepType": "removeMark", "mark": self.mark(r, mark), "from": from, "to": to})
            }
        }
    }
}

/// Remove a required field or make a type unknown, somewhere in the value
fn spoil(r: &mut Rng, v: &mut Value) -> bool {
    // all objects, by path
    fn collect(v: &Value, path: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
        match v {
            Value::Object(o) => {
                out.push(path.clone());
                for (k, x) in o {
                    path.push(k.clone());
                    collect(x, path, out);
                    path.pop();
                }
            }
            Value::Array(a) => {
                for (i, x) in a.iter().enumerate() {
                    path.push(i.to_string());
                    collect(x, path, out);
                    path.pop();
                }
            }
            _ => {}
        }
    }
    let mut all = vec![];
    collect(v, &mut vec![], &mut all);
    for _ in 0..10 {
        let p = r.pick(&all).clone();
        let mut x = &mut *v;
        for k in &p {
            x = match x {
                Value::Array(a) => &mut a[k.parse::<usize>().unwrap()],
                x => x.get_mut(k).unwrap(),
            };
        }
        let o = x.as_object_mut().unwrap();
        let req: Vec<String> = ["type", "stepType", "attrs", "level", "params", "order", "tight", "src", "href", "text",
            "from", "to", "gapFrom", "gapTo", "insert", "mark"]
        .iter()
        .filter(|k| o.contains_key(**k))
        .map(|k| k.to_string())
        .collect();
        if req.is_empty() {
            continue;
        }
        let k = r.pick(&req).clone();
        if (k == "type" || k == "stepType") && r.chance(2, 3) {
            let names = ["foo", "Paragraph", "", "bulletList", "strong", "paragraph", "add_mark", "replaceStep", "hardBreak", "image "];
            o.insert(k, json!(r.pick(&names)));
        } else {
            o.remove(&k);
        }
        return true;
    }
    false
}

fn decode<T: serde::de::DeserializeOwned>(s: &str, dump: impl Fn(&T) -> Value) -> Value {
    match call(|| json!({"call": "decode", "json": s}), || serde_json::from_str::<T>(s)) {
        Ok(Ok(x)) => json!({"r": "ok", "v": nums(&dump(&x))}),
        Ok(Err(_)) => json!({"r": "err"}),
        Err(p) => panicked(p),
    }
}

fn encode<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq>(
    kind: &str,
    x: &T,
    dump: impl Fn(&T) -> Value,
) -> Value {
    let res = call(|| json!({"call": "encode", "value": dump(x)}), || {
        let text = serde_json::to_string(x).ok()?;
        let v: Value = serde_json::from_str(&text).ok()?;
        let back = serde_json::from_str::<T>(&text);
        let via = serde_json::to_value(x).ok().and_then(|v| serde_json::from_value::<T>(v).ok());
        Some(json!({"r": "ok", "json": tagged(&v),
            "back": match &back {
                Ok(y) => json!({"r": "ok", "v": nums(&dump(y)), "eq": y == x, "via": via.map_or(false, |z| &z == x)}),
                Err(e) => json!({"r": "err", "msg": e.to_string()}),
            }}))
    });
    let res = match res {
        Ok(Some(v)) => v,
        Ok(None) => json!({"r": "err"}),
        Err(p) => panicked(p),
    };
    json!({"op": "encode", "kind": kind, "val": nums(&dump(x)), "res": res})
}

fn big(r: &mut Rng) -> usize {
    match r.below(4) {
        0 => usize::MAX,
        1 => (1 << 53) + 1,
        2 => 1 << 31,
        _ => r.below(300),
    }
}

pub fn ev_node(x: &MarkdownNode) -> Value {
    encode("node", x, pnode)
}
pub fn ev_slice(x: &Slice<MD>) -> Value {
    encode("slice", x, pslice)
}
pub fn ev_step(x: &Step<MD>) -> Value {
    encode("step", x, pstep)
}

pub fn c13(r: &mut Rng) -> Value {
    let mut evs = vec![];
    let d = match r.below(6) {
        0 => any_node(r, 15, true),
        _ => doc(r),
    };
    let mut d = d;
    if r.chance(1, 10) {
        denormalize(r, &mut d);
    }
    let mut s = candidate(r, &d).2;
    if r.chance(1, 10) {
        s.os = big(r);
    }
    if r.chance(1, 10) {
        s.oe = big(r);
    }
    let mut st = step(r, &d);
    if r.chance(1, 6) {
        st = wild_step_nums(r, st);
    }
    let m = mark(r);
    evs.push(ev_node(&d.build()));
    evs.push(ev_slice(&s.build()));
    evs.push(ev_step(&st.build()));
    evs.push(encode("mark", &m.real(), pmark));

    for lean in [false, true, true] {
        let e = Enc { lean };
        let kinds = [0, 1, 2, 3];
        for k in kinds {
            let mut v = match k {
                0 => {
                    let d = if r.chance(1, 3) { any_node(r, 12, true) } else { let b = r.range(2, 20); node(r, Ty::Doc, b) };
                    e.node(r, &d)
                }
                1 => e.slice(r, &s),
                2 => {
                    let mut st = step(r, &d);
                    if r.chance(1, 6) {
                        st = wild_step_nums(r, st);
                    }
                    e.step(r, &st)
                }
                _ => e.mark(r, &m),
            };
            if r.chance(1, 3) {
                spoil(r, &mut v);
            }
            let mut text = String::new();
            print(r, &v, &mut text);
            let (kind, res) = match k {
                0 => ("node", decode::<MarkdownNode>(&text, pnode)),
                1 => ("slice", decode::<Slice<MD>>(&text, pslice)),
                2 => ("step", decode::<Step<MD>>(&text, pstep)),
                _ => ("mark", decode::<MarkdownMark>(&text, pmark)),
            };
            evs.push(json!({"op": "decode", "kind": kind, "json": tagged(&v), "res": res}));
        }
    }
    session(d_stub(), evs)
}

fn wild_step_nums(r: &mut Rng, s: St) -> St {
    match s {
        St::Replace { slice, structure, .. } => St::Replace { from: big(r), to: big(r), slice, structure },
        St::Around { slice, structure, .. } => St::Around {
            from: big(r),
            to: big(r),
            gf: big(r),
            gt: big(r),
            slice,
            insert: big(r),
            structure,
        },
        St::Add { mark, .. } => St::Add { from: big(r), to: big(r), mark },
        St::Remove { mark, .. } => St::Remove { from: big(r), to: big(r), mark },
    }
}
