//! Steps behaviours that the specification made up (spec/Collab.tla) in the library.
use crate::jsonv;
use crate::ops::*;
use crate::props::*;
use crate::small::*;
use crate::tree::*;
use serde_json::{json, Value};
use std::io::{BufRead, Write};

fn step_of(v: &Value) -> St {
    let n = |k: &str| v[k].as_u64().unwrap() as usize;
    let (from, to) = (n("from"), n("to"));
    match v["st"].as_str().unwrap() {
        "replace" => St::Replace {
            from,
            to,
            slice: slice_of_json(&v["slice"]),
            structure: v["structure"].as_bool().unwrap(),
        },
        "replaceAround" => St::Around {
            from,
            to,
            gf: n("gapFrom"),
            gt: n("gapTo"),
            slice: slice_of_json(&v["slice"]),
            insert: n("insert"),
            structure: v["structure"].as_bool().unwrap(),
        },
        "addMark" => St::Add { from, to, mark: mark_of(&v["mark"]) },
        _ => St::Remove { from, to, mark: mark_of(&v["mark"]) },
    }
}

/// What property p wants to know about a step in the history of a document
fn observe(p: &str, d: &N, s: &St) -> Vec<(Value, Option<prosemirror::markdown::MarkdownNode>)> {
    let real = d.build();
    let around = matches!(s, St::Around { .. });
    let mark = matches!(s, St::Add { .. } | St::Remove { .. });
    match (p, s) {
        ("C05", _) => vec![ev_step("valid", &real, &s.build())],
        ("C06", _) => vec![ev_step("normal", &real, &s.build())],
        ("C07", _) if mark => vec![ev_step("mark", &real, &s.build())],
        ("C09", _) if !mark => vec![ev_structure(&real, s)],
        ("C10", _) if around => vec![ev_step("around", &real, &s.build())],
        ("C04", St::Replace { from, to, slice, .. }) => {
            vec![ev_replace(&real, range(*from, *to), &slice.build())]
        }
        ("C19", St::Replace { from, to, slice, .. }) => vec![ev_undo(&real, *from, *to, slice)],
        ("C19", _) => vec![crate::more::ev_undo_step(&real, s)],
        ("C13", _) => vec![(jsonv::ev_step(&s.build()), None), (jsonv::ev_node(&real), None)],
        _ => vec![],
    }
}

pub fn run(p: &str, behaviours: &str, out: &mut impl Write) {
    let f = std::io::BufReader::new(std::fs::File::open(behaviours).expect("behaviours"));
    let mut put = {
        let mut id = 0;
        move |mut s: Value| {
            s["id"] = json!(id);
            id += 1;
            if !s["evs"].as_array().unwrap().is_empty() {
                writeln!(out, "{}", s).unwrap();
            }
        }
    };
    for line in f.lines() {
        let b: Value = serde_json::from_str(&line.unwrap()).expect("behaviour");
        let first = node_of(&b["doc"]);
        let acts = b["acts"].as_array().unwrap();
        if p == "C12" {
            let mut c = Collab::new(&first, 2);
            for (i, a) in acts.iter().enumerate() {
                let on = match a["a"].as_str().unwrap() {
                    "submit" => {
                        c.submit(step_of(&a["step"]).build());
                        true
                    }
                    "join" => c.join(i % 2 == 0),
                    _ => c.deliver(a["r"].as_u64().unwrap() as usize - 1),
                };
                if !on {
                    break;
                }
            }
            put(c.session(2));
        } else {
            let mut cur = first.clone();
            let mut evs = vec![];
            for a in acts.iter().filter(|a| a["a"] == "submit") {
                let s = step_of(&a["step"]);
                for (ev, _) in observe(p, &cur, &s) {
                    evs.push(ev);
                }
                // go on with the document the step leads to: a session of its own if this
                // property's call does not do that
                if let (_, Some(n)) = ap(&s.build(), &cur.build()) {
                    put(session(pnode(&cur.build()), std::mem::take(&mut evs)));
                    cur = unbuild(&n);
                }
            }
            put(session(pnode(&cur.build()), evs));
        }
    }
}
