//! Calls into the library, with panics caught, and their results as records.
use crate::tree::*;
use prosemirror::markdown::*;
use prosemirror::model::*;
use prosemirror::transform::*;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Run f; a panic is a result
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

pub fn panicked(msg: String) -> Value {
    json!({"r": "panic", "msg": msg})
}

fn t(x: MarkdownNodeType) -> &'static str {
    type_name(x)
}

pub fn replace_err(e: &ReplaceError<MD>) -> [String; 3] {
    let s = |a: &str, b: &str, c: &str| [a.to_string(), b.to_string(), c.to_string()];
    match e {
        ReplaceError::InsertTooDeep => s("InsertTooDeep", "", ""),
        ReplaceError::InconsistentOpenDepths { .. } => s("InconsistentOpenDepths", "", ""),
        ReplaceError::InvalidOpenDepths => s("InvalidOpenDepths", "", ""),
        ReplaceError::Resolve(_) => s("Resolve", "", ""),
        ReplaceError::CannotJoin(a, b) => s("CannotJoin", t(*a), t(*b)),
        ReplaceError::InvalidContent(a) => s("InvalidContent", t(*a), ""),
    }
}

pub fn step_err(e: &StepError<MD>) -> [String; 3] {
    let s = |a: &str| [a.to_string(), String::new(), String::new()];
    match e {
        StepError::WouldOverwrite => s("WouldOverwrite"),
        StepError::GapWouldOverwrite => s("GapWouldOverwrite"),
        StepError::GapNotFlat => s("GapNotFlat"),
        StepError::GapNotFit => s("GapNotFit"),
        StepError::Resolve(_) => s("Resolve"),
        StepError::Replace(e) => replace_err(e),
        StepError::Slice(SliceError::Resolve(_)) => s("Resolve"),
        StepError::Slice(_) => s("Slice"),
        StepError::Insert(InsertError::Index(_)) => s("InsertIndex"),
        StepError::Insert(InsertError::Content(_)) => s("InsertContent"),
    }
}

pub fn node_res(r: Result<Result<MarkdownNode, [String; 3]>, String>) -> (Value, Option<MarkdownNode>) {
    match r {
        Ok(Ok(n)) => (json!({"r": "ok", "doc": pnode(&n)}), Some(n)),
        Ok(Err(k)) => (json!({"r": "err", "kind": k}), None),
        Err(p) => (panicked(p), None),
    }
}

/// A step as the harness describes it
#[derive(Clone, Debug, PartialEq)]
pub enum St {
    Replace { from: usize, to: usize, slice: Sl, structure: bool },
    Around { from: usize, to: usize, gf: usize, gt: usize, slice: Sl, insert: usize, structure: bool },
    Add { from: usize, to: usize, mark: Mk },
    Remove { from: usize, to: usize, mark: Mk },
}

impl St {
    pub fn build(&self) -> Step<MD> {
        match self {
            St::Replace { from, to, slice, structure } => Step::Replace(ReplaceStep {
                span: Span { from: *from, to: *to },
                slice: slice.build(),
                structure: *structure,
            }),
            St::Around { from, to, gf, gt, slice, insert, structure } => {
                Step::ReplaceAround(ReplaceAroundStep {
                    span: Span { from: *from, to: *to },
                    gap_from: *gf,
                    gap_to: *gt,
                    slice: slice.build(),
                    insert: *insert,
                    structure: *structure,
                })
            }
            St::Add { from, to, mark } => {
                Step::AddMark(AddMarkStep { span: Span { from: *from, to: *to }, mark: mark.real() })
            }
            St::Remove { from, to, mark } => Step::RemoveMark(RemoveMarkStep {
                span: Span { from: *from, to: *to },
                mark: mark.real(),
            }),
        }
    }
}

/// The record of a (library) step
pub fn pstep(s: &Step<MD>) -> Value {
    match s {
        Step::Replace(s) => json!({"st": "replace", "from": s.span.from, "to": s.span.to,
            "slice": pslice(&s.slice), "structure": s.structure}),
        Step::ReplaceAround(s) => json!({"st": "replaceAround", "from": s.span.from, "to": s.span.to,
            "gapFrom": s.gap_from, "gapTo": s.gap_to, "insert": s.insert,
            "slice": pslice(&s.slice), "structure": s.structure}),
        Step::AddMark(s) => json!({"st": "addMark", "from": s.span.from, "to": s.span.to,
            "mark": pmark(&s.mark)}),
        Step::RemoveMark(s) => json!({"st": "removeMark", "from": s.span.from, "to": s.span.to,
            "mark": pmark(&s.mark)}),
    }
}

pub fn apply(step: &Step<MD>, doc: &MarkdownNode) -> (Value, Option<MarkdownNode>) {
    node_res(guard(|| step.apply(doc).map_err(|e| step_err(&e))))
}
