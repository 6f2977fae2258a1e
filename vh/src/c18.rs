//! C18: errors keep their payload and their context in order.
use crate::src::*;
use crate::{ck, eq};
use rustica::datatypes::either::Either;
use rustica::datatypes::validated::Validated;
use rustica::error::*;
use rustica::utils::error_utils as eu;
use std::cell::{Cell, RefCell};

const NAMES: [&str; 5] = ["a", "b", "ctx three", "", "a -> b"];
fn name<S: Src>(s: &mut S) -> &'static str {
    NAMES[s.below(5) as usize]
}
fn names<S: Src>(s: &mut S, max: u32) -> Vec<&'static str> {
    let n = s.len(max + 1);
    (0..n).map(|_| name(s)).collect()
}
fn rev(v: &[&str]) -> Vec<String> {
    v.iter().rev().map(|x| x.to_string()).collect()
}
fn add<S: Src>(s: &mut S, e: ComposableError<u8>, c: &'static str, calls: &Cell<u32>) -> ComposableError<u8> {
    match s.below(4) {
        0 => e.with_context(c),
        1 => e.with_context(c.to_string()),
        2 => e.with_context(ErrorContext::new(c)),
        _ => e.with_context(LazyContext::new(move || {
            calls.set(calls.get() + 1);
            c.to_string()
        })),
    }
}
fn chain_text(ctx: &[&str], core: &str, code: Option<u32>) -> String {
    let mut parts: Vec<String> = rev(ctx);
    parts.push(core.to_string());
    let mut t = parts.join(" -> ");
    if let Some(c) = code {
        t.push_str(&format!(" (code: {})", c));
    }
    t
}
/// Arbitrary construction histories of a ComposableError against the list of its contexts.
fn contexts<S: Src>(s: &mut S) {
    let x = s.u8();
    let mut code = if s.bool() { Some(s.below(1000)) } else { None };
    let mut e = match code {
        Some(c) => ComposableError::with_code(x, c),
        None => match s.below(3) {
            0 => ComposableError::new(x),
            1 => ComposableError::from(x),
            _ => core_to_composable(x),
        },
    };
    let mut core = x;
    let mut model: Vec<&'static str> = Vec::new();
    let calls = Cell::new(0);
    let steps = s.len(9);
    for _ in 0..steps {
        match s.below(7) {
            0 | 1 | 2 => {
                let c = name(s);
                e = add(s, e, c, &calls);
                model.push(c);
            },
            3 => {
                let cs = names(s, 3);
                e = e.with_contexts(many(s, cs.iter().map(|c| c.to_string()).collect()));
                model.extend(cs);
            },
            4 => {
                let c = s.below(1000);
                e = e.set_code(c);
                code = Some(c);
            },
            5 => {
                let t = s.tab();
                e = e.map_core(|v| t.at(v));
                core = t.at(core);
            },
            _ => e = e.clone(),
        }
    }
    eq!(*e.core_error(), core, "core error");
    eq!(e.core_error, core, "core error field");
    eq!(e.error_code(), code, "error code");
    eq!(e.context(), rev(&model), "contexts, most recent first");
    eq!(extract_context(&e), rev(&model), "extract_context");
    eq!(e.context_iter().cloned().collect::<Vec<_>>(), rev(&model), "context_iter");
    let text = chain_text(&model, &core.to_string(), code);
    eq!(e.error_chain(), text, "error_chain");
    eq!(format_error_chain(&e), text, "format_error_chain");
    eq!(format!("{}", e), text, "Display");
    let m = e.clone().map_core(|v| format!("<{}>", v));
    eq!(*m.core_error(), format!("<{}>", core), "map_core maps the payload");
    eq!(m.context(), rev(&model), "map_core keeps the contexts");
    eq!(m.error_code(), code, "map_core keeps the code");
    eq!(m, m.clone(), "an error equals its clone");
    eq!(composable_to_core(e), core, "composable_to_core");
}
fn lazy<S: Src>(s: &mut S) {
    let (r, c) = (s.res(), name(s));
    let calls = Cell::new(0);
    let got = with_context_result(r, LazyContext::new(|| {
        calls.set(calls.get() + 1);
        c.to_string()
    }));
    eq!(calls.get(), r.is_err() as u32, "a lazy context is generated once, for a failure only");
    match (r, got) {
        (Ok(v), Ok(w)) => eq!(w, v, "success untouched"),
        (Err(e), Err(b)) => {
            eq!(*b.core_error(), e, "payload");
            eq!(b.context(), vec![c.to_string()], "context");
        },
        _ => ck!(false, "with_context_result keeps the side"),
    }
    let k = s.u8();
    let e = ComposableError::new(k).with_context(rustica::context!("v{}", k));
    eq!(e.context(), vec![format!("v{}", k)], "context! macro");
    let f = context_fn::<u8, &str>(c);
    for v in [k, k.wrapping_add(1)] {
        let e = f(v);
        eq!(*e.core_error(), v, "context_fn payload");
        eq!(e.context(), vec![c.to_string()], "context_fn context");
    }
    let e = with_context(k, c);
    eq!(*e.core_error(), k, "with_context payload");
    eq!(e.context(), vec![c.to_string()], "with_context context");
    eq!(ErrorContext::new(c).message().to_string(), c.to_string(), "ErrorContext message");
    eq!(format!("{}", ErrorContext::new(c)), c, "ErrorContext display");
}
fn accumulate<S: Src>(s: &mut S) {
    let (k, cs) = (s.u8(), names(s, 7));
    let e = accumulate_context(k, many(s, cs.clone()));
    eq!(*e.core_error(), k, "accumulate_context payload");
    eq!(e.context(), rev(&cs), "accumulate_context contexts");
    let f = context_accumulator::<u8, _, _>(many(s, cs.clone()));
    for v in [k, k.wrapping_add(1)] {
        let e = f(v);
        eq!(*e.core_error(), v, "context_accumulator payload");
        eq!(e.context(), rev(&cs), "context_accumulator contexts");
    }
}
/// Arbitrary pipelines against a step-by-step model.
fn pipeline<S: Src>(s: &mut S) {
    let r0 = s.res();
    let mut r = r0;
    let mut pend: Vec<&'static str> = Vec::new();
    // once a failure with contexts has been recovered, what a later failure carries is not specified
    let mut vague = false;
    let mut p = if s.bool() { error_pipeline(r0) } else { ErrorPipeline::new(r0) };
    let steps = s.len(8);
    for _ in 0..steps {
        let n = Cell::new(0u32);
        match s.below(6) {
            0 | 1 => {
                let c = name(s);
                p = if s.bool() { p.with_context(c) } else { p.with_context(LazyContext::new(|| c.to_string())) };
                if r.is_err() {
                    pend.push(c);
                }
            },
            2 => {
                let t = s.tab();
                p = p.map_error(|e| { n.set(n.get() + 1); t.at(e) });
                eq!(n.get(), r.is_err() as u32, "map_error calls its function for a failure only");
                r = r.map_err(|e| t.at(e));
            },
            3 => {
                let k = s.ktab();
                p = p.recover(|e| { n.set(n.get() + 1); k.at(e) });
                eq!(n.get(), r.is_err() as u32, "recover calls its handler for a failure only");
                if let Err(e) = r {
                    r = k.at(e);
                    if r.is_ok() && !pend.is_empty() {
                        vague = true;
                    }
                }
            },
            4 => {
                let k = s.ktab();
                p = p.and_then(|v| { n.set(n.get() + 1); k.at(v) });
                eq!(n.get(), r.is_ok() as u32, "and_then calls its function for a success only");
                r = r.and_then(|v| k.at(v));
            },
            _ => {
                let t = s.tab();
                p = p.map(|v| { n.set(n.get() + 1); t.at(v) });
                eq!(n.get(), r.is_ok() as u32, "map calls its function for a success only");
                r = r.map(|v| t.at(v));
            },
        }
    }
    let (got, ctx) = if s.bool() {
        match p.finish() {
            Ok(v) => (Ok(v), vec![]),
            Err(b) => (Err(*b.core_error()), b.context()),
        }
    } else {
        match p.finish_without_box() {
            Ok(v) => (Ok(v), vec![]),
            Err(b) => (Err(*b.core_error()), b.context()),
        }
    };
    eq!(got, r, "pipeline result");
    if r.is_err() && !vague {
        eq!(ctx, rev(&pend), "pipeline contexts, most recent first");
    }
}
/// The loop-free part of the pipelines, provable: value and payload flow, handler calls.
fn pipeline_step<S: Src>(s: &mut S) {
    let (r, t, k) = (s.res(), s.tab(), s.ktab());
    let n = Cell::new(0u8);
    let out = |p: ErrorPipeline<u8, u8>| p.finish_without_box().map_err(composable_to_core);
    eq!(out(error_pipeline(r)), r, "finish keeps value and payload");
    eq!(out(error_pipeline(r).map_error(|e| { n.set(n.get() + 1); t.at(e) })), r.map_err(|e| t.at(e)), "map_error");
    eq!(n.get(), r.is_err() as u8, "map_error calls its function once for a failure");
    n.set(0);
    eq!(out(error_pipeline(r).map(|v| { n.set(n.get() + 1); t.at(v) })), r.map(|e| t.at(e)), "map");
    eq!(n.get(), r.is_ok() as u8, "map calls its function once for a success");
    n.set(0);
    eq!(out(error_pipeline(r).and_then(|v| { n.set(n.get() + 1); k.at(v) })), r.and_then(|v| k.at(v)), "and_then");
    eq!(n.get(), r.is_ok() as u8, "and_then calls its function once for a success");
    n.set(0);
    eq!(out(error_pipeline(r).recover(|v| { n.set(n.get() + 1); k.at(v) })), r.or_else(|v| k.at(v)), "recover");
    eq!(n.get(), r.is_err() as u8, "recover calls its handler once for a failure");
}
fn either(r: Result<u8, u8>) -> Either<u8, u8> {
    match r {
        Ok(v) => Either::Right(v),
        Err(e) => Either::Left(e),
    }
}
fn helpers<S: Src>(s: &mut S) {
    let (r, h, f, g) = (s.res(), s.ktab(), s.tab(), s.tab());
    let want = r.or_else(|e| h.at(e));
    let n = Cell::new(0u8);
    eq!(ErrorOps::recover(r, |e| { n.set(n.get() + 1); h.at(e) }), want, "recover");
    eq!(n.get(), r.is_err() as u8, "recover calls its handler once for a failure");
    n.set(0);
    eq!(ErrorOps::recover(either(r), |e| { n.set(n.get() + 1); either(h.at(e)) }), either(want), "Either recover");
    eq!(n.get(), r.is_err() as u8, "recover calls its handler once for a failure");
    let both = r.map(|v| f.at(v)).map_err(|e| g.at(e));
    eq!(ErrorOps::bimap_result(r, |v| f.at(v), |e| g.at(e)), both, "bimap_result");
    eq!(ErrorOps::bimap_result(either(r), |v| f.at(v), |e| g.at(e)), both, "Either bimap_result");
    eq!(r.fmap_error(|e| g.at(e)), r.map_err(|e| g.at(e)), "fmap_error");
    eq!(either(r).fmap_error(|e| g.at(e)), either(r.map_err(|e| g.at(e))), "Either fmap_error");
    eq!(flatten_composable_result(wrap_in_composable_result(r)), r, "wrap and flatten keep value and payload");
}
#[allow(deprecated)]
fn app_error<S: Src>(s: &mut S) {
    let (m, c, t, has) = (s.u8(), s.u8(), s.tab(), s.bool());
    let e = if has { eu::error_with_context(m, c) } else { AppError::new(m) };
    let e2 = if has { AppError::with_context(m, c) } else { AppError::new(m) };
    let oc = if has { Some(c) } else { None };
    ck!(e == e2, "error_with_context");
    eq!(*e.message(), m, "message");
    eq!(e.context().copied(), oc, "context");
    let f = e.clone().map(|v| t.at(v));
    eq!(*f.message(), t.at(m), "map maps the message");
    eq!(f.context().copied(), oc, "map keeps the context");
    let g = e.clone().map_context(|v: Option<u8>| v.map(|v| t.at(v)));
    eq!(*g.message(), m, "map_context keeps the message");
    eq!(g.context().copied(), oc.map(|v| t.at(v)), "map_context maps the context");
    let (m2, has2) = (s.u8(), s.bool());
    let e3 = if has2 { AppError::with_context(m2, c) } else { AppError::new(m2) };
    eq!(e == e3, m == m2 && has == has2, "equality compares message and context");
    let e4 = eu::error(m);
    eq!(*e4.message(), m, "error");
}
#[allow(deprecated)]
fn app_error_display<S: Src>(s: &mut S) {
    let (m, c) = (s.u8(), s.u8());
    eq!(format!("{}", AppError::<u8, u8>::new(m)), format!("{:?}", m), "display");
    eq!(format!("{}", AppError::with_context(m, c)), format!("{:?} (Context: {:?})", m, c), "display with context");
}
crate::harnesses! { "C18";
    prove { pipeline_step 5, helpers 5, app_error 2 }
    test { contexts 3.0, lazy 1.0, accumulate 1.0, pipeline 3.0, app_error_display 0.5 } }
