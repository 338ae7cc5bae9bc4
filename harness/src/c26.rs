//! Structured reporting: the report is the tree of everything reported in contexts which are not blocked.

use crate::pbt::{Sub, *};
use rust_road_router::report::*;
use serde_json::{Map, Value};

pub static PROP: Property = Property {
    id: "C26",
    rule: "the program of nested contexts contains a collection item or nested context inside of a captured report",
    subs: &[
        Sub { name: "nesting", f: nesting, quick: 100_0000, thorough: 5_000_000, big: false },
        Sub { name: "nesting_big", f: nesting, quick: 10_0000, thorough: 500_000, big: true },
        Sub { name: "timing", f: timing, quick: 2_0000, thorough: 20_000, big: false },
    ],
};

static KEYS: [&str; 24] = [
    "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x",
];

/// What happens in an object like context.
#[derive(Debug)]
enum Op {
    Report(&'static str, Value),
    Context(&'static str, Vec<Op>),
    Collection(&'static str, Vec<Item>),
    Block(Vec<Op>),
    Capture(Vec<Op>, bool),
}

/// What happens directly in a collection.
#[derive(Debug)]
enum Item {
    Item(Vec<Op>),
    Block(Vec<Op>),
    Capture(Vec<Op>, bool),
}

fn value(c: &mut Case) -> Value {
    match c.draw(4) {
        0 => Value::from(c.range(0, 1 << 40)),
        1 => Value::from(-(c.range(0, 1000) as i64)),
        2 => Value::from(c.range(0, 1000) as f64 / 8.0),
        3 => Value::from(c.coin()),
        _ => Value::from(vec![c.range(0, 9), 1]),
    }
}

fn object(c: &mut Case, depth: usize, budget: &mut usize) -> Vec<Op> {
    let mut ops = Vec::new();
    object_with(c, depth, budget, &mut Vec::new(), &mut ops);
    ops
}

/// Keys may only be used once per object. While blocked everything is allowed.
fn object_with(c: &mut Case, depth: usize, budget: &mut usize, used: &mut Vec<&'static str>, ops: &mut Vec<Op>) {
    for _ in 0..c.size(0, 5) {
        if *budget == 0 {
            return;
        }
        *budget -= 1;
        let key = *c.pick(&KEYS);
        let kind = c.weighted(&[4, 3, 3, 2, 2]);
        let fresh = !used.contains(&key);
        if kind == 0 || depth == 0 {
            if fresh {
                used.push(key);
                ops.push(Op::Report(key, value(c)));
            }
            continue;
        }
        match kind {
            1 if fresh => {
                used.push(key);
                ops.push(Op::Context(key, object(c, depth - 1, budget)));
            }
            2 if fresh => {
                used.push(key);
                let mut items = Vec::new();
                for _ in 0..c.size(0, 4) {
                    let item = object(c, depth - 1, budget);
                    items.push(match c.weighted(&[5, 1, 1]) {
                        0 => Item::Item(item),
                        1 => Item::Block(item),
                        _ => Item::Capture(item, c.coin()),
                    });
                }
                ops.push(Op::Collection(key, items));
            }
            3 => ops.push(Op::Block(object(c, depth - 1, budget))),
            _ => ops.push(Op::Capture(object(c, depth - 1, budget), c.coin())),
        }
    }
}

fn captured(ops: &[Op], read: bool) -> Result<(), String> {
    let guard = capture_reporting();
    run(ops)?;
    if read {
        let got = serde_json::to_value(&guard.reported().ok_or("nothing captured")?).unwrap();
        ensure_eq!(got, model(ops), "captured report");
    }
    Ok(())
}

fn run(ops: &[Op]) -> Result<(), String> {
    for op in ops {
        match op {
            Op::Report(k, v) => report_silent(k, v.clone()),
            Op::Context(k, ops) => {
                let _c = push_context(k);
                run(ops)?;
            }
            Op::Collection(k, items) => {
                let mut col = push_collection_context(k);
                for item in items {
                    match item {
                        Item::Item(ops) => {
                            let _i = col.push_collection_item();
                            run(ops)?;
                        }
                        Item::Block(ops) => without_reporting(|| run(ops))?,
                        Item::Capture(ops, read) => captured(ops, *read)?,
                    }
                }
            }
            Op::Block(ops) => {
                let _b = block_reporting();
                run(ops)?;
            }
            Op::Capture(ops, read) => captured(ops, *read)?,
        }
    }
    Ok(())
}

fn model(ops: &[Op]) -> Value {
    let mut obj = Map::new();
    for op in ops {
        match op {
            Op::Report(k, v) => drop(obj.insert(k.to_string(), v.clone())),
            Op::Context(k, ops) => drop(obj.insert(k.to_string(), model(ops))),
            Op::Collection(k, items) => {
                let items = items.iter().filter_map(|i| if let Item::Item(ops) = i { Some(model(ops)) } else { None }).collect();
                obj.insert(k.to_string(), Value::Array(items));
            }
            Op::Block(_) | Op::Capture(..) => (),
        }
    }
    Value::Object(obj)
}

fn nested(ops: &[Op]) -> bool {
    ops.iter().any(|op| match op {
        Op::Context(_, o) => !o.is_empty(),
        Op::Collection(_, i) => !i.is_empty(),
        _ => false,
    })
}

fn nesting(c: &mut Case) -> Result<(), String> {
    prepare();
    let mut budget = if c.big { 300 } else { 30 };
    for _ in 0..c.size(1, 3) {
        let depth = c.size(0, if c.big { 8 } else { 4 });
        let ops = object(c, depth, &mut budget);
        c.note(|| format!("capture {:?}", ops));
        if nested(&ops) {
            c.nontrivial();
        }
        captured(&ops, true)?;
    }
    finish();
    Ok(())
}

/// The measuring helpers report exactly one value under the documented key and pass on the result.
fn timing(c: &mut Case) -> Result<(), String> {
    prepare();
    let x = c.range(0, 1000);
    let kind = c.draw(2);
    let blocked = c.coin();
    c.note(|| format!("timing kind {} blocked {}", kind, blocked));
    c.nontrivial();
    let guard = capture_reporting();
    let block = if blocked { Some(block_reporting()) } else { None };
    let f = || {
        report_silent("inner", Value::from(x));
        x
    };
    let (res, key) = match kind {
        0 => (silent_report_time(f), Some("running_time_ms")),
        1 => (silent_report_time_with_key("time", f), Some("time")),
        _ => (measure(f).0, None),
    };
    ensure_eq!(res, x, "result of the measured function");
    drop(block);
    let got = serde_json::to_value(&guard.reported().unwrap()).unwrap();
    let got = got.as_object().unwrap();
    if blocked {
        ensure!(got.is_empty(), "reported {:?} while blocked", got);
    } else {
        ensure_eq!(got.get("inner").and_then(Value::as_u64), Some(x), "value");
        ensure_eq!(got.len(), 1 + key.is_some() as usize, "number of reported values in {:?}", got);
        if let Some(key) = key {
            ensure!(got[key].as_f64().unwrap() >= 0.0, "time {:?}", got);
        }
    }
    finish();
    Ok(())
}

thread_local! {
    static CLEAN: std::cell::Cell<bool> = std::cell::Cell::new(false);
}

/// Every thread needs its own reporter. After a failure there has to be a new one.
fn prepare() {
    if !CLEAN.with(|c| c.replace(false)) {
        // not dropped: that would print everything
        std::mem::forget(enable_reporting("rrr-pbt"));
        std::mem::forget(block_reporting());
    }
}

fn finish() {
    CLEAN.with(|c| c.set(true));
}
