//! Priority queues against sorted list models.

use crate::pbt::{Sub, *};
use rust_road_router::datastr::heap::Heap;
use rust_road_router::datastr::index_heap::{IndexdMinHeap, Indexing};
use std::collections::BTreeMap;

pub static PROP: Property = Property {
    id: "C18",
    rule: "the history pops at least two elements or updates a key while the queue holds at least five elements",
    subs: &[
        Sub { name: "addressable", f: addressable, quick: 2_000_000, thorough: 30_000_000, big: false },
        Sub { name: "addressable_big", f: addressable, quick: 60_000, thorough: 250_000, big: true },
        Sub { name: "split_heap", f: split_heap, quick: 2_000_000, thorough: 30_000_000, big: false },
        Sub { name: "split_heap_big", f: split_heap, quick: 8_000, thorough: 250_000, big: true },
    ],
};

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
struct Elem {
    key: u32,
    // elements with the same key are distinguishable but equal for some of the histories
    tag: u32,
    id: usize,
}

/// Ordered by the key only: different elements compare as equal.
#[derive(Debug, Clone)]
struct Tied(Elem);
impl PartialEq for Tied {
    fn eq(&self, o: &Self) -> bool {
        self.0.key == o.0.key
    }
}
impl Eq for Tied {}
impl PartialOrd for Tied {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tied {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.key.cmp(&o.0.key)
    }
}
impl Indexing for Elem {
    fn as_index(&self) -> usize {
        self.id
    }
}
impl Indexing for Tied {
    fn as_index(&self) -> usize {
        self.0.id
    }
}

trait El: Ord + Indexing + Clone + std::fmt::Debug {
    fn make(e: Elem) -> Self;
    fn el(&self) -> &Elem;
}
impl El for Elem {
    fn make(e: Elem) -> Self {
        e
    }
    fn el(&self) -> &Elem {
        self
    }
}
impl El for Tied {
    fn make(e: Elem) -> Self {
        Tied(e)
    }
    fn el(&self) -> &Elem {
        &self.0
    }
}

fn addressable(c: &mut Case) -> Result<(), String> {
    if c.coin() {
        addressable_::<Elem>(c)
    } else {
        addressable_::<Tied>(c)
    }
}

fn addressable_<T: El>(c: &mut Case) -> Result<(), String> {
    let n = if c.big { c.size(1, 3000) } else { c.size(1, 40) };
    let steps = if c.big { c.size(1, 4000) } else { c.size(1, 80) };
    let max_key = *c.pick(&[3u32, 20, 1000, u32::MAX]);
    // profile of the operations: filling, mixed, draining
    let profile = c.draw(2);
    let mut heap = IndexdMinHeap::<T>::new(n);
    let mut model: BTreeMap<usize, Elem> = BTreeMap::new();
    let mut pops = 0;
    let mut fresh = 0;
    let mut ever = std::collections::BTreeSet::new();
    c.note(|| format!("{} ids", n));
    for step in 0..steps {
        let w: [u64; 10] = match profile {
            0 => [14, 6, 4, 4, 4, 4, 2, 1, 1, 3],
            1 => [6, 3, 4, 4, 4, 8, 2, 0, 0, 3],
            _ => [8, 4, 5, 5, 5, 10, 2, 0, 1, 1],
        };
        let op = c.weighted(&w);
        let id = c.size(0, n - 1);
        let key = c.u32(0, max_key);
        fresh += 1;
        let new = T::make(Elem { key, tag: fresh, id });
        match op {
            0 => {
                let e = new.clone();
                c.note(|| format!("push_unless_contained {:?}", e));
                model.entry(id).or_insert_with(|| new.el().clone());
                ever.insert(id);
                heap.push_unless_contained(new);
            }
            1 => {
                if !model.contains_key(&id) {
                    c.note(|| format!("push {:?}", new));
                    model.insert(id, new.el().clone());
                    ever.insert(id);
                    heap.push(new);
                }
            }
            2 | 3 | 4 => {
                // pick a contained id near the drawn one
                let id = match model.range(id..).next().or_else(|| model.iter().next()) {
                    Some((&i, _)) => i,
                    None => continue,
                };
                let old = T::make(model[&id].clone());
                let new = T::make(Elem { key, tag: fresh, id });
                c.note(|| format!("{} {:?} -> {:?}", ["decrease", "increase", "update"][op - 2], old, new));
                let replaces = match op {
                    2 => new < old,
                    3 => new > old,
                    _ => new != old,
                };
                if replaces {
                    c.label(if new < old { "key decreased" } else { "key increased" });
                    model.insert(id, new.el().clone());
                    if model.len() >= 5 {
                        c.nontrivial();
                    }
                } else {
                    c.label("key update without effect");
                }
                match op {
                    2 => heap.decrease_key(new),
                    3 => heap.increase_key(new),
                    _ => heap.update_key(new),
                }
            }
            5 => {
                let popped = heap.pop();
                c.note(|| format!("pop -> {:?}", popped));
                match popped {
                    None => ensure!(model.is_empty(), "step {}: pop returned nothing although {} elements are contained", step, model.len()),
                    Some(p) => {
                        let m = model.remove(&p.as_index());
                        ensure!(m.as_ref() == Some(p.el()), "step {}: pop returned {:?}, but the element with this index is {:?}", step, p, m);
                        if let Some(smaller) = model.values().find(|e| T::make((*e).clone()) < p) {
                            return Err(format!("step {}: pop returned {:?} although {:?} is smaller", step, p, smaller));
                        }
                        pops += 1;
                        if pops >= 2 {
                            c.nontrivial();
                        }
                        if model.values().any(|e| e.key == p.el().key) {
                            c.label("ties");
                        }
                    }
                }
            }
            6 => {
                let p = heap.peek().cloned();
                c.note(|| format!("peek -> {:?}", p));
                check_min(&p, &model, step)?;
            }
            7 => {
                if c.chance(1, 4) {
                    c.note(|| "clear".into());
                    heap.clear();
                    model.clear();
                }
            }
            8 => {
                if c.chance(1, 4) {
                    let take = if c.coin() { usize::MAX } else { c.size(0, model.len()) };
                    c.note(|| format!("drain, taking {}", take));
                    let drained: Vec<T> = heap.drain().take(take).collect();
                    ensure_eq!(drained.len(), take.min(model.len()), "step {}: number of drained elements", step);
                    for d in drained {
                        let m = model.remove(&d.as_index());
                        ensure!(m.as_ref() == Some(d.el()), "step {}: drain returned {:?}, but the element with this index is {:?}", step, d, m);
                    }
                    model.clear();
                }
            }
            _ => {
                ensure_eq!(heap.contains_index(id), model.contains_key(&id), "step {}: contains_index({})", step, id);
                ensure!(
                    heap.get(id).map(|e| e.el()) == model.get(&id),
                    "step {}: get({}): got {:?}, expected {:?}",
                    step,
                    id,
                    heap.get(id),
                    model.get(&id)
                );
            }
        }
        ensure_eq!(heap.len(), model.len(), "step {}: length", step);
        ensure_eq!(heap.is_empty(), model.is_empty(), "step {}: is_empty", step);
        if !c.big {
            check_min(&heap.peek().cloned(), &model, step)?;
        }
    }
    for id in ever {
        ensure_eq!(heap.contains_index(id), model.contains_key(&id), "at the end: contains_index({})", id);
        ensure!(heap.get(id).map(|e| e.el()) == model.get(&id), "at the end: get({}): got {:?}, expected {:?}", id, heap.get(id), model.get(&id));
    }
    let mut elements: Vec<Elem> = heap.elements().iter().map(|e| e.el().clone()).collect();
    elements.sort_by_key(|e| e.id);
    let expected: Vec<Elem> = model.values().cloned().collect();
    ensure!(elements == expected, "elements: got {:?}, expected {:?}", elements, expected);
    let mut last: Option<T> = None;
    while let Some(p) = heap.pop() {
        pops += 1;
        if pops >= 2 {
            c.nontrivial();
        }
        ensure!(last.as_ref().map_or(true, |l| l <= &p), "draining pops: {:?} after {:?}", p, last);
        let m = model.remove(&p.as_index());
        ensure!(m.as_ref() == Some(p.el()), "draining pops: {:?}, but the element with this index is {:?}", p, m);
        last = Some(p);
    }
    ensure!(model.is_empty(), "draining pops: {} elements are missing", model.len());
    Ok(())
}

fn check_min<T: El>(p: &Option<T>, model: &BTreeMap<usize, Elem>, step: usize) -> Result<(), String> {
    let min = model.values().map(|e| T::make(e.clone())).min();
    match (p, min) {
        (None, None) => Ok(()),
        (Some(p), Some(m)) => {
            ensure!(p == &m, "step {}: peek returned {:?} although {:?} is smaller", step, p, m);
            ensure!(model.get(&p.as_index()) == Some(p.el()), "step {}: peek returned {:?}, but the element with this index is {:?}", step, p, model.get(&p.as_index()));
            Ok(())
        }
        (p, m) => Err(format!("step {}: peek: got {:?}, expected {:?}", step, p, m)),
    }
}

/// The heap of the multi-criteria search: the greatest element first, popped elements stay accessible.
fn split_heap(c: &mut Case) -> Result<(), String> {
    let steps = if c.big { c.size(1, 400) } else { c.size(1, 60) };
    let max_key = *c.pick(&[3u32, 20, 1000, u32::MAX]);
    let mut heap = Heap::<(u32, u32)>::new();
    // contents that are still in the heap / popped
    let mut model: Vec<(u32, u32)> = Vec::new();
    let mut popped: Vec<(u32, u32)> = Vec::new();
    let mut pops = 0;
    // ties are possible if the tags are equal
    let distinct = c.coin();
    let mut fresh = 0;
    for step in 0..steps {
        match c.weighted(&[10, 8, 3, 3, 1]) {
            0 => {
                let times = if c.big { c.size(1, 300) } else { 1 };
                for _ in 0..times {
                    fresh += 1;
                    let x = (c.u32(0, max_key), if distinct { fresh } else { 0 });
                    c.note(|| format!("push {:?}", x));
                    heap.push(x);
                    let pos = model.partition_point(|y| y < &x);
                    model.insert(pos, x);
                }
            }
            1 => {
                let times = if c.big { c.size(1, 200) } else { 1 };
                for _ in 0..times {
                    let p = heap.pop().copied();
                    c.note(|| format!("pop -> {:?}", p));
                    let m = model.pop();
                    ensure_eq!(p, m, "step {}: pop", step);
                    if let Some(m) = m {
                        popped.push(m);
                        pops += 1;
                        if pops >= 2 {
                            c.nontrivial();
                        }
                    }
                }
            }
            2 => {
                // remove a part of the elements
                let lo = c.u32(0, max_key);
                let hi = c.u32(0, max_key);
                let m = c.u32(1, 5);
                let invert = c.coin();
                let keep = |x: &(u32, u32)| ((x.0 >= lo.min(hi) && x.0 <= lo.max(hi)) || x.1 % m == 1) != invert;
                c.note(|| format!("retain {}..={} or tag % {} == 1, inverted: {}", lo.min(hi), lo.max(hi), m, invert));
                let mut seen = Vec::new();
                heap.retain(|x| {
                    seen.push(*x);
                    keep(x)
                });
                seen.sort();
                let mut all = [&model[..], &popped[..]].concat();
                all.sort();
                ensure!(seen == all, "step {}: retain visited {:?}, but the elements are {:?}", step, seen, all);
                let before = model.len();
                model.retain(|x| keep(x));
                popped.retain(|x| keep(x));
                if model.len() < before && !model.is_empty() {
                    c.label("some removed");
                    if before > 2048 {
                        c.label("removed from a large heap");
                    }
                }
            }
            3 => {
                ensure_eq!(heap.peek().copied(), model.last().copied(), "step {}: peek", step);
            }
            _ => {
                if c.chance(1, 6) {
                    c.note(|| "clear".into());
                    heap.clear();
                    model.clear();
                    popped.clear();
                }
            }
        }
        if !c.big || step % 16 == 0 {
            ensure_eq!(heap.peek().copied(), model.last().copied(), "step {}: peek", step);
            let mut p = heap.popped().to_vec();
            p.sort();
            popped.sort();
            ensure!(p == popped, "step {}: popped elements: got {:?}, expected {:?}", step, p, popped);
        }
    }
    while let Some(m) = model.pop() {
        let p = heap.pop().copied();
        ensure_eq!(p, Some(m), "draining pops");
        popped.push(m);
    }
    ensure_eq!(heap.pop().copied(), None, "pop from an empty heap");
    ensure_eq!(heap.peek().copied(), None, "peek into an empty heap");
    let mut p = heap.popped().to_vec();
    p.sort();
    popped.sort();
    ensure!(p == popped, "popped elements: got {:?}, expected {:?}", p, popped);
    Ok(())
}
