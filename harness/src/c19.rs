//! Resettable vectors, bit sets and rank/select maps against plain models.

use crate::pbt::{Sub, *};
use rust_road_router::datastr::clearlist_vector::ClearlistVector;
use rust_road_router::datastr::graph::INFINITY;
use rust_road_router::datastr::rank_select_map::*;
use rust_road_router::datastr::timestamped_vector::*;
use rust_road_router::util::in_range_option::{InRangeOption, Sentinel};
use std::collections::{BTreeMap, BTreeSet};

pub static PROP: Property = Property {
    id: "C19",
    rule: "vectors: a value written before a reset is read or written after it; bit sets: bits set, some removed again; maps: at least two keys and absent ids",
    subs: &[
        Sub { name: "vectors", f: vectors, quick: 4_000_000, thorough: 60_000_000, big: false },
        Sub { name: "wrap", f: wrap, quick: 8, thorough: 160, big: false },
        Sub { name: "bits", f: bits, quick: 1_500_000, thorough: 40_000_000, big: false },
        Sub { name: "bits_big", f: bits, quick: 10_000, thorough: 1_000_000, big: true },
        Sub { name: "map", f: map, quick: 800_000, thorough: 10_000_000, big: false },
        Sub { name: "map_big", f: map, quick: 40_000, thorough: 400_000, big: true },
        Sub { name: "option", f: option, quick: 200_000, thorough: 4_000_000, big: false },
    ],
};

trait Val: Reset + PartialEq + std::fmt::Debug {
    fn gen(c: &mut Case) -> Self;
    /// in-place modification that depends on the old value
    fn modify(&mut self, c: u32);
}
fn weight(c: &mut Case) -> u32 {
    match c.draw(5) {
        0 => INFINITY,
        1 => 0,
        2 => u32::MAX,
        3 => c.u32(0, u32::MAX),
        _ => c.u32(0, 10),
    }
}
impl Val for u32 {
    fn gen(c: &mut Case) -> Self {
        weight(c)
    }
    fn modify(&mut self, c: u32) {
        *self = self.wrapping_add(c)
    }
}
impl Val for (u32, u32) {
    fn gen(c: &mut Case) -> Self {
        (weight(c), weight(c))
    }
    fn modify(&mut self, c: u32) {
        self.1 = self.1.wrapping_sub(c)
    }
}
impl Val for (u32, u32, u32) {
    fn gen(c: &mut Case) -> Self {
        (weight(c), weight(c), weight(c))
    }
    fn modify(&mut self, c: u32) {
        self.2 = self.2.wrapping_add(c)
    }
}
impl Val for bool {
    fn gen(c: &mut Case) -> Self {
        c.coin()
    }
    fn modify(&mut self, _c: u32) {
        *self = !*self
    }
}
impl Val for Vec<u32> {
    fn gen(c: &mut Case) -> Self {
        (0..c.size(0, 3)).map(|_| weight(c)).collect()
    }
    fn modify(&mut self, c: u32) {
        self.push(c)
    }
}
impl Val for InRangeOption<u32> {
    fn gen(c: &mut Case) -> Self {
        if c.chance(1, 4) {
            InRangeOption::NONE
        } else {
            InRangeOption::some(c.u32(0, u32::MAX - 1))
        }
    }
    fn modify(&mut self, c: u32) {
        *self = InRangeOption::some(self.value().map_or(c, |v| v / 2 + c))
    }
}

fn vectors(c: &mut Case) -> Result<(), String> {
    match c.draw(7) {
        0 => timestamped::<u32>(c, 40),
        1 => timestamped::<(u32, u32)>(c, 40),
        2 => timestamped::<(u32, u32, u32)>(c, 40),
        3 => timestamped::<bool>(c, 40),
        4 => timestamped::<Vec<u32>>(c, 40),
        5 => timestamped::<InRangeOption<u32>>(c, 40),
        6 => atomic(c, 40),
        _ => clearlist(c, 40),
    }
}

fn timestamped<T: Val>(c: &mut Case, max_steps: usize) -> Result<(), String> {
    let steps = c.size(1, max_steps);
    let n = c.size(1, 12);
    let mut real = TimestampedVector::<T>::new(n);
    let mut model = vec![T::DEFAULT; n];
    timestamped_history(c, &mut real, &mut model, steps, &mut BTreeSet::new())
}

fn timestamped_history<T: Val>(c: &mut Case, real: &mut TimestampedVector<T>, model: &mut Vec<T>, steps: usize, old: &mut BTreeSet<usize>) -> Result<(), String> {
    let n = model.len();
    let mut written = BTreeSet::new();
    for step in 0..steps {
        let i = c.size(0, n - 1);
        let op = c.weighted(&[4, 3, 3, 2, 2, 3, 3]);
        if op < 6 && old.contains(&i) {
            c.nontrivial();
        }
        match op {
            0 => {
                let v = T::gen(c);
                c.note(|| format!("set {} to {:?}", i, v));
                model[i] = v.clone();
                real.set(i, v);
                written.insert(i);
            }
            1 => {
                let v = T::gen(c);
                c.note(|| format!("assign {} := {:?}", i, v));
                model[i] = v.clone();
                real[i] = v;
                written.insert(i);
            }
            2 => {
                let k = c.u32(0, 3);
                c.note(|| format!("modify {} in place ({})", i, k));
                model[i].modify(k);
                real[i].modify(k);
                written.insert(i);
            }
            3 => {
                let k = c.u32(0, 3);
                c.note(|| format!("modify {} in place, unchecked ({})", i, k));
                model[i].modify(k);
                unsafe { real.get_unchecked_mut(i) }.modify(k);
                written.insert(i);
            }
            4 => {
                ensure_eq!(unsafe { real.get_unchecked(i) }, &model[i], "step {}: unchecked value {}", step, i);
            }
            5 => {
                ensure_eq!(&real[i], &model[i], "step {}: value {}", step, i);
            }
            _ => {
                if c.coin() {
                    c.note(|| "reset".into());
                    real.reset();
                    model.iter_mut().for_each(|v| *v = T::DEFAULT);
                    old.append(&mut written);
                } else if c.chance(1, 4) {
                    c.note(|| "go on with a clone".into());
                    *real = real.clone();
                }
            }
        }
    }
    ensure_eq!(real.len(), n, "length");
    ensure_eq!(real.is_empty(), n == 0, "is_empty");
    for i in 0..n {
        ensure_eq!(&real[i], &model[i], "at the end: value {}", i);
        ensure_eq!(unsafe { real.get_unchecked(i) }, &model[i], "at the end: unchecked value {}", i);
    }
    old.append(&mut written);
    Ok(())
}

fn atomic(c: &mut Case, max_steps: usize) -> Result<(), String> {
    let steps = c.size(1, max_steps);
    let n = c.size(1, 12);
    let mut real = AtomicDists::new(n);
    let mut model = vec![INFINITY; n];
    atomic_history(c, &mut real, &mut model, steps)
}

fn atomic_history(c: &mut Case, real: &mut AtomicDists, model: &mut Vec<u32>, steps: usize) -> Result<(), String> {
    let n = model.len();
    let mut old = BTreeSet::new();
    for step in 0..steps {
        let i = c.size(0, n - 1);
        match c.draw(4) {
            0 | 1 => {
                let v = weight(c);
                c.note(|| format!("set {} to {}", i, v));
                real.set(i, v);
                model[i] = v;
            }
            2 | 3 => {
                if old.contains(&i) {
                    c.nontrivial();
                }
                ensure_eq!(real.get(i), model[i], "step {}: value {}", step, i);
            }
            _ => {
                c.note(|| "reset".into());
                real.reset();
                for (i, v) in model.iter_mut().enumerate() {
                    if *v != INFINITY {
                        old.insert(i);
                    }
                    *v = INFINITY;
                }
            }
        }
    }
    ensure_eq!(real.len(), n, "length");
    ensure_eq!(real.is_empty(), n == 0, "is_empty");
    for i in 0..n {
        ensure_eq!(real.get(i), model[i], "at the end: value {}", i);
    }
    Ok(())
}

fn clearlist(c: &mut Case, max_steps: usize) -> Result<(), String> {
    let steps = c.size(1, max_steps);
    let n = c.size(1, 12);
    let default = c.u32(0, 3);
    let mut real = ClearlistVector::new(n, default);
    let mut model = vec![default; n];
    let mut old = BTreeSet::new();
    for step in 0..steps {
        let i = c.size(0, n - 1);
        match c.draw(6) {
            0 | 1 => {
                let v = c.u32(0, 4);
                c.note(|| format!("assign {} := {}", i, v));
                real[i] = v;
                model[i] = v;
            }
            2 => {
                let k = c.u32(0, 2);
                c.note(|| format!("add {} to {}", k, i));
                real[i] += k;
                model[i] += k;
            }
            3 | 4 | 5 => {
                if old.contains(&i) {
                    c.nontrivial();
                }
                ensure_eq!(real[i], model[i], "step {}: value {}", step, i);
            }
            _ => {
                c.note(|| "reset".into());
                real.reset();
                for (i, v) in model.iter_mut().enumerate() {
                    if *v != default {
                        old.insert(i);
                    }
                    *v = default;
                }
            }
        }
    }
    for i in 0..n {
        ensure_eq!(real[i], model[i], "at the end: value {}", i);
    }
    Ok(())
}

/// Histories around the wrap-around of the internal 32 bit clock: about 2^32 resets.
fn wrap(c: &mut Case) -> Result<(), String> {
    // stop some resets before the clock wraps
    const FULL: u64 = 1 << 32;
    let before = c.range(0, 6);
    let steps = c.size(1, 12);
    let n = c.size(1, 6);
    c.label("2^32 resets");
    match c.draw(2) {
        0 => {
            let mut real = TimestampedVector::<u32>::new(n);
            let mut model = vec![u32::DEFAULT; n];
            let mut old = BTreeSet::new();
            // the first history starts at clock 0
            timestamped_history(c, &mut real, &mut model, steps, &mut old)?;
            c.note(|| format!("2^32 - {} resets", before));
            for _ in 0..FULL - before {
                real.reset();
            }
            model = vec![u32::DEFAULT; n];
            timestamped_history(c, &mut real, &mut model, steps, &mut old)?;
            for _ in 0..12 {
                real.reset();
                model = vec![u32::DEFAULT; n];
                timestamped_history(c, &mut real, &mut model, 4, &mut old)?;
            }
        }
        1 => {
            let mut real = TimestampedVector::<Vec<u32>>::new(n);
            let mut model = vec![Vec::DEFAULT; n];
            let mut old = BTreeSet::new();
            timestamped_history(c, &mut real, &mut model, steps, &mut old)?;
            c.note(|| format!("2^32 - {} resets", before));
            for _ in 0..FULL - before {
                real.reset();
            }
            model = vec![Vec::DEFAULT; n];
            timestamped_history(c, &mut real, &mut model, steps, &mut old)?;
            for _ in 0..12 {
                real.reset();
                model = vec![Vec::DEFAULT; n];
                timestamped_history(c, &mut real, &mut model, 4, &mut old)?;
            }
        }
        _ => {
            let mut real = AtomicDists::new(n);
            let mut model = vec![INFINITY; n];
            atomic_history(c, &mut real, &mut model, steps)?;
            c.nontrivial();
            c.note(|| format!("2^32 - {} resets", before));
            for _ in 0..FULL - before {
                real.reset();
            }
            model = vec![INFINITY; n];
            atomic_history(c, &mut real, &mut model, steps)?;
            for _ in 0..12 {
                real.reset();
                model = vec![INFINITY; n];
                atomic_history(c, &mut real, &mut model, 4)?;
            }
        }
    }
    Ok(())
}

/// sizes around the boundaries of words (64), cache lines (512) and groups (256 keys)
fn bit_size(c: &mut Case) -> usize {
    let max = if c.big { 20_000 } else { 700 };
    match c.draw(3) {
        0 => c.size(1, 130),
        1 => {
            let b = *c.pick(&[64usize, 128, 256, 512, 576, 1024, 4096]);
            (b + c.size(0, 2)).saturating_sub(1).min(max)
        }
        _ => c.size(1, max),
    }
}

fn bits(c: &mut Case) -> Result<(), String> {
    let n = bit_size(c);
    let steps = if c.big { c.size(1, 600) } else { c.size(1, 40) };
    if c.chance(1, 3) {
        // the variant with a clearlist
        let mut real = FastClearBitVec::new(n);
        let mut model = BTreeSet::new();
        let mut cleared = BTreeSet::new();
        for step in 0..steps {
            let i = near(c, n, &model);
            match c.weighted(&[8, 4, 2, 1, 1]) {
                0 => {
                    c.note(|| format!("set {}", i));
                    real.set(i);
                    model.insert(i);
                    if cleared.contains(&i) {
                        c.nontrivial();
                    }
                }
                1 => ensure_eq!(real.get(i), model.contains(&i), "step {}: bit {}", step, i),
                2 => {
                    let mut set: Vec<usize> = real.set_bits_iter().collect();
                    set.sort();
                    ensure!(set.iter().eq(model.iter()), "step {}: bits set {:?}, expected {:?}", step, set, model);
                }
                3 => {
                    c.note(|| "clear".into());
                    real.clear();
                    cleared.append(&mut model);
                }
                _ => real = real.clone(),
            }
        }
        for i in 0..n {
            ensure_eq!(real.get(i), model.contains(&i), "at the end: bit {}", i);
        }
        let mut set: Vec<usize> = real.set_bits_iter().collect();
        set.sort();
        ensure!(set.iter().eq(model.iter()), "at the end: bits set {:?}, expected {:?}", set, model);
        return Ok(());
    }
    let mut real = BitVec::new(n);
    let mut model = BTreeSet::new();
    c.note(|| format!("{} bits", n));
    for step in 0..steps {
        let i = near(c, n, &model);
        match c.weighted(&[12, 5, 2, 5, 1, 1, 3]) {
            0 => {
                c.note(|| format!("set {}", i));
                real.set(i);
                model.insert(i);
            }
            1 => {
                c.note(|| format!("unset {}", i));
                real.unset(i);
                if model.remove(&i) && !model.is_empty() {
                    c.nontrivial();
                }
            }
            2 => {
                c.note(|| format!("unset_all_around {}", i));
                real.unset_all_around(i);
                model.retain(|x| x / 64 != i / 64);
            }
            3 => ensure_eq!(real.get(i), model.contains(&i), "step {}: bit {}", step, i),
            4 => {
                if c.chance(1, 3) {
                    c.note(|| "clear".into());
                    real.clear();
                    model.clear();
                }
            }
            5 => {
                if c.chance(1, 3) {
                    c.note(|| "set_all".into());
                    real.set_all();
                    model.extend(0..n);
                }
            }
            _ => ensure_eq!(real.count_ones(), model.len(), "step {}: number of ones", step),
        }
    }
    ensure_eq!(real.len(), n, "number of bits");
    ensure_eq!(real.is_empty(), n == 0, "is_empty");
    ensure_eq!(real.count_ones(), model.len(), "at the end: number of ones");
    for i in 0..n {
        ensure_eq!(real.get(i), model.contains(&i), "at the end: bit {}", i);
    }
    if n % 64 != 0 || n < 8192 {
        ensure!(catches(|| real.get(n)).is_err(), "reading the bit behind the end does not panic");
        let mut r = real;
        ensure!(catches(|| r.set(n)).is_err(), "writing the bit behind the end does not panic");
    }
    Ok(())
}

/// an index, often close to a set bit
fn near(c: &mut Case, n: usize, set: &BTreeSet<usize>) -> usize {
    let i = c.size(0, n - 1);
    if c.chance(1, 3) {
        if let Some(&s) = set.range(i..).next() {
            return (s + c.size(0, 2)).saturating_sub(1).min(n - 1);
        }
    }
    i
}

fn map(c: &mut Case) -> Result<(), String> {
    let n = if c.chance(1, 50) { 0 } else { bit_size(c) };
    // density differs by region, so that empty and full words, lines and groups appear
    let mut keys = BTreeSet::new();
    let mut bits = BitVec::new(n);
    let mut i = 0;
    while i < n {
        let len = match c.draw(3) {
            0 => c.size(1, 64),
            1 => 64,
            2 => 512,
            _ => c.size(1, 2000),
        };
        let end = (i + len).min(n);
        match c.draw(4) {
            0 => {}
            1 => keys.extend(i..end),
            2 => {
                for k in i..end {
                    if c.coin() {
                        keys.insert(k);
                    }
                }
            }
            3 => {
                for _ in 0..c.size(1, 3) {
                    keys.insert(c.size(i, end - 1));
                }
            }
            _ => {
                let m = c.size(1, 40);
                keys.extend((i..end).step_by(m));
            }
        }
        i = end;
    }
    for &k in &keys {
        bits.set(k);
    }
    if n > 1 {
        c.note(|| format!("{} bits, {} keys: {:?}", n, keys.len(), keys.iter().take(60).collect::<Vec<_>>()));
    }
    let rank: BTreeMap<usize, usize> = keys.iter().enumerate().map(|(r, &k)| (k, r)).collect();
    let m = RankSelectMap::new(bits);
    ensure_eq!(m.len(), keys.len(), "number of entries");
    ensure_eq!(m.is_empty(), keys.is_empty(), "is_empty");
    if keys.len() >= 2 && keys.len() < n {
        c.nontrivial();
    }
    if keys.len() > 256 {
        c.label("several groups");
    }
    if (0..n / 512).any(|b| keys.range(b * 512..(b + 1) * 512).next().is_none()) {
        c.label("empty cache line");
    }
    let mut lower = None;
    for k in 0..n {
        let r = rank.get(&k).copied();
        ensure_eq!(m.get(k), r, "get({})", k);
        if let Some(r) = r {
            ensure_eq!(m.at(k), r, "at({})", k);
            lower = Some(r);
        }
        if let Some(l) = lower {
            ensure_eq!(m.at_or_next_lower(k), l, "at_or_next_lower({})", k);
        }
    }
    for k in [n, n + 1, n + 63, n + 64, n + 512, usize::MAX] {
        ensure_eq!(m.get(k), None, "get({}) behind the end", k);
    }
    if n > 0 {
        let k = c.size(0, n - 1);
        if !keys.contains(&k) {
            ensure!(catches(|| m.at(k)).is_err(), "at({}) of an absent id does not panic", k);
        }
    }
    let inv = InvertableRankSelectMap::new(m);
    for (&k, &r) in &rank {
        ensure_eq!(inv.inverse(r), k, "inverse({})", r);
        ensure_eq!(inv.get(k), Some(r), "get({}) of the invertible map", k);
    }
    ensure_eq!(inv.len(), keys.len(), "number of entries of the invertible map");
    Ok(())
}

fn option_of<T: Sentinel + std::fmt::Debug>(v: T, other: T) -> Result<(), String> {
    if v == T::SENTINEL {
        ensure!(catches(|| InRangeOption::some(v)).is_err(), "some(sentinel) does not panic");
        ensure!(catches(|| InRangeOption::new(Some(v))).is_err(), "new(Some(sentinel)) does not panic");
    } else {
        ensure_eq!(InRangeOption::some(v).value(), Some(v), "some");
        ensure_eq!(InRangeOption::new(Some(v)).value(), Some(v), "new");
        ensure_eq!(unsafe { InRangeOption::some(v).assume_some() }, v, "assume_some");
        ensure!(InRangeOption::some(v) != InRangeOption::NONE, "equality");
        if other != T::SENTINEL {
            ensure_eq!(InRangeOption::some(v) == InRangeOption::some(other), v == other, "equality");
        }
    }
    ensure_eq!(InRangeOption::<T>::new(None).value(), None, "new(None)");
    ensure_eq!(InRangeOption::<T>::NONE.value(), None, "NONE");
    ensure_eq!(InRangeOption::<T>::default().value(), None, "default");
    Ok(())
}

fn option(c: &mut Case) -> Result<(), String> {
    fn num(c: &mut Case) -> u64 {
        match c.draw(3) {
            0 => c.range(0, 3),
            1 => u64::MAX - c.range(0, 2),
            2 => *c.pick(&[u32::MAX as u64, u32::MAX as u64 - 1, i32::MIN as u32 as u64, i32::MAX as u64, i32::MIN as i64 as u64]),
            _ => c.draw(u64::MAX),
        }
    }
    let (a, b, d) = (num(c), num(c), num(c));
    let (x, y, z) = (num(c), num(c), num(c));
    c.note(|| format!("{} {} {} {} {} {}", a, b, d, x, y, z));
    c.nontrivial();
    option_of(a as u32, x as u32)?;
    option_of(a as i32, x as i32)?;
    option_of(a, x)?;
    option_of(a as usize, x as usize)?;
    option_of((a as u32, b as u32), (x as u32, y as u32))?;
    option_of((a as u32, b as u32, d as u32), (x as u32, y as u32, z as u32))
}
