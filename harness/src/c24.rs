//! C24: link speed estimates of map matched traces against a direct computation.
use crate::pbt::*;

use rust_road_router::link_speed_estimates::*;

pub static PROP: Property = Property {
    id: "C24",
    rule: "at least three links, one of them without trace and one with several traces",
    subs: &[
        Sub { name: "estimate", f: estimate, quick: 5_000_000, thorough: 100_000_000, big: false },
        Sub { name: "estimate_big", f: estimate, quick: 100_000, thorough: 3_000_000, big: true },
        Sub { name: "empty", f: empty_input, quick: 10_000, thorough: 10_000, big: false },
    ],
};

fn links(c: &mut Case, n: usize) -> Vec<LinkData> {
    let max = *c.pick(&[50_000u64, 500_000, 5_000_000]);
    let first = c.range(0, 1000);
    let step = c.range(1, 50);
    (0..n)
        .map(|i| LinkData {
            // any distinct numbers
            link_id: first + (i as u64 * 7919 % 10_007) * step,
            length: c.range(10_000, max) as u32,
            speed_limit: c.range(5, 130) as u32,
        })
        .collect()
}

fn estimate(c: &mut Case) -> Result<(), String> {
    let n = if c.big { c.size(1, 400) } else { c.size(1, 10) };
    let mut links = links(c, n);
    let sparse = c.u32(0, 3);
    let busy = c.u32(0, 3);
    // positions of the traces on the links in twentieth
    let mut places: Vec<(usize, u32)> = Vec::new();
    let mut per_link = vec![0usize; n];
    for i in 0..n {
        let border = i == 0 || i + 1 == n;
        if !border && c.chance(sparse as u64, 4) {
            continue;
        }
        let mut k = 1;
        while k < 6 && c.chance(busy as u64, 4) {
            k += 1;
        }
        if n == 1 {
            k = k.max(2);
        }
        let mut at: Vec<u32> = (0..k).map(|_| c.u32(0, 20)).collect();
        at.sort_unstable();
        if i == 0 {
            // the car has to move at the beginning
            at.dedup();
            if n == 1 && at.len() == 1 {
                at = vec![at[0].min(19), at[0].min(19) + 1];
            }
        }
        if i + 1 == n && at.len() > 1 && at[at.len() - 1] == 0 {
            // not standing at the beginning of the last link until the end
            *at.last_mut().unwrap() = 1;
        }
        // the same place as the last trace on the link before
        if let Some(&(_, 20)) = places.last() {
            if at[0] == 0 && places.last().unwrap().0 + 1 == i {
                for a in &mut at {
                    *a = (*a).max(1);
                }
            }
        }
        per_link[i] = at.len();
        places.extend(at.into_iter().map(|f| (i, f)));
    }
    // a link can be used again when there is no doubt which traces belong to which pass
    if n > 3 && c.chance(1, 3) {
        let i = c.size(0, n - 3);
        let j = c.size(i + 2, n - 1);
        if (i..=j).all(|l| per_link[l] > 0) {
            links[j].link_id = links[i].link_id;
            c.label("link used twice");
        }
    }
    let mut time = 1_500_000_000_000u64 + c.draw(1_000_000_000);
    let mut traces = Vec::new();
    let mut last: Option<(usize, u32)> = None;
    for &(i, f) in &places {
        if let Some((j, g)) = last {
            let free: f64 = if i == j {
                links[i].free_flow_traversal_time() * (f - g) as f64 / 20.0
            } else {
                links[j].free_flow_traversal_time() * (20 - g) as f64 / 20.0
                    + links[i].free_flow_traversal_time() * f as f64 / 20.0
                    + links[j + 1..i].iter().map(|l| l.free_flow_traversal_time()).sum::<f64>()
            };
            let factor = *c.pick(&[1.0, 0.5, 2.0, 10.0]);
            time += (free * factor) as u64 + c.range(1, 1000);
        }
        traces.push(TraceData {
            timestamp: time,
            link_id: links[i].link_id,
            traversed_in_travel_direction_fraction: f as f32 / 20.0,
        });
        last = Some((i, f));
    }
    c.note(|| format!("links {:?}\n    traces {:?}", links, traces));
    if n >= 3 && per_link.contains(&0) && per_link.iter().any(|&k| k > 1) {
        c.nontrivial();
    }

    let result: Vec<LinkSpeedData> = estimate_iter(Box::new(links.iter()), Box::new(traces.iter())).map_err(|e| e.to_string())?.collect();
    c.note(|| format!("result {:?}", result));
    ensure_eq!(
        result.iter().map(|r| r.link_id).collect::<Vec<_>>(),
        links.iter().map(|l| l.link_id).collect::<Vec<_>>(),
        "links with estimates"
    );
    for w in result.windows(2) {
        ensure!(w[0].link_entered_timestamp <= w[1].link_entered_timestamp, "entry times decrease: {:?}", w);
    }
    for r in &result {
        ensure!(r.velocity > 0.0 && r.velocity.is_finite(), "velocity {} on link {}", r.velocity, r.link_id);
    }

    // Between two traces each link is passed with its allowed speed times a common factor.
    let mut entry = vec![f64::NAN; n + 1];
    let mut tol = vec![0f64; n + 1];
    let mut quality = vec![0f64; n];
    let mut speed = vec![f64::NAN; n]; // only for links that are passed between traces
    let mm = 3.6; // ms * km/h
    for p in 0..places.len() - 1 {
        let ((i, f), (j, g)) = (places[p], places[p + 1]);
        let (f, g) = (f as f64 / 20.0, g as f64 / 20.0);
        let (t, u) = (traces[p].timestamp as f64, traces[p + 1].timestamp as f64);
        if i == j {
            if i == 0 && p == 0 {
                entry[0] = t - (u - t) * f / (g - f);
                tol[0] = 2.0 + 1e-5 * (u - t) * f / (g - f) / (g - f);
            }
            quality[i] += g - f;
            continue;
        }
        let mut parts = vec![(i, 1.0 - f)];
        parts.extend((i + 1..j).map(|l| (l, 1.0)));
        parts.push((j, g));
        let free: f64 = parts.iter().map(|&(l, part)| part * links[l].free_flow_traversal_time()).sum();
        let total: f64 = parts.iter().map(|&(l, part)| part * links[l].length as f64).sum();
        let factor = free / (u - t);
        let mut at = t;
        for (k, &(l, part)) in parts.iter().enumerate() {
            let v = links[l].speed_limit as f64 * factor;
            if k == 0 && l == 0 && p == 0 {
                entry[0] = t - f * links[0].length as f64 * mm / v;
                tol[0] = 2.0 + 2.0 * mm / v + 1e-6 * (t - entry[0]);
                speed[0] = v;
            }
            if k > 0 {
                entry[l] = at;
                tol[l] = 2.0 + k as f64 + 2.0 * mm / v + 2.0 * mm / (links[i].speed_limit as f64 * factor) + 1e-6 * (u - t);
                speed[l] = v;
            }
            at += part * links[l].length as f64 * mm / v;
            quality[l] += part * links[l].length as f64 / total * part;
        }
    }
    for i in 0..n {
        let r = &result[i];
        let diff = r.link_entered_timestamp as f64 - entry[i];
        ensure!(diff.abs() <= tol[i], "link {} entered at {} instead of {} (allowed error {})", i, r.link_entered_timestamp, entry[i], tol[i]);
        ensure!((r.estimate_quality as f64 - quality[i]).abs() <= 1e-3, "quality of link {}: {} instead of {}", i, r.estimate_quality, quality[i]);
        // time on the link
        let simple = per_link[i] == 0 || i == 0 && per_link[i] == 1;
        let (length, time, slack) = if simple {
            (links[i].length as f64, links[i].length as f64 * mm / speed[i], 0.0)
        } else if i + 1 < n {
            (links[i].length as f64, entry[i + 1] - entry[i], tol[i] + tol[i + 1])
        } else {
            let f = places.last().unwrap().1 as f64 / 20.0;
            (links[i].length as f64 * f, traces.last().unwrap().timestamp as f64 - entry[i], tol[i])
        };
        let v = r.velocity as f64;
        let low = length * mm / (time + slack);
        ensure!(v >= low * 0.9999, "velocity on link {}: {} but at least {}", i, v, low);
        if time > slack {
            let high = length * mm / (time - slack);
            ensure!(v <= high * 1.0001, "velocity on link {}: {} but at most {}", i, v, high);
        }
    }
    Ok(())
}

fn empty_input(c: &mut Case) -> Result<(), String> {
    let n = c.size(1, 5);
    let links = links(c, n);
    let traces = [TraceData { timestamp: 1_000_000, link_id: links[0].link_id, traversed_in_travel_direction_fraction: 0.5 }];
    c.nontrivial();
    ensure!(estimate_iter(Box::new(links.iter()), Box::new([].iter())).is_err(), "estimates without traces");
    ensure!(estimate_iter(Box::new([].iter()), Box::new(traces.iter())).is_err(), "estimates without links");
    ensure!(estimate_iter(Box::new([].iter()), Box::new([].iter())).is_err(), "estimates without anything");
    Ok(())
}
