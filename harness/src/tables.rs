//! C30, C31: the converter's table tools.
use crate::common::*;
use crate::converter::convertertools::*;
use ndarray::prelude::*;

pub fn c30(r: &mut Rng) -> R {
    let (mut n, w) = (r.n(9), r.r(1, 5));
    if r.p(0.15) { n = r.r(9, 150); }
    if let Some(x) = r.size(0.1, 5000) { n = x; }
    let kinds = r.pick(&[2usize, 5, 5, 40, 400]);
    let t = Array2::from_shape_fn((n, w), |_| r.n(kinds) as f64 - 2.);
    let c = r.n(w);
    let got = guard(|| sort_by_column(t.clone(), c)).map_err(|e| format!("sort_by_column({t}, {c}) {e}"))?;
    let mut rows: Vec<Vec<f64>> = t.outer_iter().map(|x| x.to_vec()).collect();
    // insertion sort: equal rows keep their order
    for i in 1..rows.len() { let mut j = i; while j > 0 && rows[j - 1][c] > rows[j][c] { rows.swap(j - 1, j); j -= 1; } }
    eq2(&format!("sort_by_column({t}, {c})"), &got, &Array2::from_shape_fn((n, w), |(i, j)| rows[i][j]))?;
    let huge = r.p(0.1);
    let ids: Vec<u64> = (0..n).map(|_| if huge { r.u() >> r.n(40) } else { r.n(kinds + 1) as u64 }).collect();
    let got = guard(|| make_sortlist(&ids))?;
    let mut want: Vec<usize> = (0..n).collect();
    for i in 1..n { let mut j = i; while j > 0 && ids[want[j - 1]] > ids[want[j]] { want.swap(j - 1, j); j -= 1; } }
    ensure(got == want, || format!("make_sortlist({ids:?}) is {got:?}, expected {want:?}"))?;
    let vals: Vec<f64> = (0..n).map(|i| i as f64 + 0.5).collect();
    let s = guard(|| sort_by_array(vals.clone(), &want))?;
    ensure(s.len() == n && (0..n).all(|i| s[i] == vals[want[i]]), || format!("sort_by_array({vals:?}, {want:?}) is {s:?}"))?;
    if n > 0 {
        let tri: Vec<f64> = (0..3 * n).map(|i| i as f64).collect();
        let s = guard(|| sort_by_array(tri.clone(), &want))?;
        ensure(s.len() == 3 * n && (0..3 * n).all(|i| s[i] == tri[3 * want[i / 3] + i % 3]), || format!("sort_by_array({tri:?}, {want:?}) is {s:?}"))?;
    }
    let l: Array1<f64> = { let m = if r.p(0.1) { r.r(6, 60) } else { r.n(6) }; let mut v: Vec<f64> = (0..m).map(|_| r.n(7) as f64).collect(); if r.p(0.6) { v.sort_by(|a, b| a.partial_cmp(b).unwrap()); } if m > 1 && r.p(0.3) { let k = r.n(m - 1); v.swap(k, k + 1); } Array1::from(v) };
    let sorted = (1..l.len()).all(|i| !(l[i] < l[i - 1]));
    ensure(is_sorted(&l.view()) == sorted, || format!("is_sorted({l}) is {}", !sorted))
}
pub fn c31(r: &mut Rng) -> R {
    let n = if r.p(0.05) { r.r(10, 80) } else { r.r(3, 9) };
    let mut t = r.pick(&[0., 0., 0.5, 1.]);
    let mut d = Array2::zeros((n, 4));
    for i in 0..n {
        d[[i, 0]] = t;
        for a in 1..4 { d[[i, a]] = r.small(); }
        t += if r.p(0.1) { 0. } else { r.pick(&[0.25, 0.5, 1., 2., 0.3]) };
    }
    let steps = if r.p(0.05) { r.r(15, 150) } else { r.r(2, 14) };
    let dur = r.pick(&[d[[n - 1, 0]], 4., t, 2.5]);
    let what = format!("interpolate({d}, {dur}, {steps})");
    let got = guard(|| interpolate(d.clone(), dur, steps)).map_err(|e| format!("{what}: {e}"))?;
    ensure(got.shape() == [steps, 4], || format!("{what}: shape {:?}", got.shape()))?;
    for a in 0..4 { ensure(got[[0, a]] == d[[0, a]] || steps == 1, || format!("{what}: first row {}", got.row(0)))?; ensure(got[[steps - 1, a]] == d[[n - 1, a]], || format!("{what}: last row {}", got.row(steps - 1)))?; }
    // the middle record: from the second on, as long as the next one is not farther from the row's time
    let mut m = 1;
    for k in 1..steps.max(1) - 1 {
        let tk = k as f64 * dur / steps as f64;
        let time = k as f64 * (dur / steps as f64);
        ensure(same(got[[k, 0]], tk), || format!("{what}: row {k} has time {}, expected {tk}", got[[k, 0]]))?;
        while m + 1 < n && !((time - d[[m, 0]]).abs() < (time - d[[m + 1, 0]]).abs()) { m += 1; }
        let missing = m + 1 >= n || d[[m - 1, 0]] == d[[m + 1, 0]];
        for c in 1..4 {
            let x = got[[k, c]];
            if missing { ensure(x.is_nan(), || format!("{what}: row {k} around record {m} is {}, expected to be missing", got.row(k)))?; continue; }
            let y = d[[m - 1, c]] + (d[[m + 1, c]] - d[[m - 1, c]]) / (d[[m + 1, 0]] - d[[m - 1, 0]]) * (tk - d[[m - 1, 0]]);
            ensure(same(x, y), || format!("{what}: row {k} is {}, column {c} on the line through the records around record {m} is {y}", got.row(k)))?;
        }
    }
    let mut bad = d.clone();
    let i = r.n(n - 1);
    bad[[i + 1, 0]] = bad[[i, 0]] - 1.;
    refuses(&format!("interpolate of unsorted {bad}"), || interpolate(bad.clone(), dur, steps))
}
pub fn c35(r: &mut Rng) -> R {
    let h = if r.p(0.1) { r.r(4, 9) } else { r.r(1, 3) };
    let twice = r.p(0.2);
    let degree = if r.p(0.6) || h > 3 { r.r(1, 2) } else { r.n((if twice { h } else { 2 * h }).min(4) + 1) };
    let n = 2 * h + 1;
    let len = if r.p(0.1) { 2 * h } else { n + r.n(8) };
    // positions on a polynomial of the degree, times irregular
    let p: Vec<Vec<f64>> = (0..3).map(|_| (0..=degree).map(|k| r.small() / (1 << (k * (k + 3) / 2)) as f64).collect()).collect();
    let mut t = r.pick(&[0., 0., 3., -2.]);
    let mut d = Array2::zeros((len, r.pick(&[4usize, 4, 7])));
    for i in 0..len {
        d[[i, 0]] = t;
        for c in 0..3 { d[[i, c + 1]] = p[c].iter().rev().fold(0., |s, x| s * t + x); }
        // with `twice`, the first records of every window have the same time; a window still holds degree + 1 times
        t += if twice && i % n < h { 0. } else { r.pick(&[0.25, 0.5, 1., 0.75, 1.5]) };
    }
    let what = format!("velocity_polynom({d}, {n}, {degree})");
    let got = guard(|| velocity_polynom(d.clone(), n, degree)).map_err(|e| format!("{what}: {e}"))?;
    ensure(got.shape() == [len - 2 * h, 7], || format!("{what}: shape {:?}", got.shape()))?;
    for i in 0..len - 2 * h {
        for c in 0..4 { ensure(got[[i, c]] == d[[i + h, c]], || format!("{what}: row {i} is {}, its record {}", got.row(i), d.row(i + h)))?; }
        let mut times: Vec<f64> = (i..i + n).map(|j| d[[j, 0]]).collect();
        times.dedup();
        if times.len() <= degree { continue; }
        let t = d[[i + h, 0]];
        for c in 0..3 {
            let v = (1..=degree).rev().fold(0., |s, k| s * t + k as f64 * p[c][k]);
            ensure(tol(got[[i, c + 4]], v, 1e-6), || format!("{what}: row {i} has velocity {} in direction {c}, the slope at its time {t} is {v}", got[[i, c + 4]]))?;
        }
    }
    let even = n + 1;
    refuses(&format!("velocity_polynom with {even} records a window"), || velocity_polynom(Array2::zeros((even + 3, 4)), even, degree))
}
