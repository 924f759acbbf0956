//! C38: several trajectories from one CSV file, through the converter, in the file and read back.
use crate::common::*;
use crate::convert::*;
use upppp_rust::csv_multi_converter;
use upppp_rust::datamanager::*;

pub fn c38(r: &mut Rng) -> R {
    let chain = r.p(0.5);
    let vel = r.p(0.4);
    let resampled = vel && r.p(0.5);
    let parts = r.r(1, 5);
    let cols = if chain { 4 } else { 5 } + if vel { 0 } else { 3 };
    let w = r.r(cols, cols + 2);
    let mut order: Vec<usize> = (0..w).collect();
    for i in (1..w).rev() { let j = r.n(i + 1); order.swap(i, j); }
    let columns: Vec<i64> = order[..cols].iter().map(|c| *c as i64).collect();
    let long = r.p(0.02) && !vel;
    // one trajectory after another
    let mut ids: Vec<usize> = vec![];
    while ids.len() < parts { let i = r.pick(&[0usize, 1, 2, 3, 5, 10, 77, 100000]); if !ids.contains(&i) { ids.push(i); } }
    let fraction = if r.p(0.1) { 0.25 } else { 0. };
    let mut all: Vec<Vec<Vec<f64>>> = vec![];
    let mut end = f64::NEG_INFINITY;
    for p in 0..parts {
        let n = if long { r.r(520, 700) } else if vel { r.r(9, 16) } else if chain { r.pick(&[1usize, 3, 9, 10, 10, 11, 12, 14]) } else { r.r(1, 8) };
        let n = if vel && chain && r.p(0.1) { r.r(1, 3) } else { n };
        let mut t = r.pick(&[0., 0., 0., 1., -3., 0.25, 2.]);
        if chain && p > 0 && t >= end { t = end - r.pick(&[0.25, 1., 5.]); }
        let equal = if vel { 0. } else { r.pick(&[0., 0., 0.2, 0.6]) };
        let (mut from, mut to) = (n, 0);
        if long { let k = r.pick(&[499usize, 500, 501]).min(n - 2); from = 1 + r.n(n - k); to = from + k; }
        let step = r.pick(&[0.25, 0.5, 1.]);
        all.push((0..n).map(|i| {
            if i > 0 && !r.p(equal) && !(from <= i && i < to) { t += if vel { r.pick(&[1., 1., 1.5]) * step } else { r.pick(&[0.25, 0.5, 1., 0.125, 2.]) }; }
            let mut x: Vec<f64> = (0..w).map(|_| r.small()).collect();
            x[order[0]] = t;
            if !chain { x[order[1]] = ids[p] as f64 + if r.p(0.5) { fraction } else { 0. }; }
            x
        }).collect());
        end = t;
    }
    let mut rows: Vec<Vec<f64>> = all.concat();
    let n = rows.len();
    // records of several ids in turn
    if !chain {
        if r.p(0.7) { let mut left: Vec<_> = all.iter().map(|x| x.iter()).collect(); rows.clear(); while rows.len() < n { let p = r.n(parts); if let Some(x) = left[p].next() { rows.push(x.clone()); } } }
        if r.p(0.3) { for _ in 0..r.r(1, 4) { let (a, b) = (r.n(n), r.n(n)); rows.swap(a, b); } }
    }
    if r.p(0.03) && !vel { let i = r.n(n); let c = cols - 1 - r.n(6); rows[i][order[c]] = f64::NAN; }
    let (delim, comment, header) = (r.pick(&[",", ";", "\t", " "]), r.pick(&["#", "%", "!"]), r.p(0.5));
    let text = csv_text(r, &rows, w, delim, comment, header);
    let radius = r.small();
    let dir = Folder::new(r);
    let (csv, out) = (dir.file("in.csv"), dir.file("out.hdf5"));
    std::fs::write(&csv, &text).unwrap();
    let mode = if chain { "chain" } else { "id_line" };
    let what = format!("csv_multi_converter(columns {columns:?}, delimiter {delim:?}, header {header}, comment {comment:?}, vel {vel}, interpolate {resampled}, radius {radius}, mode {mode:?}) of {}", if n > 100 { format!("{n} records") } else { format!("the file {text:?}") });
    let res = check(r, &what, &rows, &columns, delim, comment, header, vel, resampled, radius, mode, &csv, &out);
    hdf5::remove(&out);
    res
}
fn check(r: &mut Rng, what: &str, rows: &[Vec<f64>], columns: &[i64], delim: &str, comment: &str, header: bool, vel: bool, resampled: bool, radius: f64, mode: &str, csv: &str, out: &str) -> R {
    let chain = mode == "chain";
    let run = |columns: Vec<i64>, vel: bool, resampled: bool, name: &str| guard(|| csv_multi_converter(name, out, columns, delim, header, comment, vel, resampled, radius, mode));
    if r.p(0.03) { return refuses(&format!("{what} without columns"), || run(vec![], vel, resampled, csv).unwrap()); }
    if r.p(0.03) { return refuses(&format!("{what} of a file that is not there"), || run(columns.to_vec(), vel, resampled, "/none/at/all.csv").unwrap()); }
    // the trajectories, as t x y z vx vy vz
    let table: Vec<Vec<f64>> = rows.iter().map(|x| columns.iter().map(|c| x[*c as usize]).collect()).collect();
    let mut parts: Vec<Vec<Vec<f64>>> = vec![];
    let (end, most);
    if chain {
        for (i, x) in table.iter().enumerate() { if i == 0 || x[0] < table[i - 1][0] { parts.push(vec![]); } parts.last_mut().unwrap().push(x.clone()); }
        end = parts.iter().fold(0f64, |e, p| e.max(p[p.len() - 1][0]));
        most = parts.iter().map(|p| p.len()).max().unwrap();
        parts.retain(|p| p.len() >= 10);
        if parts.is_empty() { return Ok(()); }
    } else {
        let mut ids: Vec<usize> = table.iter().map(|x| x[1] as usize).collect();
        ids.sort();
        ids.dedup();
        for i in ids { parts.push(table.iter().filter(|x| x[1] as usize == i).map(|x| { let mut x = x.clone(); x.remove(1); x }).collect()); }
        for p in &mut parts { p.sort_by(|a, b| a[0].partial_cmp(&b[0]).unwrap()); }
        end = table.iter().fold(f64::NEG_INFINITY, |e, x| e.max(x[0]));
        most = parts.iter().map(|p| p.len()).max().unwrap();
    }
    if !vel {
        let n = if chain { r.r(5, 7) } else { 8 };
        if r.p(0.05) { return refuses(&format!("{what} with the velocity to be computed and given"), || run(columns[..n].to_vec(), true, false, csv).unwrap()); }
        if r.p(0.05) { return refuses(&format!("{what} without the velocity"), || run(columns[..columns.len() - 3].to_vec(), false, false, csv).unwrap()); }
        if r.p(0.05) && !chain { let n = r.pick(&[1, 2, 3, 4, 6, 7]); return refuses(&format!("{what} with {n} columns"), || run(columns[..n].to_vec(), false, false, csv).unwrap()); }
    }
    if resampled { for p in &mut parts { *p = resample(p, end, most); } }
    if vel { for p in &mut parts { if p.len() < 9 { return Ok(()); } *p = with_velocities(p, 9); } }
    if parts.iter().any(|p| p[0][6].is_nan()) { return refuses(&format!("{what} without the velocity of the first record"), || run(columns.to_vec(), vel, resampled, csv).unwrap()); }
    let Some(parts) = parts.iter().map(|p| kept(p)).collect::<Option<Vec<_>>>() else { return refuses(what, || run(columns.to_vec(), vel, resampled, csv).unwrap()); };
    run(columns.to_vec(), vel, resampled, csv).map_err(|e| format!("{what} {e}"))?;
    (|| {
        let c = hdf5::get(out).ok_or("no file was written".to_string())?;
        let n = parts.len();
        ensure(c.groups.len() == n, || format!("groups {:?}, for {n} trajectories", c.groups.keys()))?;
        let times = |p: usize| parts[p].iter().map(|x| x[0]).collect::<Vec<f64>>();
        let mut sample = 0.;
        for (i, p) in parts.iter().enumerate() {
            let g = format!("particle {i}");
            let g = Some(g.as_str());
            let (k, t) = (p.len(), times(i));
            holds(&c, g, false, "time", &list(&t))?;
            holds(&c, g, false, "position", &grid(p, 1..4))?;
            holds(&c, g, false, "velocity", &grid(p, 4..7))?;
            for (name, x) in [("id", if chain { 1. } else { i as f64 }), ("radius", radius), ("ppcloud", 1.), ("particletype", if chain { 1. } else { 0. })] { holds(&c, g, false, name, &list(&vec![x; k]))?; }
            if k > 1 { sample = t[k - 1] - t[k - 2]; }
        }
        let steps = parts.iter().map(|p| p.len()).min().unwrap();
        holds(&c, None, false, "time array", &list(&times(0)[..steps]))?;
        for (name, x) in [("hdf5_up4_type", 2.), ("particle number", n as f64), ("timesteps", steps as f64), ("sample rate", sample)] { holds(&c, None, true, name, &scalar(x))?; }
        let span = |f: fn(f64, f64) -> f64, x: f64| parts.iter().flatten().fold(x, |a, b| f(a, b[0]));
        holds(&c, None, true, "time", &list(&[span(f64::min, f64::INFINITY), span(f64::max, f64::NEG_INFINITY)]))?;
        stats(parts.iter().flatten(), 1).held(&c)?;
        // and read back
        let mut d = PData::new(out);
        let s = d.global_stats();
        ensure(*s.timesteps() == steps && *s.nparticles() == n, || format!("read back, the statistics are {s:?}"))?;
        for k in 0..steps {
            let t = d.get_timestep(k);
            ensure(tol(*t.time(), parts[0][k][0], 1e-9) && t.position().len() == n && parts.iter().enumerate().all(|(i, p)| (0..3).all(|a| tol(t.position()[i][a], p[k][1 + a], 1e-9) && tol(t.velocity()[[i, a]], p[k][4 + a], 1e-6)) && t.radius()[i] == radius && t.ptype()[i] == if chain { 1. } else { 0. }),
                || format!("read back, timestep {k} is {t:?}, the records are {:?}", parts.iter().map(|p| &p[k]).collect::<Vec<_>>()))?;
        }
        Ok(())
    })().map_err(|m: String| format!("{what}: {m}"))
}
