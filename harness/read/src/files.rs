//! C39: one CSV file per timestep, through the converter, in the file and read back.
use crate::common::*;
use crate::convert::*;
use upppp_rust::csv_multi_file_time_step;
use upppp_rust::datamanager::*;

pub fn c39(r: &mut Rng) -> R {
    let files = if r.p(0.02) { 0 } else if r.p(0.05) { r.r(9, 13) } else { r.r(1, 5) };
    let cols = if r.p(0.6) { 7 } else { 4 };
    let w = r.r(cols, cols + 2);
    let mut order: Vec<usize> = (0..w).collect();
    for i in (1..w).rev() { let j = r.n(i + 1); order.swap(i, j); }
    let columns: Vec<i64> = order[..cols].iter().map(|c| *c as i64).collect();
    let same = r.p(0.3);
    let n = r.r(1, 6);
    let mut t = r.pick(&[0., 0., 1., -3., 0.25]);
    let back = if r.p(0.2) { 0.4 } else { 0. };
    let equal = r.pick(&[0., 0., 0.3]);
    let times: Vec<f64> = (0..files + r.pick(&[0, 0, 0, 1, 3])).map(|_| { let x = t; if !r.p(equal) { t += r.pick(&[0.25, 0.5, 1., 2.]) * if r.p(back) { -1. } else { 1. }; } x }).collect();
    let rows: Vec<Vec<Vec<f64>>> = (0..files).map(|_| {
        let n = if same { n } else { r.r(1, 6) };
        (0..n).map(|i| {
            let mut x: Vec<f64> = (0..w).map(|_| if r.p(0.03) { 0. } else { r.small() }).collect();
            x[order[0]] = if r.p(0.8) { i as f64 } else { r.pick(&[7., 12., 0.5, -1.]) };
            if r.p(0.02) { x[order[1 + r.n(cols - 1)]] = f64::NAN; }
            x
        }).collect()
    }).collect();
    let (delim, comment, header) = (r.pick(&[",", ";", "\t", " "]), r.pick(&["#", "%", "!"]), r.p(0.5));
    let texts: Vec<String> = rows.iter().map(|x| csv_text(r, x, w, delim, comment, header)).collect();
    let radius = r.small();
    let dir = Folder::new(r);
    let out = dir.file("out.hdf5");
    let csv: Vec<String> = (0..files).map(|k| dir.file(&format!("{}.csv", files - k))).collect();
    for (name, text) in csv.iter().zip(&texts) { std::fs::write(name, text).unwrap(); }
    let what = format!("csv_multi_file_time_step(columns {columns:?}, times {times:?}, delimiter {delim:?}, header {header}, comment {comment:?}, radius {radius}) of the files {texts:?}");
    let res = check(r, &what, &rows, &columns, &times, delim, comment, header, radius, &csv, &out);
    hdf5::remove(&out);
    res
}
fn check(r: &mut Rng, what: &str, rows: &[Vec<Vec<f64>>], columns: &[i64], times: &[f64], delim: &str, comment: &str, header: bool, radius: f64, csv: &[String], out: &str) -> R {
    let run = |columns: Vec<i64>, names: Vec<&str>| guard(|| csv_multi_file_time_step(names, out, columns, times.to_vec(), delim, header, comment, false, false, radius));
    let names: Vec<&str> = csv.iter().map(|s| s.as_str()).collect();
    let (n, cols) = (rows.len(), columns.len());
    if r.p(0.05) { let k = r.pick(&[0usize, 1, 3, 5, 6]).min(cols); let k = if k == 4 { 3 } else { k }; return refuses(&format!("{what} with only {k} columns"), || run(columns[..k].to_vec(), names.clone()).unwrap()); }
    if r.p(0.02) { let mut c = columns.to_vec(); c.push(c[0]); return refuses(&format!("{what} with {} columns", c.len()), || run(c, names.clone()).unwrap()); }
    if r.p(0.03) && n > 0 { let mut f = names.clone(); f[r.n(n)] = "/none/at/all.csv"; return refuses(&format!("{what} with a file that is not there"), || run(columns.to_vec(), f).unwrap()); }
    run(columns.to_vec(), names).map_err(|e| format!("{what} {e}"))?;
    // the timesteps, as id x y z vx vy vz
    let steps: Vec<Vec<Vec<f64>>> = rows.iter().map(|t| t.iter().map(|x| (0..7).map(|c| if c < cols { x[columns[c] as usize] } else { f64::NAN }).collect()).collect()).collect();
    (|| {
        let c = hdf5::get(out).ok_or("no file was written".to_string())?;
        ensure(c.groups.len() == n, || format!("groups {:?}, for {n} files", c.groups.keys()))?;
        for (k, x) in steps.iter().enumerate() {
            let g = format!("timestep {k}");
            let g = Some(g.as_str());
            holds(&c, g, false, "time", &scalar(times[k]))?;
            holds(&c, g, false, "id", &list(&x.iter().map(|x| x[0]).collect::<Vec<f64>>()))?;
            holds(&c, g, false, "position", &grid(x, 1..4))?;
            holds(&c, g, false, "velocity", &grid(x, 4..7))?;
            for (name, v) in [("radius", radius), ("ppcloud", 0.), ("particletype", 0.)] { holds(&c, g, false, name, &list(&vec![v; x.len()]))?; }
        }
        let most = steps.iter().map(|x| x.len()).max().unwrap_or(0);
        let sample = if n == 0 { 0. } else if n == 1 { times[0] } else { times[n - 1] - times[n - 2] };
        for (name, x) in [("hdf5_up4_type", 1.), ("particle number", most as f64), ("timesteps", n as f64), ("sample rate", sample)] { holds(&c, None, true, name, &scalar(x))?; }
        holds(&c, None, false, "time array", &list(&times[..n]))?;
        holds(&c, None, true, "time", &list(&[times[..n].iter().fold(f64::INFINITY, |a, b| a.min(*b)), times[..n].iter().fold(f64::NEG_INFINITY, |a, b| a.max(*b))]))?;
        stats(steps.iter().flatten(), 1).held(&c)?;
        if n == 0 { return Ok(()); }
        // and read back
        let mut d = TData::new(out);
        let s = d.global_stats();
        ensure(*s.timesteps() == n && *s.nparticles() == most, || format!("read back, the statistics are {s:?}"))?;
        let same = |a: f64, b: f64| a == b || (a.is_nan() && b.is_nan()) || tol(a, b, 1e-9);
        for (k, x) in steps.iter().enumerate() {
            let t = d.get_timestep(k);
            let m = x.len();
            ensure(*t.time() == times[k] && t.position().len() == m && t.velocity().dim() == (m, 3) && [t.radius(), t.particleid(), t.ptype(), t.clouds(), t.density()].iter().all(|a| a.len() == m)
                && (0..m).all(|i| (0..3).all(|a| same(t.position()[i][a], x[i][1 + a]) && same(t.velocity()[[i, a]], x[i][4 + a])) && same(t.particleid()[i], x[i][0]) && t.radius()[i] == radius && t.ptype()[i] == 0. && t.clouds()[i] == 0. && t.density()[i] == 1.),
                || format!("read back, timestep {k} is {t:?}, the records are {x:?}"))?;
        }
        Ok(())
    })().map_err(|m: String| format!("{what}: {m}"))
}
