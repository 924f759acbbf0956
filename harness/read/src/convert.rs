//! C36: a single trajectory from a CSV file, through the converter, in the file and read back.
use crate::common::*;
use ndarray::prelude::*;
use std::path::PathBuf;
use upppp_rust::csv_converter;
use upppp_rust::datamanager::*;

/// a folder of its own, gone when dropped
pub struct Folder(pub PathBuf);
impl Folder {
    pub fn new(r: &mut Rng) -> Folder { let p = std::env::temp_dir().join(format!("up4_{}_{}", std::process::id(), r.u())); std::fs::create_dir_all(&p).unwrap(); Folder(p) }
    pub fn file(&self, n: &str) -> String { self.0.join(n).to_str().unwrap().to_string() }
}
impl Drop for Folder { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
fn at(c: &hdf5::Content, g: Option<&str>, attr: bool, n: &str) -> Result<ArrayD<f64>, String> {
    let c = match g { None => c, Some(g) => c.groups.get(g).ok_or(format!("no group \"{g}\""))? };
    if attr { &c.attrs } else { &c.sets }.get(n).cloned().ok_or(format!("no \"{n}\""))
}
pub fn holds(c: &hdf5::Content, g: Option<&str>, attr: bool, n: &str, want: &ArrayD<f64>) -> R {
    let got = at(c, g, attr, n)?;
    let place = g.map(|g| format!(" in group \"{g}\"")).unwrap_or_default();
    ensure(got.shape() == want.shape(), || format!("\"{n}\"{place} has shape {:?}, expected {:?}", got.shape(), want.shape()))?;
    ensure(got.iter().zip(want.iter()).all(|(a, b)| a == b || tol(*a, *b, 1e-6)), || format!("\"{n}\"{place} is {got}, expected {want}"))
}
pub fn scalar(x: f64) -> ArrayD<f64> { arr0(x).into_dyn() }
pub fn list(v: &[f64]) -> ArrayD<f64> { Array1::from(v.to_vec()).into_dyn() }
pub fn grid(v: &[Vec<f64>], cols: std::ops::Range<usize>) -> ArrayD<f64> { Array2::from_shape_fn((v.len(), cols.len()), |(i, j)| v[i][cols.start + j]).into_dyn() }
fn least_squares(t: &[f64], y: &[f64]) -> [f64; 3] {
    let mut m = [[0f64; 4]; 3];
    for (t, y) in t.iter().zip(y) { for i in 0..3 { for j in 0..3 { m[i][j] += t.powi((i + j) as i32); } m[i][3] += y * t.powi(i as i32); } }
    for i in 0..3 {
        let p = (i..3).max_by(|a, b| m[*a][i].abs().partial_cmp(&m[*b][i].abs()).unwrap()).unwrap();
        m.swap(i, p);
        for k in 0..3 { if k != i { let f = m[k][i] / m[i][i]; for j in 0..4 { m[k][j] -= f * m[i][j]; } } }
    }
    [m[0][3] / m[0][0], m[1][3] / m[1][1], m[2][3] / m[2][2]]
}
/// the table a trajectory is resampled to (property C31): one row per step, evenly from time zero to the end
pub fn resample(d: &[Vec<f64>], end: f64, steps: usize) -> Vec<Vec<f64>> {
    let n = d.len();
    let dt = end / steps as f64;
    let mut out = vec![d[0][..4].to_vec()];
    let mut m = 1;
    for k in 1..steps.max(1) - 1 {
        let t = k as f64 * dt;
        while m + 1 < n && !((t - d[m][0]).abs() < (t - d[m + 1][0]).abs()) { m += 1; }
        let miss = m + 1 >= n || d[m - 1][0] == d[m + 1][0];
        out.push((0..4).map(|c| if c == 0 { t } else if miss { f64::NAN } else { d[m - 1][c] + (d[m + 1][c] - d[m - 1][c]) / (d[m + 1][0] - d[m - 1][0]) * (t - d[m - 1][0]) }).collect());
    }
    out.truncate(steps - 1);
    out.push(d[n - 1][..4].to_vec());
    out
}
/// positions with velocities from a parabola through `steps` records (property C35)
pub fn with_velocities(d: &[Vec<f64>], steps: usize) -> Vec<Vec<f64>> {
    let h = (steps - 1) / 2;
    let mut e = vec![];
    for i in h..d.len().max(2 * h) - h {
        let t: Vec<f64> = (i - h..=i + h).map(|j| d[j][0] - d[i][0]).collect();
        let mut x = d[i][..4].to_vec();
        for c in 1..4 { let y: Vec<f64> = (i - h..=i + h).map(|j| d[j][c]).collect(); x.push(if y.iter().all(|y| y.is_finite()) { least_squares(&t, &y)[1] } else { f64::NAN }); }
        e.push(x);
    }
    e
}
/// the records later than the one kept before; None where more than 500 in a row are not
pub fn kept(d: &[Vec<f64>]) -> Option<Vec<Vec<f64>>> {
    let mut kept: Vec<Vec<f64>> = vec![];
    let mut behind = 0;
    for x in d {
        if kept.last().map_or(false, |y| x[0] <= y[0]) { behind += 1; if behind > 500 { return None; } continue; }
        behind = 0;
        kept.push(x.clone());
    }
    Some(kept)
}
/// the rows of a CSV file, with comments and a header where asked
pub fn csv_text(r: &mut Rng, rows: &[Vec<f64>], w: usize, delim: &str, comment: &str, header: bool) -> String {
    let mut text = String::new();
    let note = |r: &mut Rng, text: &mut String| if r.p(0.1) { text.push_str(&format!("{comment} a line {delim} that is left out\n")) };
    note(r, &mut text);
    if header { text.push_str(&vec!["7"; w].join(delim)); text.push('\n'); }
    for x in rows { note(r, &mut text); text.push_str(&x.iter().map(|v| format!("{v:?}")).collect::<Vec<_>>().join(delim)); text.push('\n'); }
    text
}
pub struct Stats { pub dim: [[f64; 3]; 2], pub vel: [[f64; 3]; 3], pub mag: [f64; 3] }
/// rows: [.., x, y, z, vx, vy, vz] from column `at`
pub fn stats<'a>(rows: impl Iterator<Item = &'a Vec<f64>>, at: usize) -> Stats {
    let (mut s, mut n) = (Stats { dim: [[f64::MAX; 3], [f64::MIN; 3]], vel: [[f64::MAX, 0., f64::MIN]; 3], mag: [f64::MAX, 0., f64::MIN] }, 0.);
    for x in rows {
        let v = &x[at + 3..at + 6];
        for i in 0..3 {
            if x[at + i] < s.dim[0][i] { s.dim[0][i] = x[at + i]; }
            if x[at + i] > s.dim[1][i] { s.dim[1][i] = x[at + i]; }
            if v[i] < s.vel[i][0] { s.vel[i][0] = v[i]; }
            if v[i] > s.vel[i][2] { s.vel[i][2] = v[i]; }
            s.vel[i][1] += v[i];
        }
        let m = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
        if m < s.mag[0] { s.mag[0] = m; }
        if m > s.mag[2] { s.mag[2] = m; }
        s.mag[1] += m;
        n += 1.;
    }
    for i in 0..3 { s.vel[i][1] /= n; }
    s.mag[1] /= n;
    s
}
impl Stats {
    pub fn held(&self, c: &hdf5::Content) -> R {
        holds(c, None, true, "dimensions", &Array2::from_shape_fn((2, 3), |(i, j)| self.dim[i][j]).into_dyn())?;
        holds(c, None, true, "velocity", &Array2::from_shape_fn((3, 3), |(i, j)| self.vel[i][j]).into_dyn())?;
        holds(c, None, true, "velocity magnitude", &list(&self.mag))
    }
}
pub fn c36(r: &mut Rng) -> R {
    let vel = r.p(0.4);
    let resampled = vel && r.p(0.5);
    let steps = if vel { r.pick(&[3usize, 5, 5, 7]) } else { 5 };
    let long = r.p(0.02);
    let n = if long { r.r(900, 2500) } else if vel { r.r(steps.max(3), steps + 8) } else { r.r(1, 10) };
    let w = r.r(if vel { 4 } else { 7 }, 9);
    // which columns of the file hold time, position and velocity
    let mut order: Vec<usize> = (0..w).collect();
    for i in (1..w).rev() { let j = r.n(i + 1); order.swap(i, j); }
    let columns: Vec<i64> = order[..if vel { 4 } else { 7 }].iter().map(|c| *c as i64).collect();
    let mut t = r.pick(&[0., 0., 1., 100., -3., -0.5]);
    let equal = if vel { 0. } else { r.pick(&[0., 0., 0.2, 0.6]) };
    let (mut from, mut to) = (n, 0);
    if long && !vel { let k = r.pick(&[499usize, 500, 500, 501, 520]).min(n - 2); from = 1 + r.n(n - k); to = from + k; }
    let mut rows: Vec<Vec<f64>> = (0..n).map(|i| {
        if i > 0 && !r.p(equal) && !(from <= i && i < to) { t += r.pick(&[0.25, 0.5, 1., 0.125, 2.]); }
        let mut x: Vec<f64> = (0..w).map(|_| r.small()).collect();
        x[order[0]] = t;
        x
    }).collect();
    if r.p(0.4) { for _ in 0..r.r(1, 4) { let (a, b) = (r.n(n), r.n(n)); rows.swap(a, b); } }
    if r.p(0.03) && !vel { let i = r.n(n); rows[i][order[1 + r.n(6)]] = f64::NAN; }
    let (delim, comment, header) = (r.pick(&[",", ";", "\t", " "]), r.pick(&["#", "%", "!"]), r.p(0.5));
    let text = csv_text(r, &rows, w, delim, comment, header);
    let radius = r.small();
    let dir = Folder::new(r);
    let (csv, out) = (dir.file("in.csv"), dir.file("out.hdf5"));
    std::fs::write(&csv, &text).unwrap();
    let what = format!("csv_converter(columns {columns:?}, delimiter {delim:?}, header {header}, comment {comment:?}, vel {vel}, interpolate {resampled}, radius {radius}, sampling_steps {steps}) of {}", if n > 30 { format!("{n} records") } else { format!("the file {text:?}") });
    let res = check(r, &what, &rows, &columns, delim, comment, header, vel, resampled, steps, radius, &csv, &out);
    hdf5::remove(&out);
    res
}
fn check(r: &mut Rng, what: &str, rows: &[Vec<f64>], columns: &[i64], delim: &str, comment: &str, header: bool, vel: bool, resampled: bool, steps: usize, radius: f64, csv: &str, out: &str) -> R {
    let run = |columns: Vec<i64>, vel: bool, name: &str| guard(|| csv_converter(name, out, columns, delim, header, comment, vel, resampled, radius, steps));
    if r.p(0.03) { return refuses(&format!("{what} without columns"), || run(vec![], vel, csv).unwrap()); }
    if r.p(0.03) { return refuses(&format!("{what} of a file that is not there"), || run(columns.to_vec(), vel, "/none/at/all.csv").unwrap()); }
    if r.p(0.05) && !vel { let n = r.r(5, 7); return refuses(&format!("{what} with the velocity to be computed and given"), || run(columns[..n].to_vec(), true, csv).unwrap()); }
    if r.p(0.05) && !vel { return refuses(&format!("{what} without the velocity"), || run(columns[..4].to_vec(), false, csv).unwrap()); }
    // the table that is converted
    let mut d: Vec<Vec<f64>> = rows.iter().map(|x| columns.iter().map(|c| x[*c as usize]).collect()).collect();
    if (0..d.len()).any(|i| d[i].iter().any(|x| x.is_nan())) && d.iter().any(|x| x[0].is_nan()) { return Ok(()); }
    d.sort_by(|a, b| a[0].partial_cmp(&b[0]).unwrap());
    if resampled { let t0 = d[0][0]; for x in &mut d { x[0] -= t0; } let (end, n) = (d[d.len() - 1][0], d.len()); d = resample(&d, end, n); }
    if vel { d = with_velocities(&d, steps); }
    if d.is_empty() || d[0][6].is_nan() { return refuses(&format!("{what} without the velocity of the first record"), || run(columns.to_vec(), vel, csv).unwrap()); }
    let Some(kept) = kept(&d) else { return refuses(what, || run(columns.to_vec(), vel, csv).unwrap()); };
    run(columns.to_vec(), vel, csv).map_err(|e| format!("{what} {e}"))?;
    (|| {
        let c = hdf5::get(out).ok_or("no file was written".to_string())?;
        let k = kept.len();
        let g = Some("particle 0");
        let times: Vec<f64> = kept.iter().map(|x| x[0]).collect();
        ensure(c.groups.len() == 1, || format!("groups {:?}", c.groups.keys()))?;
        holds(&c, g, false, "time", &list(&times))?;
        holds(&c, g, false, "position", &grid(&kept, 1..4))?;
        holds(&c, g, false, "velocity", &grid(&kept, 4..7))?;
        for (name, x) in [("id", 1.), ("radius", radius), ("ppcloud", 1.), ("particletype", 1.)] { holds(&c, g, false, name, &list(&vec![x; k]))?; }
        holds(&c, None, false, "time array", &list(&times))?;
        for (name, x) in [("hdf5_up4_type", 2.), ("particle number", 1.), ("timesteps", k as f64), ("sample rate", if k > 1 { times[k - 1] - times[k - 2] } else { 0. })] { holds(&c, None, true, name, &scalar(x))?; }
        holds(&c, None, true, "time", &list(&[times[0], times[k - 1]]))?;
        stats(kept.iter(), 1).held(&c)?;
        // and read back
        let mut p = PData::new(out);
        let s = p.global_stats();
        ensure(*s.timesteps() == k && *s.nparticles() == 1 && *s.min_time() == times[0] && tol(*s.max_time(), times[k - 1], 1e-9), || format!("read back, the statistics are {s:?}"))?;
        for i in 0..k {
            let t = p.get_timestep(i);
            ensure(tol(*t.time(), times[i], 1e-9) && t.position().len() == 1 && (0..3).all(|a| tol(t.position()[0][a], kept[i][1 + a], 1e-9) && tol(t.velocity()[[0, a]], kept[i][4 + a], 1e-6)) && t.radius()[0] == radius, || format!("read back, timestep {i} is {t:?}, the record is {:?}", kept[i]))?;
        }
        Ok(())
    })().map_err(|m: String| format!("{what}: {m}"))
}
