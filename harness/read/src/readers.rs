//! C32: the two file readers on files in memory.
use crate::common::*;
use ndarray::prelude::*;
use upppp_rust::datamanager::*;

/// the value of entry (k, p, c) of a dataset: no two are alike
fn val(set: usize, k: usize, p: usize, c: usize) -> f64 { (set * 1_000_000_007 + k * 64 + p * 4 + c) as f64 + 0.25 }
/// has: which datasets every group holds; gap: the group that lacks one more of them
struct F { time_based: bool, n: usize, np: Vec<usize>, has: Vec<bool>, gap: Option<(usize, usize)>, name: String }
const SETS: [&str; 5] = ["radius", "particletype", "density", "ppcloud", "id"];
fn arr1(n: usize, f: impl FnMut(usize) -> f64) -> ArrayD<f64> { Array1::from_iter((0..n).map(f)).into_dyn() }
fn scalar(x: f64) -> ArrayD<f64> { arr0(x).into_dyn() }
impl F {
    fn has(&self, g: usize, s: usize) -> bool { self.has[s] && self.gap != Some((g, s)) }
    fn write(&self) {
        let mut c = hdf5::Content::default();
        let np = *self.np.iter().max().unwrap();
        c.attrs.insert("dimensions".into(), Array2::from_shape_fn((2, 3), |(i, j)| val(9, i, j, 0)).into_dyn());
        c.attrs.insert("particle number".into(), scalar(np as f64));
        c.attrs.insert("timesteps".into(), scalar(self.n as f64));
        c.attrs.insert("time".into(), arr1(2, |i| val(10, i, 0, 0)));
        c.attrs.insert("sample rate".into(), scalar(0.5));
        c.attrs.insert("velocity".into(), Array2::from_shape_fn((3, 3), |(i, j)| val(11, i, j, 0)).into_dyn());
        c.attrs.insert("velocity magnitude".into(), arr1(3, |i| val(12, i, 0, 0)));
        c.sets.insert("time array".into(), arr1(self.n, |k| val(0, k, 0, 0)));
        let groups = if self.time_based { self.n } else { np };
        for g in 0..groups {
            let mut h = hdf5::Content::default();
            let m = if self.time_based { self.np[g] } else { self.n };
            let at = |i: usize| if self.time_based { (g, i) } else { (i, g) };
            h.sets.insert("position".into(), Array2::from_shape_fn((m, 3), |(i, j)| val(1, at(i).0, at(i).1, j)).into_dyn());
            h.sets.insert("velocity".into(), Array2::from_shape_fn((m, 3), |(i, j)| val(2, at(i).0, at(i).1, j)).into_dyn());
            for (s, name) in SETS.iter().enumerate() {
                if self.has(g, s) { h.sets.insert(name.to_string(), arr1(m, |i| val(3 + s, at(i).0, at(i).1, 0))); }
            }
            h.sets.insert("time".into(), if self.time_based { scalar(val(0, g, 0, 0)) } else { arr1(m, |i| val(0, i, 0, 0)) });
            c.groups.insert(if self.time_based { format!("timestep {g}") } else { format!("particle {g}") }, h);
        }
        hdf5::put(&self.name, c);
    }
    fn check(&self, t: &Timestep, k: usize) -> R {
        let n = if self.time_based { self.np[k] } else { self.np[0] };
        let bad = |what: &str, x: String| Err(format!("{what}: {x}"));
        if *t.time() != val(0, k, 0, 0) { return bad("time", t.time().to_string()); }
        if t.position().len() != n || t.velocity().dim() != (n, 3) { return bad("number of particles", t.position().len().to_string()); }
        for p in 0..n { for c in 0..3 {
            if t.position()[p][c] != val(1, k, p, c) { return bad(&format!("position of particle {p}"), format!("{:?}", t.position()[p])); }
            if t.velocity()[[p, c]] != val(2, k, p, c) { return bad(&format!("velocity of particle {p}"), format!("{}", t.velocity().row(p))); }
        } }
        for (s, (name, a)) in [("radius", t.radius()), ("particletype", t.ptype()), ("density", t.density()), ("ppcloud", t.clouds()), ("id", t.particleid())].iter().enumerate() {
            if a.len() != n { return bad(name, format!("{} values", a.len())); }
            for p in 0..n {
                // in a file by particle, the id is the number of the particle's group, and every particle stands for one
                let want = if !self.time_based && s == 4 { p as f64 } else if !self.time_based && s == 3 { 1. } else if self.has(if self.time_based { k } else { p }, s) { val(3 + s, k, p, 0) } else if self.time_based { 1. } else { 0. };
                if a[p] != want { return bad(&format!("{name} of particle {p}"), format!("{}, expected {want}", a[p])); }
            }
        }
        Ok(())
    }
}
fn history(r: &mut Rng, f: &F, d: &mut dyn DataManager, log: &mut Vec<String>) -> R {
    let g = d.global_stats();
    let np = *f.np.iter().max().unwrap();
    ensure(*g.timesteps() == f.n && *g.nparticles() == np && g.time_array().len() == f.n && *g.min_time() == val(10, 0, 0, 0) && *g.max_time() == val(10, 1, 0, 0) && *g.sample_rate() == 0.5
        && (0..f.n).all(|k| g.time_array()[k] == val(0, k, 0, 0)) && (0..3).all(|j| g.velocity_mag()[j] == val(12, j, 0, 0) && g.dimensions()[[0, j]] == val(9, 0, j, 0) && g.dimensions()[[1, j]] == val(9, 1, j, 0)
        && (0..3).all(|i| g.velocity()[[i, j]] == val(11, i, j, 0))), || format!("global_stats is not what the file holds: {g:?}"))?;
    let mut open: Vec<usize> = vec![];
    let mut last = 0;
    for _ in 0..if f.n > 100 { r.r(6, 24) } else { r.r(2, 14) } {
        let k = if r.p(0.3) { r.pick(&[0, f.n - 1, f.n / 2, 19_999.min(f.n - 1), 20_000.min(f.n - 1), 20_001.min(f.n - 1)]) } else if r.p(0.5) { let w = r.pick(&[1, 1, 900]); let j = last + r.n(2 * w + 1); if j > w && j - w < f.n { j - w } else { 0 } } else { r.n(f.n) };
        last = k;
        let what = match r.n(5) {
            0 | 1 => { log.push(format!("get_timestep({k})")); guard(|| f.check(d.get_timestep(k), k)) }
            2 => { log.push(format!("get_timestep_unbuffered({k})")); guard(|| f.check(&d.get_timestep_unbuffered(k), k)) }
            3 if !open.is_empty() && r.p(0.3) => { let b = r.pick(&open); log.push(format!("setup_buffer({b})")); guard(|| { d.setup_buffer(b); Ok(()) }) }
            3 if open.len() < 3 && (open.is_empty() || r.p(0.3)) => { let b = if r.p(0.2) { r.n(4) } else if open.is_empty() { 0 } else { r.n(open.len() + 1) }; log.push(format!("setup_buffer({b})")); if !open.contains(&b) { open.push(b); } guard(|| { d.setup_buffer(b); Ok(()) }) }
            _ if open.is_empty() => Ok(Ok(())),
            _ => { let b = r.pick(&open); log.push(format!("get_timestep_buffer({k}, {b})")); guard(|| f.check(d.get_timestep_buffer(k, b), k)) }
        };
        match what { Ok(Ok(())) => {} Ok(Err(m)) | Err(m) => return Err(m) }
    }
    Ok(())
}
pub fn c32(r: &mut Rng) -> R {
    let time_based = r.p(0.5);
    // longer than a buffer in three cases out of five; most of these share a few files
    let small = r.p(0.4);
    let shared = !small && r.p(0.85);
    let n = if small { r.r(1, 6) } else if shared { r.pick(&[20_001, 45_000, 60_010]) } else if r.p(0.5) { r.pick(&[19_999, 20_000, 39_999, 40_000, 40_001]) } else { r.r(20_001, 65_000) };
    let np = if shared { 2 } else { r.r(1, if small { 4 } else { 2 }) };
    let np: Vec<usize> = if time_based && small { (0..n).map(|_| r.r(0, np)).collect() } else { vec![np; n] };
    let mut has = vec![true; 5];
    let mut gap = None;
    // datasets that the readers do without
    if shared { if n == 45_000 { has[2] = false } else { gap = Some((1, 2)) } } else {
        if r.p(0.2) { has[2] = false; }
        if !time_based && r.p(0.1) { has[r.n(5)] = false; }
        if r.p(0.3) { gap = Some((r.n(if time_based { n } else { np[0].max(1) }), if time_based { 2 } else { r.pick(&[0, 1, 2]) })); }
    }
    let f = F { time_based, n, np, has, gap, name: if shared { format!("shared {time_based} {n}") } else { format!("{}", r.u()) } };
    if !shared || hdf5::File::open(&f.name).is_err() { f.write(); }
    let mut log = vec![];
    let res = guard(|| {
        if time_based { let mut d = TData::new(&f.name); history(r, &f, &mut d, &mut log) } else { let mut d = PData::new(&f.name); history(r, &f, &mut d, &mut log) }
    });
    if !shared { hdf5::remove(&f.name); }
    match res { Ok(Ok(())) => Ok(()), Ok(Err(m)) | Err(m) => Err(format!("file by {} with {n} timesteps, {} particles, datasets {:?} without {:?}: after {}: {m}", if time_based { "timestep" } else { "particle" }, f.np.iter().max().unwrap(), f.has, f.gap, log.join(", "))) }
}
