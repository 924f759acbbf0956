//! C11, C13-C29: selection, lookups, fields and series over a dataset, against direct definitions.
use crate::common::*;
use crate::grids::{collapse_two, velocity, Model};
use ndarray::prelude::*;
use upppp_rust::datamanager::*;
use upppp_rust::grid::*;
#[allow(unused_imports)]
use upppp_rust::grid::Dim;
use upppp_rust::particleselector::*;

fn want(min: usize, max: usize) -> Want { Want { min_steps: min, max_steps: max, vary: true, nan_vel: 0., calm: false, dyadic: true } }
struct Case { g: G, ds: Ds, sel: Sel, what: String }
fn case(r: &mut Rng, w: Want) -> Case {
    let mut g = G::some(r);
    if r.p(0.3) { g.cells = [r.r(1, 2), 1, 1]; }
    let ds = Ds::some(r, &g, w);
    let sel = Sel::some(r, &ds.times());
    let what = format!("grid {g:?} selection {sel:?} dataset {ds:?}");
    Case { g, ds, sel, what }
}
impl Case {
    fn run<T>(&self, f: impl FnOnce(&mut dyn Manager, &ParticleSelector) -> T) -> Result<T, String> {
        let s = self.sel.build();
        let mut m = self.ds.build();
        guard(|| f(&mut m, &s)).map_err(|e| format!("{e} ({})", self.what))
    }
    /// particles of selected timesteps that pass the selection
    fn each(&self, mut f: impl FnMut(usize, &Step, usize)) { for (k, s) in self.ds.steps.iter().enumerate() { if self.sel.at(s.time) { for p in 0..s.pos.len() { if self.sel.p(s, p) { f(k, s, p) } } } } }
    fn why(&self, e: String) -> String { format!("{e} ({})", self.what) }
}

pub fn c11(r: &mut Rng) -> R {
    let s = if r.p(0.1) { Sel::all() } else { Sel::wild(r) };
    let mut b = s.build();
    let dflt = r.p(0.15);
    let mut s = s;
    if dflt { b = ParticleSelector::default(); s = Sel::all(); }
    for round in 0..2 {
        for _ in 0..24 {
            let v = |r: &mut Rng| match r.n(12) { 0 => f64::NAN, 1 => r.fr(-1., 4.), 2 => -1., 3 => 0., _ => r.pick(&RADII) };
            let near = |r: &mut Rng, l: &[f64]| if r.p(0.7) { let x = r.pick(l); if r.p(0.85) { x } else { x + r.pick(&[1e-9, -1e-9, 0.25, -0.25]) } } else { v(r) };
            let x = [near(r, &s.radius), near(r, &s.clouds), near(r, &s.density)];
            let id = if r.p(0.6) { r.pick(&s.id) } else { r.n(9) };
            let got = guard(|| b.is_valid(x[0], x[1], x[2], id)).map_err(|e| format!("{s:?}: is_valid {e}"))?;
            ensure(got == s.takes(x[0], x[1], x[2], id), || format!("{s:?}: particle {x:?} number {id}: selected {got}"))?;
            let t = match r.n(8) { 0 => s.time.0, 1 => s.time.1, 2 => f64::NAN, 3 => s.time.0 - 1e-6, 4 => s.time.1 + 1e-6, _ => r.small() };
            ensure(b.timestep_valid(t) == s.at(t), || format!("{s:?}: time {t}: selected {}", b.timestep_valid(t)))?;
        }
        if round == 0 { let t = (r.small(), r.small() + 3.); b.set_time(t.0, t.1); s.time = t; ensure(b.time == t, || format!("set_time{t:?} gives {:?}", b.time))?; }
    }
    Ok(())
}
pub fn c13(r: &mut Rng) -> R {
    let most = if r.p(0.1) { 60 } else { 9 };
    let n = r.r(1, most);
    let mut t = vec![r.small()];
    for _ in 1..n { let l = t[t.len() - 1]; t.push(l + if r.p(0.5) { r.r(1, 8) as f64 / 4. } else { r.fr(0.01, 3.) }); }
    // in other units of time
    let unit = if r.p(0.25) { (r.n(81) as f64 - 40.).exp2() } else { 1. };
    let mut t: Vec<f64> = t.iter().map(|x| x * unit).collect();
    let mut unit = unit;
    // records close to one another, far from time zero
    if r.p(0.15) {
        let x: f64 = r.pick(&[1., 10., -2., 1e3, 0.5]);
        unit = (-(r.r(15, 48) as f64)).exp2() * x.abs();
        for i in 0..n { t[i] = if i == 0 { x } else { t[i - 1] + unit * r.r(1, 3) as f64 }; }
    }
    let st = GlobalStats::verif_new(Array2::zeros((2, 3)), 0, n, t[0], t[n - 1], 1., Array2::zeros((2, 3)), array![0., 0., 0.], Array1::from(t.clone()));
    for _ in 0..12 {
        let k = r.n(n);
        let s = match r.n(7) { 0 => t[k], 1 => t[0] - r.fr(1e-9, 2.) * unit, 2 => t[n - 1] + r.fr(1e-9, 2.) * unit, 3 => (t[k] + t[(k + 1).min(n - 1)]) / 2., 4 => t[0], 5 => if r.p(0.3) { r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]) } else { t[n - 1] }, _ => r.fr(t[0], t[n - 1]) };
        let what = format!("times {t:?}, lookup of {s}");
        match (guard(|| st.timestep_at_seconds_closest(s)).map_err(|e| format!("{what}: {e}"))?, nearest(&t, s)) {
            (Ok(a), Some(b)) => { if a != b { ensure(a < n && ((t[a] - s).abs() - (t[b] - s).abs()).abs() < 1e-12 * unit && (t[a] - s).abs() != (t[b] - s).abs(), || format!("{what}: index {a}, expected {b}"))?; } }
            (Err(_), None) => {}
            (a, b) => return Err(format!("{what}: {a:?}, expected {b:?}")),
        }
    }
    Ok(())
}
pub fn component(mode: &str, v: [f64; 3]) -> f64 {
    match mode { "absolute" => norm(v), "x" | "r" => v[0], "y" | "theta" => v[1], "z" => v[2], "xy" => (v[0] * v[0] + v[1] * v[1]).sqrt(), "xz" => (v[0] * v[0] + v[2] * v[2]).sqrt(), _ => (v[1] * v[1] + v[2] * v[2]).sqrt() }
}
pub const MODES: [&str; 9] = ["absolute", "x", "r", "y", "theta", "z", "xy", "xz", "yz"];
fn means(m: &mut Model) { let w = m.weight.clone(); for (k, x) in m.data.indexed_iter_mut() { *x /= w[k]; } }
pub fn c14(r: &mut Rng) -> R {
    let c = case(r, Want { nan_vel: 0.1, ..want(1, 5) });
    let mode = r.pick(&MODES);
    let speeds: Vec<f64> = c.ds.steps.iter().flat_map(|s| s.vel.iter().map(|v| component(mode, *v))).filter(|x| !x.is_nan()).collect();
    let exact = |r: &mut Rng, l: f64, h: f64| if speeds.is_empty() { r.fr(l, h) } else { r.pick(&speeds) };
    let (lo, hi) = match r.n(7) { 4 => (exact(r, -4., 1.), f64::MAX), 5 => (f64::MIN, exact(r, 0., 8.)), 6 => { let (a, b) = (exact(r, -4., 1.), exact(r, 0., 8.)); (a.min(b), a.max(b)) }, 0 => (f64::MIN, f64::MAX), 1 => (0., f64::MAX), 2 => (r.small() / 4., r.fr(0., 8.)), _ => (r.fr(-4., 1.), r.fr(1., 9.)) };
    let g = c.g.dirty(r);
    let what = format!("velocityfield {mode} limits {lo} {hi}");
    let got = c.run(|m, s| m.velocityfield(g.clone(), s, mode, lo, hi))?;
    let mut m = Model::new(&c.g);
    c.each(|_, s, p| { let v = component(mode, s.vel[p]); if !v.is_nan() && !(v < lo || v > hi) { m.add(s.pos[p], v); } });
    means(&mut m);
    m.check_all(&what, &*got).map_err(|e| c.why(e))?;
    let bad = r.pick(&["", "zz", "X", "abs", "velocity", "zx"]);
    refuses(&format!("velocity component {bad:?}"), || c.run(|m, s| m.velocityfield(g.clone(), s, bad, lo, hi)).unwrap())
}
pub fn c15(r: &mut Rng) -> R {
    let c = case(r, want(1, 6));
    let g = c.g.dirty(r);
    let got = c.run(|m, s| m.numberfield(g, s))?;
    let mut m = Model::new(&c.g);
    c.each(|_, s, p| m.add(s.pos[p], 1.));
    m.check_all("numberfield", &*got).map_err(|e| c.why(e))
}
pub fn c16(r: &mut Rng) -> R {
    let mut c = case(r, Want { nan_vel: 0.05, ..want(1, 5) });
    let ctr = c.g.center();
    // the angle of a position on the axis itself is not defined
    if c.g.cyl { for s in c.ds.steps.iter_mut() { for p in s.pos.iter_mut() { if (p[0] - ctr[0]).hypot(p[1] - ctr[1]) < 1e-6 { *p = c.g.calm(r); } } } }
    let g = c.g.dirty(r);
    let got = c.run(|m, s| m.vectorfield(g, s))?;
    for i in 0..3 {
        let mut m = Model::new(&c.g);
        c.each(|_, s, p| if !s.pos[p].iter().any(|x| x.is_nan()) { m.add(s.pos[p], velocity(&c.g, s.pos[p], s.vel[p])[i]); });
        means(&mut m);
        m.check_all(&format!("vectorfield component {i}"), &*got.data[i]).map_err(|e| c.why(e))?;
    }
    Ok(())
}
fn occupancy(c: &Case, min: f64) -> Model {
    let mut m = Model::new(&c.g);
    let mut total = 0.;
    let n = c.ds.steps.len();
    c.each(|k, s, p| {
        if k + 3 >= n || c.g.cell(s.pos[p]).is_none() || norm(s.vel[p]) < min { return; }
        let next = &c.ds.steps[k + 1];
        let dt = next.time - s.time;
        if dt < 0. || p >= next.pos.len() { return; }
        m.traj(s.pos[p], next.pos[p], dt);
        total += dt;
    });
    m.data /= total;
    m
}
pub fn c17(r: &mut Rng) -> R {
    let mut w = want(1, 8);
    if r.p(0.5) { w.vary = false; }
    let mut c = case(r, w);
    if r.p(0.2) { let k = r.n(c.ds.steps.len()); c.ds.steps[k].time -= 2.; c.what = format!("grid {:?} selection {:?} dataset {:?}", c.g, c.sel, c.ds); }
    let mut min = r.pick(&[0., 0., 1., 2., 5., -1.]);
    if r.p(0.25) { let k = r.n(c.ds.steps.len()); if let Some(v) = c.ds.steps[k].vel.first() { min = norm(*v); } }
    let g = c.g.dirty(r);
    let got = c.run(|m, s| m.occupancyfield(g.clone(), s, min))?;
    let m = occupancy(&c, min);
    m.check_all(&format!("occupancyfield, at least {min}"), &*got).map_err(|e| c.why(e))?;
    let h = c.run(|m, s| m.homogenity_index(g, s, min))?;
    let f = collapse_two(&m, 0, 1).0;
    let n = f.len() as f64;
    let mean = f.iter().filter(|x| !x.is_nan()).sum::<f64>() / n;
    let ih = (f.iter().filter(|x| !x.is_nan()).map(|x| (x - mean) * (x - mean)).sum::<f64>() / n).sqrt();
    ensure(same(h, ih), || c.why(format!("homogenity_index {h}, expected {ih} of {f:?}")))
}
pub fn c18(r: &mut Rng) -> R {
    let mut w = want(1, 7);
    w.vary = false;
    w.calm = r.p(0.8);
    let mut c = case(r, w);
    for s in c.ds.steps.iter_mut() { for p in s.pos.iter_mut() { for x in p.iter_mut() { if x.abs() > 1e3 { *x = f64::NAN; } } } }
    let dt = r.pick(&[0., 0.25, 0.5, 0.5, 1., 1.5, 0.3, -0.5]);
    let g = c.g.dirty(r);
    let (got, eff) = c.run(|m, s| m.dispersion(g, s, dt))?;
    let n = c.g.cells;
    let mut lists: Vec<Vec<[f64; 3]>> = vec![vec![]; n[0] * n[1] * n[2]];
    c.each(|_, s, p| if let (Some(k), Some(cell)) = (c.ds.nearest(s.time + dt), c.g.cell(s.pos[p])) { lists[(cell[0] * n[1] + cell[1]) * n[2] + cell[2]].push(c.ds.steps[k].pos[p]); });
    let mut m = Model::new(&c.g);
    let mut spread = 0f64;
    for (k, x) in m.data.indexed_iter_mut() {
        let l = &lists[(k.0 * n[1] + k.1) * n[2] + k.2];
        let q = l.len() as f64;
        if l.len() < 2 { continue; }
        let mut s = 0.;
        for a in 0..3 { let mean = l.iter().map(|v| v[a]).sum::<f64>() / q; s += l.iter().map(|v| (v[a] - mean) * (v[a] - mean)).sum::<f64>() / (q - 1.); spread = spread.max(mean * mean); }
        *x = s;
        m.weight[k] = 1.;
    }
    let t = 1e-9 * (1. + if spread.is_nan() { 0. } else { spread });
    for (k, x) in m.data.indexed_iter() {
        ensure(tol(got.get_data()[k], *x, t), || c.why(format!("dispersion after {dt}: cell {k:?} holds {}, expected {x}", got.get_data()[k])))?;
        ensure(same(got.get_weights()[k], m.weight[k]), || c.why(format!("dispersion after {dt}: cell {k:?} has weight {}, expected {}", got.get_weights()[k], m.weight[k])))?;
    }
    c.g.same_geometry("dispersion", &*got)?;
    let e = m.data.iter().zip(m.weight.iter()).filter(|(_, w)| **w > 0.).map(|(x, _)| *x).sum::<f64>() / m.weight.sum();
    ensure(tol(eff, e, 10. * t), || c.why(format!("mixing efficiency {eff}, expected {e}")))
}
pub fn c19(r: &mut Rng) -> R {
    let c = case(r, Want { nan_vel: 0.03, ..want(1, 6) });
    let mode = r.pick(&["x", "y", "z", "xyz"]);
    let g = c.g.dirty(r);
    let got = c.run(|m, s| m.granular_temperature_field(g.clone(), s, mode))?;
    let n = c.g.cells;
    let mut lists: Vec<Vec<[f64; 3]>> = vec![vec![]; n[0] * n[1] * n[2]];
    c.each(|_, s, p| if let Some(cell) = c.g.cell(s.pos[p]) { lists[(cell[0] * n[1] + cell[1]) * n[2] + cell[2]].push(s.vel[p]); });
    for (k, _) in c.g.zeros().indexed_iter() {
        let l = &lists[(k.0 * n[1] + k.1) * n[2] + k.2];
        let q = l.len() as f64;
        ensure(got.get_weights()[k] == q, || c.why(format!("granular temperature {mode}: cell {k:?} has weight {}, expected {q}", got.get_weights()[k])))?;
        let var = |a: usize| { let mean = l.iter().map(|v| v[a]).sum::<f64>() / q; l.iter().map(|v| (v[a] - mean) * (v[a] - mean)).sum::<f64>() / q };
        let v = match mode { "x" => var(0), "y" => var(1), "z" => var(2), _ => (var(0) + var(1) + var(2)) / 3. };
        let x = got.get_data()[k];
        // rounding may leave a variance of zero slightly below or above zero
        if v.abs() < 1e-7 { ensure(x.is_nan() || x.abs() < 1e-3, || c.why(format!("granular temperature {mode}: cell {k:?} holds {x}, expected 0")))?; continue; }
        ensure(tol(x, v.sqrt(), 1e-6), || c.why(format!("granular temperature {mode}: cell {k:?} holds {x}, expected {}", v.sqrt())))?;
    }
    c.g.same_geometry("granular temperature", &*got)?;
    let bad = r.pick(&["", "absolute", "xy", "X"]);
    refuses(&format!("granular temperature component {bad:?}"), || c.run(|m, s| m.granular_temperature_field(g, s, bad)).unwrap())
}
pub fn c20(r: &mut Rng) -> R {
    let mut c = case(r, Want { nan_vel: 0.08, ..want(1, 5) });
    if r.p(0.5) { c.ds.vmag[0] = r.pick(&[0., 0., 1., 0.5]); c.ds.vmag[2] = r.pick(&[4., 8., 6.]); }
    if c.ds.vmag[2] <= c.ds.vmag[0] { c.ds.vmag[2] = c.ds.vmag[0] + 2.; }
    let bins = r.r(1, 8);
    let limit = if r.p(0.5) { 0. } else { c.ds.vmag[0] + r.pick(&[2., 4., 1.5, 16.]) };
    let (min, max) = (c.ds.vmag[0], if limit == 0. { c.ds.vmag[2] } else { limit });
    // up to rounding at an edge
    let edge = |x: f64, k: usize| (x - (min + k as f64 * (max - min) / bins as f64)).abs() < 1e-9 * (1. + x.abs());
    let firm = min.fract() == 0. && (((max - min) / bins as f64) * 4.).fract() == 0. && (bins == 1 || bins == 2 || bins == 4 || bins == 8);
    for s in c.ds.steps.iter_mut() { for v in s.vel.iter_mut() { let x = norm(*v); if !x.is_nan() && (0..=bins).any(|k| edge(x, k)) && !(firm && x.fract() == 0.) { for _ in 0..50 { *v = [r.fr(-3., 3.), r.fr(-3., 3.), r.fr(-3., 3.)]; if !(0..=bins).any(|k| edge(norm(*v), k)) { break; } } } } }
    let g = c.g.dirty(r);
    c.what = format!("grid {:?} selection {:?} dataset {:?}", c.g, c.sel, c.ds);
    let (h, e) = c.run(|m, s| m.histogram(g.clone(), s, "velocity", limit, bins))?;
    let edges: Array1<f64> = (0..=bins).map(|k| if k == bins { max } else { min + k as f64 * (max - min) / bins as f64 }).collect();
    eq1("histogram edges", &e, &edges).map_err(|e| c.why(e))?;
    ensure(e[bins] == max, || c.why(format!("last edge {} instead of {max}", e[bins])))?;
    let mut w = Array1::<f64>::zeros(bins);
    c.each(|_, s, p| { if c.g.cell(s.pos[p]).is_none() { return; } let x = norm(s.vel[p]); for k in 0..bins { if edges[k] <= x && x < edges[k + 1] { w[k] += 1.; } } });
    eq1(&format!("histogram with {bins} bins from {min} to {max}"), &h, &w).map_err(|e| c.why(e))?;
    let bad = r.pick(&["", "speed", "Velocity", "position"]);
    refuses(&format!("histogram of {bad:?}"), || c.run(|m, s| m.histogram(g, s, bad, limit, bins)).unwrap())
}
pub fn c21(r: &mut Rng) -> R {
    let c = case(r, Want { nan_vel: 0.15, ..want(1, 6) });
    let got = c.run(|m, s| m.mean_velocity_showcase(s))?;
    let (mut s1, mut n) = (0., 0.);
    c.each(|_, s, p| { let v = norm(s.vel[p]); if !v.is_nan() { s1 += v; n += 1.; } });
    ensure(same(got, s1 / n), || c.why(format!("mean velocity {got}, expected {}", s1 / n)))?;
    let q = c.run(|m, s| m.mean_velocity(s))?;
    ensure(q == c.ds.vmag[1], || c.why(format!("quick mean {q}, recorded {}", c.ds.vmag[1])))
}
fn types(r: &mut Rng) -> (usize, usize) { let a = r.pick(&[1usize, 1, 1, 2, 0, 3, 5]); let mut b = r.pick(&[2usize, 2, 1, 0, 3, 7]); if a == b { b = a + 1; } (a, b) }
pub fn c22(r: &mut Rng) -> R {
    let mut c = case(r, want(1, 5));
    while c.g.cells.iter().product::<usize>() < 2 { c.g.cells = [2, r.r(1, 2), r.r(1, 3)]; if c.g.exact && !c.g.cyl { c.g.cells[2] = r.r(1, 2); } }
    for s in c.ds.steps.iter_mut() { for p in s.pos.iter_mut() { if c.g.place(*p) == Place::Amb { *p = c.g.calm(r); } } }
    c.what = format!("grid {:?} selection {:?} dataset {:?}", c.g, c.sel, c.ds);
    let (a, b) = types(r);
    let thr = r.pick(&[0usize, 0, 1, 2, 3]);
    let g = c.g.dirty(r);
    let what = format!("lacey {a} {b} threshold {thr}");
    let (t, x) = c.run(|m, s| m.lacey_mixing(g, s, a, b, thr))?;
    let nt = c.ds.steps.len();
    let (mut wt, mut wx) = (Array1::<f64>::zeros(nt - 1), Array1::<f64>::zeros(nt - 1));
    for k in 0..nt - 1 {
        let s = &c.ds.steps[k];
        if !c.sel.at(s.time) { continue; }
        let (mut ga, mut gb) = (c.g.zeros(), c.g.zeros());
        let (mut na, mut nb) = (0., 0.);
        for p in 0..s.pos.len() {
            if !c.sel.p(s, p) { continue; }
            let ty = s.ptype[p] as usize;
            if ty == a { na += 1.; } else if ty == b { nb += 1.; } else { continue; }
            if let Some(cell) = c.g.cell(s.pos[p]) { if ty == a { ga[cell] += 1.; } else { gb[cell] += 1.; } }
        }
        let mean: f64 = na / (na + nb);
        let n = ga.len() as f64;
        let mut s2 = 0.;
        for (i, y) in ga.indexed_iter() { let tot = y + gb[i]; if tot > 0. && tot >= thr as f64 { s2 += (y / tot - mean) * (y / tot - mean); } }
        s2 /= n - 1.;
        let s0 = mean * (1. - mean);
        wx[k] = (s0 - s2) / (s0 - s0 / n);
        wt[k] = s.time;
    }
    eq1(&format!("{what}: times"), &t, &wt).map_err(|e| c.why(e))?;
    eq1(&what, &x, &wx).map_err(|e| c.why(e))
}
pub fn c23(r: &mut Rng) -> R {
    let c = case(r, want(1, 5));
    let (a, b) = types(r);
    let g = c.g.dirty(r);
    let got = c.run(|m, s| m.concentration_field(g, s, a, b))?;
    let mut m = Model::new(&c.g);
    c.each(|_, s, p| { let ty = s.ptype[p] as usize; if ty == a { m.add(s.pos[p], 1.); } else if ty == b { m.add(s.pos[p], 0.); } });
    means(&mut m);
    m.check_all(&format!("concentration {a} {b}"), &*got).map_err(|e| c.why(e))
}
fn msd_model(c: &Case, dt: f64) -> Model {
    let mut m = Model::new(&c.g);
    let n = c.ds.steps.len();
    c.each(|k, s, p| { if k + 1 >= n { return; } if let Some(j) = c.ds.nearest(s.time + dt) { let q = c.ds.steps[j].pos[p]; m.add(s.pos[p], (0..3).map(|a| (q[a] - s.pos[p][a]) * (q[a] - s.pos[p][a])).sum()); } });
    let w = m.weight.clone();
    for (k, x) in m.data.indexed_iter_mut() { *x = if w[k] > 0. { *x / w[k] } else { 0. }; }
    m
}
pub fn c24(r: &mut Rng) -> R {
    let mut w = want(1, 7);
    w.vary = false;
    w.calm = r.p(0.7);
    let c = case(r, w);
    let dt = r.pick(&[0., 0.25, 0.5, 0.5, 1., 1.5, 0.3, -0.5]);
    let g = c.g.dirty(r);
    let got = c.run(|m, s| m.msd_field(g.clone(), s, dt))?;
    msd_model(&c, dt).check_all(&format!("msd_field after {dt}"), &*got).map_err(|e| c.why(e))?;
    let (lo, step, n) = (r.pick(&[0., 0.5, 0.25]), r.pick(&[0.25, 0.5, 1.]), r.r(1, 4));
    let hi = lo + step * if n > 1 { (n - 1) as f64 } else { 1. };
    let (x, t) = c.run(|m, s| m.msd(g, s, lo, hi, n))?;
    let wt: Array1<f64> = (0..n).map(|i| lo + i as f64 * step).collect();
    eq1("msd delays", &t, &wt).map_err(|e| c.why(e))?;
    let wx: Array1<f64> = wt.iter().map(|t| { let m = msd_model(&c, *t); m.data.iter().zip(m.weight.iter()).map(|(x, y)| x * y).sum::<f64>() / m.weight.sum() }).collect();
    eq1(&format!("msd for {wt:?}"), &x, &wx).map_err(|e| c.why(e))
}
/// a dataset whose particles move back and forth along one axis
fn moving(r: &mut Rng, axis: usize) -> Case {
    let g = G { cyl: false, cells: [2, 2, 2], lim: [[-2., 2.], [-2., 2.], [-2., 2.]], exact: true };
    let nt = if r.p(0.03) { r.r(19, 200) } else { r.r(1, 18) };
    let np = if r.p(0.03) { r.r(5, 40) } else { r.r(1, 4) };
    let vary = r.p(0.2);
    let mut steps = vec![];
    let mut t = r.pick(&[0., 1., 3.5]);
    for _ in 0..nt {
        let mut s = Step { time: t, ..Default::default() };
        let here = if vary { r.n(np + 1) } else { np };
        for p in 0..here {
            let mut q = [r.fr(-2., 2.), r.fr(-2., 2.), r.fr(-2., 2.)];
            q[axis] = if r.p(0.03) { f64::NAN } else if r.p(0.04) { r.pick(&[1e-200, -1e-200, f64::MIN_POSITIVE, -f64::MIN_POSITIVE, 5e-324, -5e-324]) } else { r.pick(&[-1.75, -1.5, -1., -1., -0.5, 0., 0.25, 0.5, 1., 1.25, 1.5]) };
            s.pos.push(q);
            s.vel.push([1., 0., 0.]);
            s.radius.push(r.pick(&RADII));
            s.clouds.push(1.);
            s.density.push(1.);
            s.id.push(if r.p(0.05) { (p + 2) as f64 } else { (p + 1) as f64 });
            s.ptype.push(1.);
        }
        steps.push(s);
        t += r.pick(&[0.25, 0.5, 1.]);
    }
    let ds = Ds { steps, vmag: [0., 1., 2.], dim: [[-2., -3., -2.], [2., 2., 2.5]] };
    let mut sel = Sel::all();
    if r.p(0.2) { sel.radius = vec![0.5, 2.]; }
    if r.p(0.15) { sel.id = vec![r.r(1, 3)]; }
    if r.p(0.3) { let v = ds.times(); let (a, b) = (r.pick(&v), r.pick(&v)); sel.time = (a.min(b), a.max(b)); }
    let what = format!("selection {sel:?} dataset {ds:?}");
    Case { g, ds, sel, what }
}
/// (time, slot, position before, position now) for each considered step and slot
fn moves(c: &Case, axis: usize) -> Vec<(f64, usize, f64, f64)> {
    let mut v = vec![];
    let mut old = 0;
    for k in 1..c.ds.steps.len().saturating_sub(1) {
        let s = &c.ds.steps[k];
        if !c.sel.at(s.time) { continue; }
        let o = &c.ds.steps[old];
        for p in 0..s.pos.len() { if c.sel.p(s, p) && p < o.pos.len() && s.id[p] == o.id[p] { v.push((s.time, p, o.pos[p][axis], s.pos[p][axis])); } }
        old = k;
    }
    v
}
pub fn c25(r: &mut Rng) -> R {
    let axis = r.n(3);
    let c = moving(r, axis);
    let b = r.pick(&[0., 0.1, -1., 0.5, 1.3, -0.75, c.ds.dim[0][axis], c.ds.dim[1][axis]]);
    let got = c.run(|m, s| m.circulation_time(s, axis, b))?;
    let mut n = vec![0; c.ds.max_n()];
    let mut start = vec![0.; c.ds.max_n()];
    let mut w = vec![];
    for (t, p, x, y) in moves(&c, axis) {
        if (x < b && y > b) || (x > b && y < b) {
            n[p] += 1;
            if n[p] == 1 { start[p] = t; }
            if n[p] == 3 { w.push(t - start[p]); n[p] = 0; }
        }
    }
    ensure(got.len() == w.len() && (0..w.len()).all(|k| same(got[k], w[k])), || c.why(format!("circulation times along {axis} at {b}: {got:?}, expected {w:?}")))?;
    let out = if r.p(0.5) { c.ds.dim[1][axis] + r.fr(1e-9, 1.) } else { c.ds.dim[0][axis] - r.fr(1e-9, 1.) };
    refuses(&format!("boundary {out} outside {:?}", c.ds.dim), || c.run(|m, s| m.circulation_time(s, axis, out)).unwrap())
}
pub fn c26(r: &mut Rng) -> R {
    let axis = r.n(3);
    let c = moving(r, axis);
    let lo = r.pick(&[-1.2, -1., -0.75, -0.1, 0., c.ds.dim[0][axis]]);
    let hi = r.pick(&[0.1, 0.5, 0.75, 1.1, 1., c.ds.dim[1][axis]]);
    let got = c.run(|m, s| m.circulation_time_two_boundary(s, axis, (lo, hi)))?;
    #[derive(Clone, Copy, PartialEq)]
    enum Home { None, Low, High }
    let mut st = vec![(Home::None, 0., false); c.ds.max_n()];
    let mut w: Vec<(f64, f64)> = vec![];
    for (t, p, x, y) in moves(&c, axis) {
        let s = &mut st[p];
        for (h, left) in [(Home::High, x > hi && y < hi), (Home::Low, x < lo && y > lo)] {
            if !left { continue; }
            if s.0 == Home::None { *s = (h, t, false); } else if s.0 == h { if s.2 { w.push((s.1, t)); } *s = (h, t, false); }
        }
        if s.0 == Home::High && x > lo && y < lo { s.2 = true; }
        if s.0 == Home::Low && x < hi && y > hi { s.2 = true; }
    }
    ensure(got.len() == w.len() && (0..w.len()).all(|k| same(got[k].0, w[k].0) && same(got[k].1, w[k].1)), || c.why(format!("round trips along {axis} between {lo} and {hi}: {got:?}, expected {w:?}")))?;
    let out = if r.p(0.5) { c.ds.dim[1][axis] + r.fr(1e-9, 1.) } else { c.ds.dim[0][axis] - r.fr(1e-9, 1.) };
    let b = if r.p(0.5) { (out, hi) } else { (lo, out) };
    refuses(&format!("boundaries {b:?} outside {:?}", c.ds.dim), || c.run(|m, s| m.circulation_time_two_boundary(s, axis, b)).unwrap())
}
pub fn c27(r: &mut Rng) -> R {
    let mut w = want(1, 7);
    w.vary = false;
    w.nan_vel = 0.1;
    let c = case(r, w);
    let (nt, np) = (c.ds.steps.len(), c.ds.steps[0].pos.len());
    if np == 0 { return Ok(()); }
    let p = r.n(np);
    let a = r.n(nt);
    let b = r.r(a, nt);
    let got = c.run(|m, _| m.extract(p, (a, b)))?;
    let want = Array2::from_shape_fn((b - a, 7), |(k, j)| { let s = &c.ds.steps[a + k]; if j == 0 { s.time } else if j < 4 { s.pos[p][j - 1] } else { s.vel[p][j - 4] } });
    eq2(&format!("extract({p}, ({a}, {b}))"), &got, &want).map_err(|e| c.why(e))?;
    let bad = if r.p(0.5) { (a, nt + r.r(1, 3)) } else { (nt + r.r(1, 2), nt + 3) };
    refuses(&format!("{nt} timesteps, extract {bad:?}"), || c.run(|m, _| m.extract(p, bad)).unwrap())
}
pub fn c28(r: &mut Rng) -> R {
    use upppp_rust::utilities::maths::*;
    let arr = |r: &mut Rng, nan: f64| -> Array1<f64> { let n = r.n(6); (0..n).map(|_| if r.p(nan) { f64::NAN } else { r.small() }).collect() };
    let (x, y, z) = (arr(r, 0.05), arr(r, 0.05), arr(r, 0.05));
    let (a, b) = guard(|| meshgrid(&x, &y))?;
    eq2(&format!("meshgrid({x}, {y}).0"), &a, &Array2::from_shape_fn((x.len(), y.len()), |k| x[k.0]))?;
    eq2(&format!("meshgrid({x}, {y}).1"), &b, &Array2::from_shape_fn((x.len(), y.len()), |k| y[k.1]))?;
    let (a, b, c) = guard(|| meshgrid3d(&x, &y, &z))?;
    let d = (x.len(), y.len(), z.len());
    eq3(&format!("meshgrid3d({x}, {y}, {z}).0"), &a, &Array3::from_shape_fn(d, |k| x[k.0]))?;
    eq3(&format!("meshgrid3d({x}, {y}, {z}).1"), &b, &Array3::from_shape_fn(d, |k| y[k.1]))?;
    eq3(&format!("meshgrid3d({x}, {y}, {z}).2"), &c, &Array3::from_shape_fn(d, |k| z[k.2]))?;
    let s = [r.r(1, 4), r.r(1, 4), r.r(1, 4)];
    let m = rand3(r, s, 0.1);
    let f: Array1<f64> = (0..m.len()).map(|i| m[[i / (s[1] * s[2]), i / s[2] % s[1], i % s[2]]]).collect();
    eq1(&format!("flatten_3d({m})"), &guard(|| flatten_3d(&m))?, &f)?;
    let m2 = m.index_axis(Axis(0), 0).to_owned();
    let t = if r.p(0.5) { m2.t().to_owned() } else { m2 };
    let w = t.shape()[1];
    let f: Array1<f64> = (0..t.len()).map(|i| t[[i / w, i % w]]).collect();
    eq1(&format!("flatten_2d({t})"), &guard(|| flatten_2d(&t))?, &f)?;
    // an array in column order lists its elements in the same order
    let tt = t.t();
    let cm = tt.to_owned();
    let w = cm.shape()[1];
    let f: Array1<f64> = (0..cm.len()).map(|i| cm[[i / w, i % w]]).collect();
    eq1("flatten_2d of a transposed array", &guard(|| flatten_2d(&cm))?, &f)?;
    let l: Array1<f64> = { let n = r.r(1, 8); let p = if r.p(0.3) { 0.3 } else { 0. }; (0..n).map(|_| if r.p(p) { f64::NAN } else { r.small() }).collect() };
    let l = if r.p(0.15) { l.mapv(|x| if x > 1. { f64::INFINITY } else if x < -3. { f64::NEG_INFINITY } else { x }) } else { l };
    let l = if r.p(0.05) { Array1::from_elem(l.len(), r.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN])) } else { l };
    let nums: Vec<f64> = l.iter().copied().filter(|x| !x.is_nan()).collect();
    if !nums.is_empty() {
        let (lo, hi) = guard(|| minmax(&l))?;
        ensure(nums.iter().all(|x| lo <= *x && *x <= hi) && nums.contains(&lo) && nums.contains(&hi), || format!("minmax of {l} is ({lo}, {hi})"))?;
    }
    let v: Vec<f64> = m.iter().copied().filter(|x| !x.is_nan()).collect();
    let n = v.len() as f64;
    let mean = v.iter().sum::<f64>() / n;
    let sd = (v.iter().map(|x| (x - mean) * (x - mean)).sum::<f64>() / n).sqrt();
    let (gm, gs) = (upppp_rust::utilities::nan_mean(&m), upppp_rust::utilities::nan_std(&m));
    ensure(same(gm, mean) && same(gs, sd), || format!("mean and deviation of {m} are {gm} and {gs}, expected {mean} and {sd}"))
}
pub fn c29(r: &mut Rng) -> R {
    let v3 = |r: &mut Rng, s: f64| [r.fr(-s, s), r.fr(-s, s), r.fr(-s, s)];
    let p = v3(r, 5.);
    let anchor = if r.p(0.2) { [0.; 3] } else { v3(r, 3.) };
    let mut an = v3(r, 7.);
    for a in an.iter_mut() { if r.p(0.35) { *a = r.pick(&[0., PI / 2., PI, -PI / 2., PI / 4.]); } }
    if r.p(0.1) { an = [0.; 3]; }
    // matrices of the three rotations, applied one after the other
    let rot = |v: [f64; 3]| -> [f64; 3] {
        let mut v = v;
        for ax in 0..3 { let (i, j) = ((ax + 1) % 3, (ax + 2) % 3); let (s, c) = (an[ax].sin(), an[ax].cos()); let w = v; v[i] = w[i] * c - w[j] * s; v[j] = w[i] * s + w[j] * c; }
        v
    };
    let close = |a: [f64; 3], b: [f64; 3]| (0..3).all(|i| same(a[i], b[i]));
    let d = rot([p[0] - anchor[0], p[1] - anchor[1], p[2] - anchor[2]]);
    let want = [d[0] + anchor[0], d[1] + anchor[1], d[2] + anchor[2]];
    let got = verif_rotate_position(p, an, anchor);
    ensure(close(got, want), || format!("{p:?} rotated by {an:?} around {anchor:?} is {got:?}, expected {want:?}"))?;
    let v = verif_rotate_velocity(p, an);
    ensure(close(v, rot(p)), || format!("velocity {p:?} rotated by {an:?} is {v:?}, expected {:?}", rot(p)))?;
    ensure(close(v, verif_rotate_position(p, an, [0.; 3])), || format!("velocity and position {p:?} rotated by {an:?} differ"))?;
    ensure(close(verif_rotate_position(anchor, an, anchor), anchor), || format!("the anchor {anchor:?} moved"))?;
    ensure(close(verif_rotate_position(p, [0.; 3], anchor), p) && close(verif_rotate_velocity(p, [0.; 3]), p), || format!("zero angles changed {p:?}"))
}
